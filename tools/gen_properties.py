#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long JSON lines stay reviewable)."""
import json, os
R = "Reference_Implementation/"
O = "Optimized_Implementation/common/"
def both(*names): return [R + n for n in names] + [O + n for n in names]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CFG = "all seven parameter sets x {reference, AVX2-optimised}"
API = "crypto_sign_keypair / crypto_sign / crypto_sign_open return values and buffers"

prop("P01", "Every honestly signed message opens to exactly the original message",
 "For every key pair the library generates, every message of any length (empty and very long ones included) and every state of the random generator, signing succeeds and opening the signed message under the matching public key succeeds and returns exactly the original bytes and length. This holds for every parameter set and for both the reference and the optimised implementation, however many messages and keys are processed in one process. It includes the extreme challenges that require the maximum number of published seeds.",
 ["inputs", "histories", "configurations"],
 f"all RNG seeds, messages (length 0 .. multi-GiB), challenge patterns; {CFG}; any sequence of key pairs and messages",
 "The round-trip tests sample 100 random keys/messages shorter than 160 bytes for category 1 only per build and never meet the extremal challenge patterns; correctness is claimed for every key, message and challenge.",
 both("lib/sign.c", "lib/LESS.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c", "lib/utils.c"),
 [("keygen/sign/verify algorithms", "LESS_keygen, LESS_sign, LESS_verify in lib/LESS.c"), ("NIST API wrapping", "lib/sign.c"), ("canonical form of a code", "prepare_digest_input in lib/codes.c")],
 [API])

prop("P02", "Reference and optimised implementations are byte-for-byte interchangeable",
 "Seeded with the same random-generator seed and performing the same calls, the reference and the optimised implementation produce identical public keys, secret keys and signed messages. Each implementation accepts every signed message the other accepts and rejects every one the other rejects, whatever the public key and signed message contain.",
 ["inputs", "histories", "configurations"],
 "all RNG seeds, messages, public keys and signed messages (well-formed, tampered and malformed), all seven parameter sets",
 "The two implementations are tested separately; no test compares their outputs or feeds one's output to the other.",
 both("lib/LESS.c", "lib/codes.c", "lib/monomial.c", "include/fq_arith.h") + ["Optimized_Implementation/avx2/include/macro.h"],
 [("same scheme, vectorised linear algebra", "Optimized common/lib/codes.c, avx2/include/macro.h"), ("Barrett reductions", O + "include/fq_arith.h")],
 [API])

prop("P03", "Keys and signatures are exactly those the LESS specification prescribes",
 "For every random-generator stream and message, the public key, secret key and signed message produced are exactly the bytes obtained by evaluating the LESS specification (seed expansion, monomial sampling, canonical form, hashing, fixed-weight challenge, seed-tree path, packing) on that stream. Anyone holding only the specification can therefore reproduce every output and verify every signature.",
 ["inputs", "configurations"],
 f"all RNG streams and messages; {CFG}",
 "No test compares against known answers or an independent model, so any change made consistently to signer and verifier (different hash input, different sampling, different packing) passes the round-trip tests.",
 both("lib/LESS.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c", "lib/utils.c", "lib/rng.c"),
 [("scheme algorithms", "lib/LESS.c"), ("seed expansion", "lib/monomial.c, lib/seedtree.c, lib/rng.c")],
 [API])

prop("P04", "Signed messages have the documented layout and never exceed their bounds",
 "A signed message is the unmodified message followed by salt, packed monomial actions, digest, the published seeds and one final byte holding the number of published seeds; its reported length is exactly the message length plus the size of those fields and the number of seeds is exactly the number the challenge requires and never more than the parameter set's maximum. Signing writes nothing outside the message length plus the advertised signature size, key generation writes exactly the advertised key sizes, and opening writes the recovered message only. Inputs passed as constant are never modified.",
 ["inputs", "configurations"],
 f"all keys, messages, RNG states, challenges (including extremal ones); {CFG}",
 "Tests only check that the message survives a round trip; they do not inspect the produced length, the count byte, the fields or the bytes around the output buffers.",
 both("lib/sign.c", "lib/LESS.c", "include/LESS.h", "include/api.h", "include/parameters.h"),
 [("length computation", "crypto_sign in lib/sign.c, LESS_CRYPTO_BYTES in include/parameters.h"), ("seed storage and count byte", "LESS_sign in lib/LESS.c")],
 [API, "guard bytes around every caller buffer"])

prop("P05", "A signature verifies only for the message, key and data it was made with",
 "If any bit of the message, salt, digest, a published seed, a permutation entry or a coefficient ratio of a packed monomial action is changed, if fields of two signatures are mixed, if the message is extended or shortened, or if a different public key is used, opening fails with -1. Opening returns only 0 (accepted) or -1 (rejected).",
 ["inputs", "histories"],
 f"all single- and multi-field alterations of honestly signed messages, all mixes of two signatures, all unrelated keys; {CFG}",
 "No existing test ever presents a bad signature to the verifier; a verifier that accepts everything passes the whole suite.",
 both("lib/LESS.c", "lib/sign.c", "lib/codes.c"),
 [("digest recomputation and comparison", "LESS_verify, timing_safe_memcmp in lib/LESS.c"), ("message and salt binding", "absorb of m and tree_salt in lib/LESS.c")],
 [API])

prop("P06", "The verifier accepts exactly the signatures the verification equation admits",
 "For every public key and every byte string presented as a signed message - truncated, empty, with a wrong seed count, with invalid monomial actions (repeated or out-of-range positions, zero or out-of-range coefficients), or with a malformed public key - opening returns 0 exactly when all fields are well-formed and the recomputed digest equals the transmitted one, and -1 otherwise. In particular a seed count different from what the challenge requires, or a malformed public key (wrong number of pivot flags or a field element outside the field), is always rejected.",
 ["inputs", "fault_sequences"],
 f"all (public key, byte string, length) triples; {CFG}",
 "Tests only present honestly generated signatures under honestly generated keys; no malformed input of any kind is tried.",
 both("lib/sign.c", "lib/LESS.c", "lib/monomial.c", "lib/codes.c", "lib/seedtree.c"),
 [("action validation", "is_monom_action_valid in lib/monomial.c"), ("length and count validation", "crypto_sign_open in lib/sign.c"), ("public key validation", "LESS_verify in lib/LESS.c")],
 [API])

prop("P07", "Opening untrusted input is memory-safe",
 "Whatever bytes and lengths are presented as signed message and public key, opening terminates, reads only the given signed message and public key, writes at most the recovered message length to the message buffer and causes no out-of-bounds access, use of uninitialised data or other undefined behaviour.",
 ["inputs", "fault_sequences"],
 f"all (signed message, length, public key) contents, including lengths 0..signature size and adversarial encodings; {CFG}",
 "Tests never present hostile input and are not built with sanitizers against it; memory errors on malformed input are silent in release builds.",
 both("lib/sign.c", "lib/LESS.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c"),
 [("bounds checks", "crypto_sign_open in lib/sign.c"), ("validation before use", "LESS_verify in lib/LESS.c, is_monom_action_valid in lib/monomial.c")],
 ["ASan/UBSan/MSan reports and guard pages around exact-size buffers"])

prop("P08", "Key generation, signing and opening are free of memory errors and UB",
 "On every honest execution - any key, any message length, any message alignment, any random-generator state and any challenge - key generation, signing and opening perform no out-of-bounds or misaligned access, no signed overflow or other undefined behaviour, no leak, and no failed internal assertion.",
 ["inputs", "configurations"],
 f"all honest executions; {CFG}; adversarially extremal challenges included",
 "Existing AddressSanitizer builds run a few random round trips with short aligned messages; undefined-behaviour checking, unaligned buffers and extremal challenges are never exercised.",
 both("lib/LESS.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c", "lib/keccakf1600.c", "lib/fips202.c", "lib/sign.c"),
 [("fixed-size stack buffers indexed by parameters", "lib/*.c"), ("SIMD loads over padded rows", O + "lib/codes.c")],
 ["ASan/UBSan reports; guard pages and odd alignments of every caller buffer"])

prop("P09", "Results never depend on uninitialised memory",
 "The outputs and return values of key generation, signing and opening are functions of their inputs and the random-generator stream only: they do not change with the previous contents of the stack, the heap or the output buffers, and no branch, memory address or output byte derives from uninitialised memory.",
 ["inputs", "histories", "configurations"],
 f"all inputs x all prior contents of stack, heap and output buffers; {CFG}",
 "A round-trip test run in a fresh process sees one particular stack content (mostly zeros), so a missing initialisation is invisible.",
 both("lib/LESS.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c", "lib/sign.c"),
 [("explicit zeroing of working buffers", "seed_tree, fixed_weight_string, G_dagger, is_pivot_column initialisations in lib/LESS.c, lib/codes.c")],
 ["MemorySanitizer reports; output bytes under different stack/buffer fill patterns"])

prop("P10", "Operations are deterministic and leave no state behind except the RNG stream",
 "Given the same random-generator state and inputs, every operation returns the same result no matter what operations (successful, failed, under other keys) were executed before it. Opening a signed message neither consumes nor alters the random generator, and repeated opening of the same bytes always gives the same answer.",
 ["histories"],
 f"all histories of keygen/sign/open calls; {CFG}",
 "Tests run a straight keygen-sign-open line on fresh state and never replay an operation inside a different history.",
 both("lib/LESS.c", "lib/rng.c", "include/rng.h", "lib/sign.c"),
 [("only global state is the platform CSPRNG", "platform_csprng_state in lib/rng.c")],
 [API, "bytes drawn from the random generator after each call"])

prop("P11", "Signatures never reveal hidden seeds or secret key material",
 "For every signature, every published seed is a node of the signer's ephemeral seed tree none of whose descendants is the seed of a round with a nonzero challenge entry; the root, every ancestor of such a round and every such round's seed stay unpublished. Neither the signed message nor the public key contains the secret key seed, a seed expanded from it, or any hidden ephemeral seed, and seed-storage bytes beyond the published seeds are never filled with tree nodes.",
 ["inputs", "histories"],
 f"all keys, messages, RNG states and challenges; {CFG}",
 "Publishing too much still verifies, so no round-trip test can notice a leak; secrecy must hold for every challenge pattern.",
 both("lib/seedtree.c", "lib/LESS.c"),
 [("publication flags", "compute_seeds_to_publish, seed_tree_path in lib/seedtree.c"), ("ephemeral monomials only released composed with the private one", "LESS_sign in lib/LESS.c")],
 ["signed message bytes compared with the recomputed full seed tree"])

prop("P12", "The challenge is a uniform fixed-weight string determined by the digest",
 "Every digest expands to a challenge with exactly the parameter set's weight of nonzero entries, every nonzero entry naming an existing non-trivial key and every index below the number of rounds, equal to the rejection-sampling expansion the specification defines. Signer and verifier always obtain the same challenge, and over random digests every round is selected, and every key index used, with equal frequency.",
 ["inputs", "configurations"],
 f"all digests; {CFG}",
 "The challenge is only ever exercised implicitly by round trips, which remain consistent under any deterministic (even constant or biased) challenge.",
 both("lib/utils.c", "include/utils.h"),
 [("rejection sampling", "expand_digest_to_fixed_weight in lib/utils.c")],
 ["challenge expanded from a digest; number of seeds and actions in the signed message"])

prop("P13", "The seed tree publishes a minimal cover that rebuilds every public leaf",
 "For every set of hidden rounds with the scheme's weight, the published nodes are exactly the maximal subtrees containing no hidden round, they fit in the reserved seed storage, and rebuilding from them and the salt reproduces the signer's seed for every non-hidden round. The whole tree is the domain-separated expansion of the root seed and salt the specification defines.",
 ["inputs", "configurations"],
 f"all hidden-index sets of the scheme's weight (random, clustered, spread and worst-case patterns), all root seeds and salts; {CFG}",
 "Random challenges reach only typical tree shapes; worst-case covers (the storage limit) have negligible probability and are never hit by the tests.",
 both("lib/seedtree.c", "include/seedtree.h", "include/parameters.h"),
 [("tree expansion/path/rebuild", "lib/seedtree.c"), ("storage bound", "SEED_TREE_MAX_PUBLISHED_BYTES in include/parameters.h")],
 ["seed tree contents, published seeds, signed message under forced challenges"])

prop("P14", "Seeds always expand to valid, unbiased, domain-separated monomial matrices",
 "Every seed (with salt and round number for ephemeral matrices, alone for private ones, or from the system generator) expands to a monomial matrix whose positions are a permutation and whose coefficients are nonzero field elements, identical to the specified rejection sampling and shuffle. Distinct rounds and distinct salts give different matrices for the same seed, and over random seeds every coefficient value and every position is equally frequent.",
 ["inputs", "configurations"],
 f"all seeds, salts and round numbers 0..T-1; {CFG}",
 "Tests multiply and invert a handful of random monomials; they never check validity of sampling, dependence on salt or round, or the distribution.",
 both("lib/monomial.c", "include/fq_arith.h"),
 [("coefficient sampling and shuffle", "monomial_mat_seed_expand_salt_rnd, monomial_mat_seed_expand_prikey, monomial_mat_rnd in lib/monomial.c")],
 ["expanded monomial matrices"])

prop("P15", "Monomial product, inverse, identity and action composition obey group laws",
 "For all monomial matrices, the product is associative and matches applying one after the other to any generator matrix, the identity is neutral, and the inverse composed on either side gives the identity. Composing a monomial with an information-set action gives the action of the product, and applying the resulting action to a code gives the same code as applying the full product, up to rows and the order and scale of the remaining columns.",
 ["inputs", "configurations"],
 f"all pairs/triples of monomials and generator matrices, including extremal ones (identity, reversal, single cycle, all coefficients 126); {CFG}",
 "The unit tests check the inverse and one product on a few random matrices and only for one order of multiplication.",
 both("lib/monomial.c", "lib/codes.c"),
 [("monomial algebra", "monomial_mat_mul, monomial_mat_inv, monomial_mat_id, monomial_compose_action in lib/monomial.c"), ("action on codes", "generator_monomial_mul, apply_action_to_G in lib/codes.c")],
 ["result matrices of the algebra functions"])

prop("P16", "Row reduction yields the unique reduced row-echelon form of any matrix",
 "For every K x N matrix over the field, row reduction reports success exactly when the matrix has full rank, and on success leaves the unique reduced row-echelon form of its row space with exactly the true pivot columns marked. Every entry is left canonical (0..126), also for sparse, repeated-row, zero-column and permuted-pivot matrices.",
 ["inputs", "configurations"],
 f"all K x N matrices over F_127; {CFG}",
 "The unit test reduces a few random matrices whose pivots are almost always the first columns; late pivots, row swaps and rank deficiency are practically never reached.",
 both("lib/codes.c", "include/fq_arith.h") + ["Optimized_Implementation/avx2/include/macro.h"],
 [("in-place Gauss-Jordan", "generator_RREF in lib/codes.c")],
 ["reduced matrix, pivot marks, return value"])

prop("P17", "The digest input is a canonical form of the transformed code",
 "The block hashed for each round depends only on the equivalence of the code: it is unchanged when the basis of the code changes and when non-pivot columns are scaled, or permuted without changing the pivot set, and it always consists of columns whose first nonzero entry is 1 sorted in ascending lexicographic order, containing exactly the normalised non-pivot columns (with multiplicity). It equals the specified normal form for every code and monomial, including codes with repeated, zero or tied columns.",
 ["inputs", "configurations"],
 f"all generator matrices, monomials and column multisets (ties, duplicates, presorted, reversed); {CFG}",
 "Only exercised through round trips on random codes, where columns are distinct and ties never occur; a signer/verifier-consistent but non-canonical form passes.",
 both("lib/codes.c"),
 [("normalisation and sort", "lex_minimize, lex_sort_cols, prepare_digest_input in lib/codes.c")],
 ["normalised matrix and information-set action produced"])

prop("P18", "Packing of generator matrices is lossless and has the specified bit layout",
 "For every reduced generator matrix and every set of pivot columns, packing followed by unpacking returns the same matrix, and the packed bytes are the specified layout: one pivot flag per column, then the non-pivot entries row by row in 7 bits each, little-endian, with zero padding, filling exactly the advertised size. Unpacking reads only the packed bytes, and the compact representation expands back likewise.",
 ["inputs", "configurations"],
 f"all pivot sets of size K and all non-pivot contents; {CFG}",
 "The unit test packs a few random matrices whose pivots sit in the leading columns; layout, padding and unusual pivot sets are not checked.",
 both("lib/codes.c", "include/parameters.h"),
 [("public key packing", "compress_rref, expand_to_rref, generator_rref_compact, generator_rref_expand in lib/codes.c")],
 ["packed bytes and unpacked matrices; public key bytes"])

prop("P19", "Packing of monomial actions is lossless, specified, and validated exactly",
 "For every monomial action, packing followed by unpacking returns the same positions and coefficients, and the packed bytes are the specified little-endian bit layout with zero padding filling exactly the advertised size. A decoded action is accepted as valid exactly when all positions are distinct and below the code length and all coefficients are nonzero field elements.",
 ["inputs", "configurations"],
 f"all actions and all packed byte strings; {CFG}",
 "The unit test round-trips one random action; boundary positions, layout, padding and the validity predicate on malformed actions are not covered.",
 both("lib/monomial.c", "include/parameters.h"),
 [("signature packing", "compress_monom_action, expand_to_monom_action, is_monom_action_valid in lib/monomial.c")],
 ["packed bytes, unpacked actions, validity verdicts; signature bytes"])

prop("P20", "SHA-3 and SHAKE match FIPS 202 for every input and every call pattern",
 "For every input length and output length, one-shot SHA3-256/384/512 and SHAKE128/256 equal FIPS 202, and the incremental interfaces give the same result for every way of splitting the absorbed input and the squeezed output, including empty pieces and pieces ending exactly on block boundaries, from buffers of any alignment; a copied state continues like the original, and neither disturbs the other. No call writes beyond the requested output.",
 ["inputs", "histories"],
 f"all inputs, lengths and splittings; {CFG}",
 "There is no hash test at all; round trips stay consistent under any deterministic function in place of SHA-3.",
 both("lib/fips202.c", "lib/keccakf1600.c", "include/fips202.h", "include/sha3.h"),
 [("sponge", "lib/fips202.c"), ("permutation", "lib/keccakf1600.c")],
 ["hash outputs compared with an independent FIPS 202 implementation"])

prop("P21", "Field arithmetic and field sampling are exact over the whole domain",
 "Reduction, multiplication and inversion agree with arithmetic modulo 127 on every representable operand the code uses, with results in canonical range (the inverse of zero being zero). Field-element samplers return exactly the requested number of elements, all in range, in the order defined by rejection of 7-bit (or narrower) fields of consecutive 64-bit words, for any positive count, without writing past it; a random generator matrix is its rows drawn so from the system generator.",
 ["inputs", "configurations"],
 f"all operands of the field routines; all seeds and counts for the samplers; {CFG}",
 "The unit test only checks x * x^-1 = 1 for nonzero x; double-precision reductions at their range limits and sampler edge cases (rejections, counts at word boundaries) are not covered.",
 both("include/fq_arith.h"),
 [("Barrett/Mersenne reductions, Fermat inversion", "include/fq_arith.h"), ("rejection samplers", "DEF_RAND, DEF_RAND_STATE in include/fq_arith.h")],
 ["results of arithmetic and sampling routines"])

prop("P22", "Every secret is drawn fresh from the random generator, once, in full",
 "Each key generation draws exactly the secret seed and the public-code seed, and each signature exactly one ephemeral root seed and one salt, from the system generator, in that order, and nothing else is drawn. All drawn bytes are used: secrets, salts and ephemeral seeds of successive operations are non-overlapping parts of the generator stream, so no two signatures, even of the same message under the same key, share salt or ephemeral seeds.",
 ["histories", "inputs"],
 f"all sequences of keygen/sign/open calls; {CFG}",
 "Signatures made with reused, truncated or constant randomness still verify, so the round-trip tests cannot notice.",
 both("lib/LESS.c", "include/rng.h", "lib/rng.c"),
 [("randomness draws", "LESS_keygen, LESS_sign in lib/LESS.c; randombytes in include/rng.h")],
 ["generator stream position and bytes after each call; salts and keys in outputs"])

prop("P23", "KAT files are reproducible and correct, and the KAT generator is the NIST DRBG",
 "The known-answer-test generator's byte stream is the AES-256-CTR DRBG of the NIST KAT framework for every seed, personalisation string and sequence of requests (each below 2 GiB), and the seed expander likewise (rejecting null buffers and over-long requests). The KAT program writes request and response files whose every count, seed, mlen, msg, pk, sk, smlen and sm field is the value the specification gives for those inputs, identically on every run and for both implementations; gathering the files of all programs loses and alters none.",
 ["inputs", "histories", "configurations"],
 f"all DRBG seeds and request sequences; the 100 KAT entries; {CFG}",
 "The KAT tests only check that the program exits successfully; the contents of the .req and .rsp files are never compared with anything.",
 [R + "lib/nist/PQCgenKAT_sign.c", R + "lib/nist/KAT_NIST_rng.c", O + "lib/nist/PQCgenKAT_sign.c", O + "lib/nist/KAT_NIST_rng.c", "Utilities/KAT_Generation/lib/PQCgenKAT_sign.c", "Utilities/KAT_Generation/lib/KAT_NIST_rng.c", "Utilities/KAT_Generation/gen_all_kat.sh"],
 [("AES-256-CTR DRBG", "lib/nist/KAT_NIST_rng.c"), ("KAT writer", "lib/nist/PQCgenKAT_sign.c")],
 ["PQCsignKAT_*.req and *.rsp files; DRBG output"])

prop("P24", "Digest comparison and column normalisation take secret-independent paths",
 "Comparing the recomputed digest with the transmitted one, and normalising a column, execute the same instructions and touch the same memory whatever the compared bytes or column entries are; the comparison reports equality exactly when all bytes are equal.",
 ["inputs"],
 f"all pairs of byte strings of any length; all columns; {CFG}",
 "Timing behaviour has no functional effect, so no functional test can observe an early exit.",
 both("lib/LESS.c", "lib/codes.c"),
 [("accumulating comparison", "timing_safe_memcmp in lib/LESS.c"), ("branch-free minimisation", "lex_minimize in lib/codes.c")],
 ["instruction counts and data-dependent branches/addresses observed at run time"])

prop("P25", "Concurrent opening from several threads is race-free and correct",
 "Any number of threads may open signed messages at the same time - same or different messages and keys, valid or not - and each call returns exactly what it would return alone, with no data race. Concurrent signing with the generator accessed by one thread at a time is not disturbed by concurrent opening.",
 ["schedules"],
 f"all interleavings of concurrent open calls (plus one signing thread); {CFG}",
 "All tests are single-threaded.",
 both("lib/LESS.c", "lib/sign.c", "lib/codes.c", "lib/fips202.c"),
 [("no shared mutable state in verification", "LESS_verify in lib/LESS.c (stack-only working storage)")],
 ["ThreadSanitizer reports; results of concurrent calls compared with sequential ones"])

prop("P26", "Parameter sets are consistent with their security level and derived sizes",
 "For every parameter set both implementations use the published LESS parameters, the advertised key and signature sizes are the sum of their fields, and the reserved seed storage is at least the largest number of seeds any challenge can require and equals what the parameter script computes. The script's worst-case bound is never below the true worst case for any number of rounds and weight in its domain.",
 ["configurations", "inputs"],
 "all seven parameter sets, both implementations; all (rounds, weight, seed size) accepted by the script",
 "No test checks sizes or the storage bound against the combinatorial worst case; overflow of the seed storage would need an extremal challenge.",
 both("include/parameters.h", "include/LESS.h", "include/api.h") + ["Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py"],
 [("parameter tables", "include/parameters.h"), ("worst-case formula", "Utilities/Parameter_Generation_Scripts/seed_tree_param_computer.py")],
 ["advertised sizes; script output; seeds published under worst-case challenges"])

prop("P27", "Benchmark statistics are numerically faithful to their samples",
 "For every sequence of samples the benchmark statistics report the arithmetic mean and the sample standard deviation of exactly those samples, to within rounding, also for large offsets, tiny spreads and constant sequences, and the two-sample t statistic computed from them is Welch's, antisymmetric in its arguments.",
 ["inputs", "histories"],
 "all finite sample sequences of length >= 2; the reference, optimised and utility copies",
 "Benchmark programs are only checked to run to completion.",
 [R + "lib/bench/less_benchmark.c", O + "lib/bench/less_benchmark.c", "Utilities/Benchmarking/include/timing_and_stat.h"],
 [("Welford update", "welford_update, welford_mean, welford_stddev, welch_t_statistic")],
 ["mean, standard deviation and t statistic compared with exact rational arithmetic"])

prop("P28", "Results do not depend on the compiler or its optimisation level",
 "However the sources are compiled - gcc or clang, any optimisation level, link-time optimisation, with or without assertions, for the generic or the present processor, with signed or unsigned char - every operation and component gives the same results as the specification's: same keys, same signed messages, same decisions on honest and hostile input.",
 ["configurations", "inputs"],
 "all combinations of compiler, optimisation level and the named options; all inputs; all seven parameter sets x {reference, AVX2-optimised}",
 "The tests run one build with one compiler; undefined, unspecified or implementation-defined behaviour shows only under another.",
 both("lib/LESS.c", "lib/sign.c", "lib/codes.c", "lib/monomial.c", "lib/seedtree.c", "lib/rng.c", "lib/utils.c", "lib/fips202.c", "lib/keccakf1600.c"),
 [("all operations", "crypto_sign_keypair, crypto_sign, crypto_sign_open in lib/sign.c"), ("packing, reduction, sampling, hashing", "lib/codes.c, lib/monomial.c, lib/fips202.c, include/fq_arith.h")],
 ["keys, signed messages, decisions and component results of every build compared with the model's"])

prop("P29", "Every operation works in a fixed amount of memory",
 "Key generation, signing and opening use a stack fixed by the parameter set and implementation, within the documented figures of the memory benchmark (at most three times as much, whatever the compiler): it depends neither on the length of the message, nor on the challenge, nor on the bytes presented for opening, nor on the operations executed before. They keep no heap memory after they return, and the memory of a process does not grow with the number of operations, successful or not.",
 ["inputs", "histories"],
 f"all keys, messages of any length, challenges, presented bytes and sequences of operations; {CFG}",
 "No test measures memory; a buffer sized by the message, a leak on a failing path or a growing cache passes every round trip.",
 both("lib/LESS.c", "lib/sign.c", "lib/codes.c", "lib/seedtree.c") + ["Utilities/MemoryBenchmarking/README.md"],
 [("working storage on the stack only", "LESS_keygen, LESS_sign, LESS_verify in lib/LESS.c"), ("recursion", "col_lex_quicksort in lib/codes.c")],
 ["stack used by each operation on a painted stack; heap requests; resident memory of the process"])

prop("P30", "The benchmark programs and the memory report measure what they name",
 "Each benchmark program executes the operations it reports on - repeatedly, with keys it generated, and verification on signatures that are valid and accepted - and prints the parameters and sizes of its build. The timing table lists for each program the figures that program printed, and 0 for those it did not print. The memory report gives, for every parameter set and operation, the largest stack recorded in that program's massif file, for every well-formed massif file, and a truncated file is refused instead of reported.",
 ["inputs", "configurations"],
 "all benchmark programs, parameter sets and implementations; all massif files",
 "The benchmark programs and the report are built or parsed but their figures are not examined by any test.",
 ["Utilities/MemoryBenchmarking/bench.py", "Utilities/Benchmarking/bench.sh", "Utilities/MemoryBenchmarking/lib/less_verify.c", "Utilities/MemoryBenchmarking/lib/less_sign.c", "Utilities/MemoryBenchmarking/lib/less_keygen.c", "Utilities/Benchmarking/lib/less_benchmark.c", R + "lib/bench/less_benchmark.c", O + "lib/bench/less_benchmark.c"],
 [("programs", "main in less_keygen.c, less_sign.c, less_verify.c, less_benchmark.c"), ("parser and report", "parse, massif_analyse in bench.py")],
 ["operations executed by the programs, with keys and results; printed report compared with the files' contents"])

prop("P31", "The NEON sources compute what the specification prescribes",
 "The implementation for Arm processors (Optimized_Implementation/neon) generates the same keys, the same signed messages and takes the same decisions on honest and hostile input as the specification prescribes and the other implementations do, for every parameter set, without out-of-bounds accesses or undefined behaviour.",
 ["inputs", "configurations"],
 "all seeds, messages, keys and presented bytes; seven parameter sets; NEON intrinsics as defined by the Arm C Language Extensions on a little-endian machine",
 "The build and the tests leave the NEON implementation out altogether.",
 ["Optimized_Implementation/neon/include/macro.h", O + "lib/codes.c", O + "lib/LESS.c", O + "lib/fips202.c", O + "lib/keccakf1600.c"],
 [("vector operations and reductions", "macros in neon/include/macro.h"), ("their use", "generator_monomial_mul, generator_RREF in common/lib/codes.c")],
 ["keys, signed messages, decisions and component results compared with the model's; sanitizer reports"])

prop("P32", "What the printing functions write is the object printed",
 "For every monomial, generator matrix and compact reduced matrix, the text the printing functions write to standard error is the given name, literally, followed by exactly the entries of the object, row by row and in order (the expanded form of a monomial being its full matrix). Printing writes nothing to standard output and leaves the random generator alone.",
 ["inputs", "configurations"],
 f"all objects and names; {CFG}",
 "No test looks at printed text: the test programs print only what failed, so a wrong print would misdirect whoever investigates a failure.",
 both("lib/monomial.c", "lib/codes.c"),
 [("monomials", "monomial_mat_pretty_print, monomial_mat_pretty_print_name, monomial_mat_print_exp_name in lib/monomial.c"), ("matrices", "generator_pretty_print_name, generator_rref_pretty_print_name in lib/codes.c")],
 ["text written to standard error, read back"])

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(here, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

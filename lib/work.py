"""What a property module sees while one of its tasks runs."""
import hashlib, json, os, signal, sys, time, traceback
import numpy as np

class Stop(Exception):
    pass
class Inconclusive(Exception):
    pass

def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:8], "little")

class Work:
    MAXV = 3
    def __init__(self, prop, task, seed, tier, progress=None, only=None):
        self.prop, self.task, self.seed, self.tier = prop, task, seed, tier
        self.label = task["label"]
        self.rng = np.random.default_rng(seed_of(prop, self.label, seed))
        self.evals = 0; self._distinct = set(); self.bulk_distinct = 0
        self.counters = {}; self.samples = []; self.violations = []; self.notes = []
        self.fd = os.open(progress, os.O_RDWR | os.O_CREAT) if progress else None
        self.thorough = tier == "thorough"
    def rbytes(self, n): return self.rng.integers(0, 256, int(n), dtype=np.uint8).tobytes()
    def at(self, **desc):
        """what is about to run: named in the report if the process dies or hangs there"""
        self.now = desc
        if self.fd is not None:
            b = json.dumps(desc, default=str)[:4000].encode()
            os.pwrite(self.fd, len(b).to_bytes(4, "little") + b, 0)
    def case(self, *key, nontrivial=True):
        self.evals += 1
        if nontrivial:
            self._distinct.add(hashlib.blake2b(b"\0".join(k if isinstance(k, bytes) else repr(k).encode() for k in key), digest_size=8).digest())
    def cases(self, n, distinct):
        self.evals += int(n); self.bulk_distinct += int(distinct)
    def count(self, name, n=1): self.counters[name] = self.counters.get(name, 0) + int(n)
    def high(self, name, v): self.counters["max " + name] = max(self.counters.get("max " + name, v), int(v))
    def sample(self, **d):
        if len(self.samples) < 2: self.samples.append(dict(d, task=self.label))
    def note(self, text):
        if text not in self.notes: self.notes.append(text)
    def check(self, ok, key, **detail):
        """the oracle's verdict on one observation"""
        if ok: return True
        self.violations.append({"key": f"{self.prop}:{key}", "task": self.label, "detail": {k: show(v) for k, v in detail.items()}})
        if len(self.violations) >= self.MAXV: raise Stop
        return False
    def result(self):
        return {"label": self.label, "evals": self.evals, "distinct": len(self._distinct) + self.bulk_distinct, "counters": self.counters,
                "samples": self.samples, "violations": self.violations, "notes": self.notes}

def show(v):
    if isinstance(v, (bytes, bytearray)): return v.hex() if len(v) <= 96 else f"{v[:32].hex()}...({len(v)} bytes, sha256 {hashlib.sha256(v).hexdigest()[:16]})"
    if isinstance(v, np.ndarray): return v.tolist() if v.size <= 64 else f"array{v.shape} sha256 {hashlib.sha256(v.tobytes()).hexdigest()[:16]}"
    if isinstance(v, np.generic): return v.item()
    return v

def run_task(mod, prop, task, seed, tier, out, progress):
    W = Work(prop, task, seed, tier, progress)
    res = {"error": None}
    try:
        try:
            getattr(mod, task["fn"])(W, **task.get("args", {}))
        except Stop:
            pass
        res.update(W.result())
    except BaseException as e:
        res.update(W.result()); res["error"] = f"{type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]
        if type(e).__name__ == "BuildError": res["build_error"] = True
    with open(out + ".tmp", "w") as f: json.dump(res, f, default=str)
    os.rename(out + ".tmp", out)

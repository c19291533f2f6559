/* component shim: vector-friendly reductions of the optimised implementation */
#include <stdint.h>
#include "fq_arith.h"
unsigned vi_br_mul(unsigned a, unsigned b) { return br_mul((FQ_ELEM)a, (FQ_ELEM)b); }
unsigned vi_br_red(unsigned a) { return br_red((FQ_ELEM)a); }
unsigned vi_br_red16(unsigned a) { return br_red16((FQ_DOUBLEPREC)a); }

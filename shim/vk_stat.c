/* the benchmark statistics of one copy, for the driver: VW_FILE is the source or header defining them */
#include <stdint.h>
#include <stdio.h>
#include <math.h>
#define main vw_program
#include VW_FILE
#undef main

#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAXS 8
static welford_t S[MAXS];
void vw_init(int k) { memset(&S[k], 0xA5, sizeof S[k]); welford_init(&S[k]); }
void vw_update(int k, const double *x, long n) { for (long i = 0; i < n; i++) welford_update(&S[k], (long double)x[i]); }
/* a, b, a, b, ... */
void vw_pair(int k, double a, double b, long n) { for (long i = 0; i < n; i++) welford_update(&S[k], i & 1 ? (long double)b : (long double)a); }
static void two(long double v, double *hi, double *lo) { *hi = (double)v; *lo = (double)(v - (long double)*hi); }
void vw_mean(int k, double *o) { two(welford_mean(S[k]), o, o + 1); }
void vw_dev(int k, double *o) { two(welford_stddev(S[k]), o, o + 1); }
double vw_t(int a, int b) { return welch_t_statistic(S[a], S[b]); }
int vw_print(int k, char *out, int n) {
    char *p = 0; size_t l = 0; FILE *o = stdout, *m = open_memstream(&p, &l);
    fflush(stdout); stdout = m; welford_print(S[k]); fflush(stdout); stdout = o; fclose(m);
    if (l >= (size_t)n) l = n - 1;
    memcpy(out, p, l); out[l] = 0; free(p); return (int)l;
}


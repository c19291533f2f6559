/* component shim: digest comparison (not declared in a header) */
int timing_safe_memcmp(const unsigned char *a, const unsigned char *b, unsigned int n) __attribute__((weak));
int vi_has_memcmp(void) { return timing_safe_memcmp != 0; }
int vi_memcmp(const unsigned char *a, const unsigned char *b, unsigned n) { return timing_safe_memcmp(a, b, n); }

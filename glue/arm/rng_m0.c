/* FAMILIES: m0 */
/* the unit program has no board: random bytes come from the test bench */
__attribute__((naked)) void vf_rng(unsigned char *o, unsigned long n) { __asm volatile("svc #1\n\tbx lr"); }
void randombytes(unsigned char *o, unsigned long long n) { vf_rng(o, n); }

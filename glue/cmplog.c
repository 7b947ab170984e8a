/* Linked into the "cov" builds only: reports every comparison the compiler kept, as (site, a, b, bytes). */
#include <stdint.h>
#include <stddef.h>
typedef void (*vf_cmp_fn)(uint64_t site, uint64_t a, uint64_t b, unsigned size);
typedef void (*vf_mem_fn)(uint64_t site, const void *a, const void *b, size_t n);
static vf_cmp_fn cb;
static vf_mem_fn mb;
__attribute__((visibility("default"))) void vf_set_cmp(vf_cmp_fn f, vf_mem_fn m) { cb = f; mb = m; }
#define HERE ((uint64_t)(uintptr_t)__builtin_return_address(0))
#define T(name, type, n) void name(type a, type b) { if (cb) cb(HERE, a, b, n); }
T(__sanitizer_cov_trace_cmp1, uint8_t, 1)
T(__sanitizer_cov_trace_cmp2, uint16_t, 2)
T(__sanitizer_cov_trace_cmp4, uint32_t, 4)
T(__sanitizer_cov_trace_cmp8, uint64_t, 8)
#define K(name, type, n) void name(type k, type v) { if (cb) cb(HERE, v, k, n); }
K(__sanitizer_cov_trace_const_cmp1, uint8_t, 1)
K(__sanitizer_cov_trace_const_cmp2, uint16_t, 2)
K(__sanitizer_cov_trace_const_cmp4, uint32_t, 4)
K(__sanitizer_cov_trace_const_cmp8, uint64_t, 8)
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c)
{
	if (cb)
		for (uint64_t i = 0; i < c[0]; i++)
			cb(HERE + ((i + 1) << 48), v, c[2 + i], (unsigned)c[1] / 8);
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
static int order(const void *p, const void *q, size_t n)
{
	const unsigned char *a = p, *b = q;
	for (size_t i = 0; i < n; i++)
		if (a[i] != b[i])
			return a[i] < b[i] ? -1 : 1;
	return 0;
}
int __wrap_memcmp(const void *a, const void *b, size_t n)
{
	if (mb)
		mb(HERE, a, b, n);
	return order(a, b, n);
}
int __wrap_bcmp(const void *a, const void *b, size_t n)
{
	if (mb)
		mb(HERE, a, b, n);
	return order(a, b, n);
}

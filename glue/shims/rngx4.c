/* FAMILIES: x4 */
#include <stddef.h>
#include "rng.h"
int vf_drbg_lane(int lane, unsigned char *x, unsigned long long n)
{
	switch (lane)
	{
	case 0: return randombytes0(x, n);
	case 1: return randombytes1(x, n);
	case 2: return randombytes2(x, n);
	default: return randombytes3(x, n);
	}
}

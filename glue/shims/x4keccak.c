/* FAMILIES: x4 */
#include <stddef.h>
#include "keccak4x/KeccakP-1600-times4-SnP.h"
typedef unsigned char u8;
/* one entry for the whole state interface: the operations in the order of the header */
unsigned long vf_k4(int op, void *st, unsigned inst, u8 *data, u8 *data2, unsigned a, unsigned b, unsigned c)
{
	switch (op) {
	case 0: KeccakP1600times4_InitializeAll(st); break;
	case 1: KeccakP1600times4_AddByte(st, inst, (u8)b, a); break;
	case 2: KeccakP1600times4_AddBytes(st, inst, data, a, b); break;
	case 3: KeccakP1600times4_AddLanesAll(st, data, a, b); break;
	case 4: KeccakP1600times4_OverwriteBytes(st, inst, data, a, b); break;
	case 5: KeccakP1600times4_OverwriteLanesAll(st, data, a, b); break;
	case 6: KeccakP1600times4_OverwriteWithZeroes(st, inst, a); break;
	case 7: KeccakP1600times4_PermuteAll_12rounds(st); break;
	case 8: KeccakP1600times4_PermuteAll_24rounds(st); break;
	case 9: KeccakP1600times4_ExtractBytes(st, inst, data, a, b); break;
	case 10: KeccakP1600times4_ExtractLanesAll(st, data, a, b); break;
	case 11: KeccakP1600times4_ExtractAndAddBytes(st, inst, data, data2, a, b); break;
	case 12: KeccakP1600times4_ExtractAndAddLanesAll(st, data, data2, a, b); break;
	}
	return 0;
}
unsigned long vf_k4_fast(int twelve, void *st, unsigned lanes, unsigned par, unsigned ser, u8 *data, unsigned long n)
{
	return twelve ? KeccakP1600times4_12rounds_FastLoop_Absorb(st, lanes, par, ser, data, n)
		      : KeccakF1600times4_FastLoop_Absorb(st, lanes, par, ser, data, n);
}
unsigned long vf_k4_size(void) { return KeccakP1600times4_statesSizeInBytes; }

/* FAMILIES: x4 */
#include "fips202x4.h"
#define P unsigned char *
#define CP const unsigned char *
void vf_shake128x4(P *o, unsigned long long on, CP *i, unsigned long long n) { shake128x4(o[0], o[1], o[2], o[3], on, i[0], i[1], i[2], i[3], n); }
void vf_shake256x4(P *o, unsigned long long on, CP *i, unsigned long long n) { shake256x4(o[0], o[1], o[2], o[3], on, i[0], i[1], i[2], i[3], n); }
void vf_sha3_256x4(P *o, CP *i, unsigned long long n) { sha3_256x4(o[0], o[1], o[2], o[3], i[0], i[1], i[2], i[3], n); }
void vf_sha3_512x4(P *o, CP *i, unsigned long long n) { sha3_512x4(o[0], o[1], o[2], o[3], i[0], i[1], i[2], i[3], n); }

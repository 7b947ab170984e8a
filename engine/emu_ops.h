#pragma once
#include "engine.h"
enum Op : u8 {
	NONE,
	UNDEF,
	// data processing, second operand shifted register (sh, shn) or immediate (_I)
	AND, BIC, ORR, ORN, EOR, ADD, ADC, SBC, SUB, RSB, MOV, MVN, TST, TEQ, CMN, CMP,
	AND_I, BIC_I, ORR_I, ORN_I, EOR_I, ADD_I, ADC_I, SBC_I, SUB_I, RSB_I, MOV_I, MVN_I, TST_I, TEQ_I, CMN_I, CMP_I,
	LSLR, LSRR, ASRR, RORR, MOVT,
	// branches
	B, BL, BX, BLX, CBZ, CBNZ, TBB, TBH,
	// memory: sh = mode (0 imm offset no wb, 1 reg offset, 2 pre-index wb, 3 post-index, 4 literal)
	LDR, LDRB, LDRH, LDRSB, LDRSH, STR, STRB, STRH, LDRD, STRD, LDM, STM, LDMDB, STMDB,
	LDREX, STREX,
	// extend, bits
	SXTH, SXTB, UXTH, UXTB, SXTB16, UXTB16, REV, REV16, REVSH, RBIT, CLZ, BFI, BFC, UBFX, SBFX, SSAT, USAT, SSAT16, USAT16, SEL, PKHBT, PKHTB,
	// multiply
	MUL, MLA, MLS, SMLAXY, SMULXY, SMLAD, SMUAD, SMLSD, SMUSD, SMLAW, SMULW, SMMLA, SMMUL, SMMLS, USADA8, USAD8,
	SMULL, UMULL, SMLAL, UMLAL, UMAAL, SMLALXY, SMLALD, SMLSLD, SDIV, UDIV,
	PAR, QADD, QDADD, QSUB, QDSUB,
	SVC, NOP, CPS, MRS, MSR, BKPT, HOOK, ITOP
};

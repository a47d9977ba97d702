#ifndef VP_OPS_H
#define VP_OPS_H
enum VpOp {
	OP_CONST, OP_VAR, OP_TAB,
	OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_SHL, OP_LSHR, OP_ASHR, OP_AND, OP_OR, OP_XOR,
	OP_EQ, OP_NE, OP_UGT, OP_UGE, OP_ULT, OP_ULE, OP_SGT, OP_SGE, OP_SLT, OP_SLE,
	OP_NOT, OP_ITE, OP_CONCAT, OP_EXTRACT, OP_ZEXT, OP_SEXT, OP_TRUNC,
	OP_UMIN, OP_UMAX, OP_SMIN, OP_SMAX, OP_USUBSAT, OP_UADDSAT,
	OP_UADDO, OP_SADDO, OP_USUBO, OP_SSUBO, OP_UMULO, OP_SMULO,
	OP_ABS, OP_BSWAP, OP_CTPOP, OP_CTLZ, OP_CTTZ,
	/* floating point from here on */
	OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FMIN, OP_FMAX, OP_COPYSIGN,
	OP_FNEG, OP_FABS, OP_RINT, OP_FLOOR, OP_CEIL, OP_FTRUNC, OP_ROUND, OP_SQRT,
	OP_SITOFP, OP_UITOFP, OP_FPTOSI, OP_FPTOUI, OP_FPEXT, OP_FPTRUNC,
	OP_FOEQ, OP_FOGT, OP_FOGE, OP_FOLT, OP_FOLE, OP_FONE, OP_FORD, OP_FUNO, OP_FUEQ, OP_FUGT, OP_FUGE, OP_FULT, OP_FULE, OP_FUNE,
	OP_LAST
};
#endif

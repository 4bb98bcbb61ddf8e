#include "textflag.h"

// func goid() uint64
TEXT ·goid(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET

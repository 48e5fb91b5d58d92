//go:build amd64 && gc && !purego && !noasm

package verifkern

import (
	"github.com/nlpodyssey/spago/mat/internal/matfuncs"
	"github.com/nlpodyssey/spago/mat/internal/matfuncs/cpu"
)

func multiple(n int) {
	for i := len(K32) - 2; i < len(K32); i++ {
		K32[i].Multiple = n
	}
}

func init() {
	addBin(&K32, "matfuncs.AddSSE32", matfuncs.AddSSE32)
	addBin(&K64, "matfuncs.AddSSE64", matfuncs.AddSSE64)
	addBin(&K32, "matfuncs.SubSSE32", matfuncs.SubSSE32)
	addBin(&K64, "matfuncs.SubSSE64", matfuncs.SubSSE64)
	addBin(&K32, "matfuncs.DivSSE32", matfuncs.DivSSE32)
	addBin(&K64, "matfuncs.DivSSE64", matfuncs.DivSSE64)
	addConst(&K32, "matfuncs.AddConstSSE32", matfuncs.AddConstSSE32)
	addConst(&K64, "matfuncs.AddConstSSE64", matfuncs.AddConstSSE64)
	addConst(&K32, "matfuncs.MulConstSSE32", matfuncs.MulConstSSE32)
	addConst(&K64, "matfuncs.MulConstSSE64", matfuncs.MulConstSSE64)
	addUn(&K32, "matfuncs.ExpSSE32", matfuncs.ExpSSE32)
	multiple(4)
	addUn(&K32, "matfuncs.LogSSE32", matfuncs.LogSSE32)
	multiple(4)
	addDot(&K32, "matfuncs.DotProdSSE32", matfuncs.DotProdSSE32)
	addDot(&K64, "matfuncs.DotProdSSE64", matfuncs.DotProdSSE64)
	addSum(&K32, "matfuncs.SumSSE32", matfuncs.SumSSE32)
	addSum(&K64, "matfuncs.SumSSE64", matfuncs.SumSSE64)
	if cpu.X86.HasAVX && cpu.X86.HasAVX2 && cpu.X86.HasFMA {
		addBin(&K32, "matfuncs.AddAVX32", matfuncs.AddAVX32)
		addBin(&K64, "matfuncs.AddAVX64", matfuncs.AddAVX64)
		addBin(&K32, "matfuncs.SubAVX32", matfuncs.SubAVX32)
		addBin(&K64, "matfuncs.SubAVX64", matfuncs.SubAVX64)
		addBin(&K32, "matfuncs.DivAVX32", matfuncs.DivAVX32)
		addBin(&K64, "matfuncs.DivAVX64", matfuncs.DivAVX64)
		addConst(&K32, "matfuncs.AddConstAVX32", matfuncs.AddConstAVX32)
		addConst(&K64, "matfuncs.AddConstAVX64", matfuncs.AddConstAVX64)
		addConst(&K32, "matfuncs.MulConstAVX32", matfuncs.MulConstAVX32)
		addConst(&K64, "matfuncs.MulConstAVX64", matfuncs.MulConstAVX64)
		addUn(&K32, "matfuncs.ExpAVX32", matfuncs.ExpAVX32)
		multiple(8)
		addUn(&K32, "matfuncs.LogAVX32", matfuncs.LogAVX32)
		multiple(8)
		addDot(&K32, "matfuncs.DotProdAVX32", matfuncs.DotProdAVX32)
		addDot(&K64, "matfuncs.DotProdAVX64", matfuncs.DotProdAVX64)
		addSum(&K32, "matfuncs.SumAVX32", matfuncs.SumAVX32)
		addSum(&K64, "matfuncs.SumAVX64", matfuncs.SumAVX64)
	}
}

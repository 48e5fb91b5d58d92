// Package verifkern re-exports the internal numeric kernels to the monitoring
// harness. It exists only in the build overlay of /verif.
package verifkern

import (
	"github.com/nlpodyssey/spago/mat/internal/f32"
	"github.com/nlpodyssey/spago/mat/internal/f32/asm32"
	"github.com/nlpodyssey/spago/mat/internal/f64"
	"github.com/nlpodyssey/spago/mat/internal/f64/asm64"
	"github.com/nlpodyssey/spago/mat/internal/matfuncs"
)

// Kernel is one kernel. Slices is the role of each vector operand: 'r' it is
// read, 'w' it is written (and perhaps read). Call applies the kernel to
// vectors of n elements each, c being its scalar operand.
type Kernel[T any] struct {
	Name   string
	Slices string
	// Size gives the length of each vector for the (m, n, inc) at hand; nil: n.
	Size func(m, n, inc int) []int
	Call func(c T, m, n, inc int, v [][]T)
	// Pos: operands must be positive.
	Pos bool
	// Multiple: the kernel accepts only lengths that are multiples of it (its
	// caller deals with the rest).
	Multiple int
}

var K32 []Kernel[float32]
var K64 []Kernel[float64]

func addBin[T any](ks *[]Kernel[T], name string, f func(a, b, y []T)) {
	*ks = append(*ks, Kernel[T]{Name: name, Slices: "rrw", Call: func(_ T, _, _, _ int, v [][]T) { f(v[0], v[1], v[2]) }},
		Kernel[T]{Name: name + "/inplace", Slices: "wr", Call: func(_ T, _, _, _ int, v [][]T) { f(v[0], v[1], v[0]) }})
}
func addConst[T any](ks *[]Kernel[T], name string, f func(c T, x, y []T)) {
	*ks = append(*ks, Kernel[T]{Name: name, Slices: "rw", Call: func(c T, _, _, _ int, v [][]T) { f(c, v[0], v[1]) }},
		Kernel[T]{Name: name + "/inplace", Slices: "w", Call: func(c T, _, _, _ int, v [][]T) { f(c, v[0], v[0]) }})
}
func addUn[T any](ks *[]Kernel[T], name string, f func(x, y []T)) {
	*ks = append(*ks, Kernel[T]{Name: name, Slices: "rw", Pos: true, Call: func(_ T, _, _, _ int, v [][]T) { f(v[0], v[1]) }},
		Kernel[T]{Name: name + "/inplace", Slices: "w", Pos: true, Call: func(_ T, _, _, _ int, v [][]T) { f(v[0], v[0]) }})
}
func addDot[T any](ks *[]Kernel[T], name string, f func(x, y []T) T) {
	*ks = append(*ks, Kernel[T]{Name: name, Slices: "rrw", Size: func(m, n, inc int) []int { return []int{n, n, 1} },
		Call: func(_ T, _, _, _ int, v [][]T) { v[2][0] = f(v[0], v[1]) }})
}
func addSum[T any](ks *[]Kernel[T], name string, f func(x []T) T) {
	*ks = append(*ks, Kernel[T]{Name: name, Slices: "rw", Size: func(m, n, inc int) []int { return []int{n, 1} },
		Call: func(_ T, _, _, _ int, v [][]T) { v[1][0] = f(v[0]) }})
}

func span(n, inc int) int {
	if n == 0 {
		return 0
	}
	return (n-1)*inc + 1
}

func init() {
	addBin(&K32, "matfuncs.Add32", matfuncs.Add32)
	addBin(&K32, "matfuncs.Sub32", matfuncs.Sub32)
	addBin(&K32, "matfuncs.Div32", matfuncs.Div32)
	addConst(&K32, "matfuncs.AddConst32", matfuncs.AddConst32)
	addConst(&K32, "matfuncs.MulConst32", matfuncs.MulConst32)
	addUn(&K32, "matfuncs.Exp32", matfuncs.Exp32)
	addUn(&K32, "matfuncs.Log32", matfuncs.Log32)
	addDot(&K32, "matfuncs.DotProd32", matfuncs.DotProd32)
	addSum(&K32, "matfuncs.Sum32", matfuncs.Sum32)
	addBin(&K64, "matfuncs.Add64", matfuncs.Add64)
	addBin(&K64, "matfuncs.Sub64", matfuncs.Sub64)
	addBin(&K64, "matfuncs.Div64", matfuncs.Div64)
	addConst(&K64, "matfuncs.AddConst64", matfuncs.AddConst64)
	addConst(&K64, "matfuncs.MulConst64", matfuncs.MulConst64)
	addUn(&K64, "matfuncs.Exp64", matfuncs.Exp64)
	addUn(&K64, "matfuncs.Log64", matfuncs.Log64)
	addDot(&K64, "matfuncs.DotProd64", matfuncs.DotProd64)
	addSum(&K64, "matfuncs.Sum64", matfuncs.Sum64)

	K32 = append(K32,
		Kernel[float32]{Name: "asm32.AxpyUnitary", Slices: "rw", Call: func(c float32, _, _, _ int, v [][]float32) { asm32.AxpyUnitary(c, v[0], v[1]) }},
		Kernel[float32]{Name: "asm32.AxpyUnitaryTo", Slices: "rrw", Call: func(c float32, _, _, _ int, v [][]float32) { asm32.AxpyUnitaryTo(v[2], c, v[0], v[1]) }},
		Kernel[float32]{Name: "asm32.AxpyUnitaryTo/inplace", Slices: "rw", Call: func(c float32, _, _, _ int, v [][]float32) { asm32.AxpyUnitaryTo(v[1], c, v[0], v[1]) }},
		Kernel[float32]{Name: "f32.CumSum", Slices: "wr", Call: func(c float32, _, _, _ int, v [][]float32) { f32.CumSum(v[0], v[1]) }},
		Kernel[float32]{Name: "asm32.AxpyInc", Slices: "rw", Size: func(m, n, inc int) []int { return []int{span(n, inc), span(n, inc)} },
			Call: func(c float32, _, n, inc int, v [][]float32) {
				asm32.AxpyInc(c, v[0], v[1], uintptr(n), uintptr(inc), uintptr(inc), 0, 0)
			}},
		Kernel[float32]{Name: "f32.MatrixMul", Slices: "rrw", Size: func(m, n, inc int) []int { return []int{m * inc, inc * n, m * n} },
			Call: func(c float32, m, n, inc int, v [][]float32) { f32.MatrixMul(m, inc, n, v[0], v[1], v[2]) }},
		Kernel[float32]{Name: "asm32.Ger", Slices: "rrw", Size: func(m, n, inc int) []int { return []int{m, n, m * n} },
			Call: func(c float32, m, n, inc int, v [][]float32) {
				asm32.Ger(uintptr(m), uintptr(n), c, v[0], 1, v[1], 1, v[2], uintptr(n))
			}},
	)
	addDot(&K32, "asm32.DotUnitary", asm32.DotUnitary)
	addDot(&K32, "asm32.DdotUnitary", func(x, y []float32) float32 { return float32(asm32.DdotUnitary(x, y)) })
	addSum(&K32, "asm32.Sum", asm32.Sum)

	addBin(&K64, "asm64.DivTo", func(a, b, y []float64) { asm64.DivTo(y, a, b) })
	addDot(&K64, "asm64.DotUnitary", asm64.DotUnitary)
	addDot(&K64, "asm64.L1Dist", asm64.L1Dist)
	addDot(&K64, "asm64.LinfDist", asm64.LinfDist)
	addSum(&K64, "asm64.Sum", asm64.Sum)
	addSum(&K64, "asm64.L1Norm", asm64.L1Norm)
	K64 = append(K64,
		Kernel[float64]{Name: "asm64.AxpyUnitary", Slices: "rw", Call: func(c float64, _, _, _ int, v [][]float64) { asm64.AxpyUnitary(c, v[0], v[1]) }},
		Kernel[float64]{Name: "asm64.AxpyUnitaryTo", Slices: "rrw", Call: func(c float64, _, _, _ int, v [][]float64) { asm64.AxpyUnitaryTo(v[2], c, v[0], v[1]) }},
		Kernel[float64]{Name: "asm64.AxpyUnitaryTo/inplace", Slices: "rw", Call: func(c float64, _, _, _ int, v [][]float64) { asm64.AxpyUnitaryTo(v[1], c, v[0], v[1]) }},
		Kernel[float64]{Name: "asm64.CumSum", Slices: "wr", Call: func(c float64, _, _, _ int, v [][]float64) { asm64.CumSum(v[0], v[1]) }},
		Kernel[float64]{Name: "asm64.CumProd", Slices: "wr", Call: func(c float64, _, _, _ int, v [][]float64) { asm64.CumProd(v[0], v[1]) }},
		Kernel[float64]{Name: "asm64.Add", Slices: "wr", Call: func(c float64, _, _, _ int, v [][]float64) { asm64.Add(v[0], v[1]) }},
		Kernel[float64]{Name: "asm64.Div", Slices: "wr", Call: func(c float64, _, _, _ int, v [][]float64) { asm64.Div(v[0], v[1]) }},
		Kernel[float64]{Name: "asm64.AddConst", Slices: "w", Call: func(c float64, _, _, _ int, v [][]float64) { asm64.AddConst(c, v[0]) }},
		Kernel[float64]{Name: "asm64.ScalUnitary", Slices: "w", Call: func(c float64, _, _, _ int, v [][]float64) { asm64.ScalUnitary(c, v[0]) }},
		Kernel[float64]{Name: "asm64.ScalUnitaryTo", Slices: "wr", Call: func(c float64, _, _, _ int, v [][]float64) { asm64.ScalUnitaryTo(v[0], c, v[1]) }},
		Kernel[float64]{Name: "asm64.ScalInc", Slices: "w", Size: func(m, n, inc int) []int { return []int{span(n, inc)} },
			Call: func(c float64, _, n, inc int, v [][]float64) { asm64.ScalInc(c, v[0], uintptr(n), uintptr(inc)) }},
		Kernel[float64]{Name: "asm64.AxpyInc", Slices: "rw", Size: func(m, n, inc int) []int { return []int{span(n, inc), span(n, inc)} },
			Call: func(c float64, _, n, inc int, v [][]float64) {
				asm64.AxpyInc(c, v[0], v[1], uintptr(n), uintptr(inc), uintptr(inc), 0, 0)
			}},
		Kernel[float64]{Name: "f64.MatrixMul", Slices: "rrw", Size: func(m, n, inc int) []int { return []int{m * inc, inc * n, m * n} },
			Call: func(c float64, m, n, inc int, v [][]float64) { f64.MatrixMul(m, inc, n, v[0], v[1], v[2]) }},
		Kernel[float64]{Name: "asm64.Ger", Slices: "rrw", Size: func(m, n, inc int) []int { return []int{m, n, m * n} },
			Call: func(c float64, m, n, inc int, v [][]float64) {
				asm64.Ger(uintptr(m), uintptr(n), c, v[0], 1, v[1], 1, v[2], uintptr(n))
			}},
		Kernel[float64]{Name: "asm64.GemvN", Slices: "rrw", Size: func(m, n, inc int) []int { return []int{m * n, n, m} },
			Call: func(c float64, m, n, inc int, v [][]float64) {
				asm64.GemvN(uintptr(m), uintptr(n), c, v[0], uintptr(n), v[1], 1, 0, v[2], 1)
			}},
		Kernel[float64]{Name: "asm64.GemvT", Slices: "rrw", Size: func(m, n, inc int) []int { return []int{m * n, m, n} },
			Call: func(c float64, m, n, inc int, v [][]float64) {
				asm64.GemvT(uintptr(m), uintptr(n), c, v[0], uintptr(n), v[1], 1, 0, v[2], 1)
			}},
	)
}

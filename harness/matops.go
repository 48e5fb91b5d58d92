package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
)

// matInst is one application of a method of the matrix type.
type matInst struct {
	desc string
	xs   []*M
	// run applies the method; the receiver is xs[0]. It returns the resulting
	// matrices.
	run func(xs []mat.Matrix) []mat.Matrix
	ref func(xs []*M) []*M
	// mag bounds, for each result element, the magnitude of the terms summed,
	// and n the number of terms: rounding errors are proportional to both.
	mag func(xs []*M) []*M
	n   int
	// inplace: the result is the receiver itself.
	inplace bool
	// inexact: the data is real-valued even in exact mode.
	inexact bool
	// tol is an additional relative tolerance (approximated functions).
	tol float64
	abs float64
}

type matGen struct {
	r       *Rng
	exact   bool // integer data, so that float arithmetic is exact
	big     bool
	special bool // zeros of both signs, infinities, NaN and subnormal numbers come up
	real    bool // the operator drew real-valued data regardless
}

var specials = []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), 1e-40, -3e-42, 1e-310, 1, -1, 1e-30, 100, -100, 89, -89, -104, 0.5}

func (g *matGen) val() float64 {
	if g.special && g.r.P(0.3) {
		return specials[g.r.Intn(len(specials))]
	}
	if g.exact {
		return float64(g.r.Range(-8, 8))
	}
	switch g.r.Intn(8) {
	case 0:
		return 0
	case 1:
		return g.r.Uni(-1000, 1000)
	}
	return g.r.Uni(-3, 3)
}

// dim draws a size; sizes around the vector widths come up often.
func (g *matGen) dim() int {
	switch g.r.Intn(10) {
	case 0, 1:
		return g.r.Range(1, 3)
	case 2, 3, 4, 5:
		return g.r.Range(1, 20)
	case 6, 7:
		return g.r.Range(20, 70)
	case 8:
		if g.big {
			return g.r.Range(60, 140)
		}
	}
	return g.r.Pick(4, 8, 12, 16, 24, 31, 32, 33, 63, 64, 65)
}

func (g *matGen) shape() (int, int) {
	switch g.r.Intn(5) {
	case 0:
		if g.r.P(0.1) {
			return g.long(), 1
		}
		return g.dim(), 1
	case 1:
		if g.r.P(0.1) {
			return 1, g.long()
		}
		return 1, g.dim()
	case 2:
		return g.r.Range(0, 2), g.r.Range(0, 2)
	}
	switch g.r.Intn(8) {
	case 0, 1:
		return g.r.Range(1, 20), g.dim()
	case 2:
		return g.dim(), g.dim()
	}
	return g.dim(), g.r.Range(1, 20)
}

// count draws a number of things: few as a rule, and sometimes many.
func (g *matGen) count(lo, few, many int) int {
	if g.r.P(0.08) {
		return g.r.Range(few, many)
	}
	return g.r.Range(lo, few)
}

// long draws the size of a long vector.
func (g *matGen) long() int {
	if g.r.P(0.8) {
		return g.r.Range(60, 300)
	}
	return g.r.Pick(400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2048, 2051, 4096, 4099)
}

func (g *matGen) vec() (int, int) {
	n := g.dim()
	if g.r.P(0.2) {
		n = g.long()
	}
	if g.r.Bool() {
		return n, 1
	}
	return 1, n
}

func (g *matGen) mk(r, c int) *M {
	m := newM(r, c)
	for i := range m.v {
		m.v[i] = g.val()
	}
	return m
}

func (g *matGen) mkDom(r, c int, lo, hi float64) *M {
	g.real = true
	m := newM(r, c)
	for i := range m.v {
		m.v[i] = g.r.Uni(lo, hi)
		if g.special && g.r.P(0.3) {
			m.v[i] = specials[g.r.Intn(len(specials))]
		}
	}
	return m
}

func (g *matGen) scalar() float64 {
	if g.exact {
		return float64(g.r.Range(-6, 6))
	}
	return g.r.Uni(-3, 3)
}

type matOp struct {
	name string
	gen  func(g *matGen) *matInst
}

func one(m mat.Matrix) []mat.Matrix { return []mat.Matrix{m} }
func absM(m *M) *M                  { return m.mapf(math.Abs) }

var matOps = buildMatOps()

func buildMatOps() []matOp {
	var ops []matOp
	add := func(name string, gen func(g *matGen) *matInst) { ops = append(ops, matOp{name, gen}) }

	bin := func(name string, f func(a, b float64) float64, run func(a, b mat.Matrix) mat.Matrix, inplace bool) {
		add(name, func(g *matGen) *matInst {
			r, c := g.shape()
			a, b := g.mk(r, c), g.mk(r, c)
			if name[:3] == "Div" {
				for i := range b.v {
					for math.Abs(b.v[i]) < 0.1 {
						b.v[i] = g.r.Uni(-3, 3)
					}
					if g.exact { // powers of two divide exactly
						b.v[i] = math.Ldexp(1, g.r.Range(-2, 3))
					}
				}
			}
			return &matInst{xs: []*M{a, b}, inplace: inplace, n: 1,
				run: func(xs []mat.Matrix) []mat.Matrix { return one(run(xs[0], xs[1])) },
				ref: func(xs []*M) []*M { return []*M{zip(xs[0], xs[1], f)} },
				mag: func(xs []*M) []*M {
					return []*M{zip(xs[0], xs[1], func(x, y float64) float64 { return math.Abs(x) + math.Abs(y) + math.Abs(f(x, y)) })}
				}}
		})
	}
	plus := func(a, b float64) float64 { return a + b }
	minus := func(a, b float64) float64 { return a - b }
	times := func(a, b float64) float64 { return a * b }
	over := func(a, b float64) float64 { return a / b }
	bin("Add", plus, func(a, b mat.Matrix) mat.Matrix { return a.Add(b) }, false)
	bin("AddInPlace", plus, func(a, b mat.Matrix) mat.Matrix { return a.AddInPlace(b) }, true)
	bin("Sub", minus, func(a, b mat.Matrix) mat.Matrix { return a.Sub(b) }, false)
	bin("SubInPlace", minus, func(a, b mat.Matrix) mat.Matrix { return a.SubInPlace(b) }, true)
	bin("Prod", times, func(a, b mat.Matrix) mat.Matrix { return a.Prod(b) }, false)
	bin("ProdInPlace", times, func(a, b mat.Matrix) mat.Matrix { return a.ProdInPlace(b) }, true)
	bin("Div", over, func(a, b mat.Matrix) mat.Matrix { return a.Div(b) }, false)
	bin("DivInPlace", over, func(a, b mat.Matrix) mat.Matrix { return a.DivInPlace(b) }, true)
	bin("Maximum", math.Max, func(a, b mat.Matrix) mat.Matrix { return a.Maximum(b) }, false)
	bin("Minimum", math.Min, func(a, b mat.Matrix) mat.Matrix { return a.Minimum(b) }, false)

	sc := func(name string, f func(a, s float64) float64, run func(a mat.Matrix, s float64) mat.Matrix, inplace bool) {
		add(name, func(g *matGen) *matInst {
			r, c := g.shape()
			s := g.scalar()
			return &matInst{desc: fmt.Sprint("s=", s), xs: []*M{g.mk(r, c)}, inplace: inplace, n: 1,
				run: func(xs []mat.Matrix) []mat.Matrix { return one(run(xs[0], s)) },
				ref: func(xs []*M) []*M { return []*M{xs[0].mapf(func(x float64) float64 { return f(x, s) })} },
				mag: func(xs []*M) []*M {
					return []*M{xs[0].mapf(func(x float64) float64 { return math.Abs(x) + math.Abs(s) + math.Abs(f(x, s)) })}
				}}
		})
	}
	sc("AddScalar", plus, func(a mat.Matrix, s float64) mat.Matrix { return a.AddScalar(s) }, false)
	sc("AddScalarInPlace", plus, func(a mat.Matrix, s float64) mat.Matrix { return a.AddScalarInPlace(s) }, true)
	sc("SubScalar", minus, func(a mat.Matrix, s float64) mat.Matrix { return a.SubScalar(s) }, false)
	sc("SubScalarInPlace", minus, func(a mat.Matrix, s float64) mat.Matrix { return a.SubScalarInPlace(s) }, true)
	sc("ProdScalar", times, func(a mat.Matrix, s float64) mat.Matrix { return a.ProdScalar(s) }, false)
	sc("ProdScalarInPlace", times, func(a mat.Matrix, s float64) mat.Matrix { return a.ProdScalarInPlace(s) }, true)
	add("ProdMatrixScalarInPlace", func(g *matGen) *matInst {
		r, c := g.shape()
		s := g.scalar()
		return &matInst{desc: fmt.Sprint("s=", s), xs: []*M{g.mk(r, c), g.mk(r, c)}, inplace: true, n: 1,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].ProdMatrixScalarInPlace(xs[1], s)) },
			ref: func(xs []*M) []*M { return []*M{xs[1].mapf(func(x float64) float64 { return x * s })} },
			mag: func(xs []*M) []*M { return []*M{xs[1].mapf(func(x float64) float64 { return math.Abs(x * s) })} }}
	})

	add("Mul", func(g *matGen) *matInst {
		r, k := g.dim(), g.dim()
		n := 1
		if g.r.P(0.6) {
			n = g.dim()
		}
		if g.r.P(0.05) {
			k = 0
		}
		return &matInst{xs: []*M{g.mk(r, k), g.mk(k, n)}, n: k,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].Mul(xs[1])) },
			ref: func(xs []*M) []*M { return []*M{mul(xs[0], xs[1])} },
			mag: func(xs []*M) []*M { return []*M{mul(absM(xs[0]), absM(xs[1]))} }}
	})
	add("MulT", func(g *matGen) *matInst {
		r, k := g.dim(), g.dim()
		return &matInst{xs: []*M{g.mk(r, k), g.mk(r, 1)}, n: r,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].MulT(xs[1])) },
			ref: func(xs []*M) []*M { return []*M{mul(xs[0].t(), xs[1])} },
			mag: func(xs []*M) []*M { return []*M{mul(absM(xs[0]).t(), absM(xs[1]))} }}
	})
	add("DotUnitary", func(g *matGen) *matInst {
		r, c := g.vec()
		return &matInst{xs: []*M{g.mk(r, c), g.mk(r, c)}, n: r * c,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].DotUnitary(xs[1])) },
			ref: func(xs []*M) []*M {
				s := 0.0
				for i := range xs[0].v {
					s += xs[0].v[i] * xs[1].v[i]
				}
				return []*M{scalarM(s)}
			},
			mag: func(xs []*M) []*M {
				s := 0.0
				for i := range xs[0].v {
					s += math.Abs(xs[0].v[i] * xs[1].v[i])
				}
				return []*M{scalarM(s)}
			}}
	})
	add("Sum", func(g *matGen) *matInst {
		r, c := g.shape()
		if g.r.Bool() {
			r, c = g.vec()
		}
		return &matInst{xs: []*M{g.mk(r, c)}, n: r * c,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].Sum()) },
			ref: func(xs []*M) []*M { return []*M{scalarM(xs[0].sum())} },
			mag: func(xs []*M) []*M { return []*M{scalarM(absM(xs[0]).sum())} }}
	})
	add("CumSum", func(g *matGen) *matInst {
		r, c := g.vec()
		cum := func(v []float64) *M {
			o := newM(len(v), 1)
			s := 0.0
			for i, x := range v {
				s += x
				o.v[i] = s
			}
			return o
		}
		return &matInst{xs: []*M{g.mk(r, c)}, n: r * c,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].CumSum()) },
			ref: func(xs []*M) []*M { return []*M{cum(xs[0].v)} },
			mag: func(xs []*M) []*M { return []*M{cum(absM(xs[0]).v)} }}
	})

	un := func(name string, lo, hi float64, f func(float64) float64, run func(mat.Matrix) mat.Matrix, tol float64) {
		add(name, func(g *matGen) *matInst {
			r, c := g.shape()
			if g.r.P(0.3) {
				r, c = g.vec()
			}
			return &matInst{xs: []*M{g.mkDom(r, c, lo, hi)}, n: 1, tol: tol,
				run: func(xs []mat.Matrix) []mat.Matrix { return one(run(xs[0])) },
				ref: func(xs []*M) []*M { return []*M{xs[0].mapf(f)} },
				mag: func(xs []*M) []*M { return []*M{absM(xs[0].mapf(f))} }}
		})
	}
	un("Abs", -10, 10, math.Abs, func(a mat.Matrix) mat.Matrix { return a.Abs() }, 0)
	un("Sqrt", 0, 100, math.Sqrt, func(a mat.Matrix) mat.Matrix { return a.Sqrt() }, 0)
	un("Log", 1e-3, 1e3, math.Log, func(a mat.Matrix) mat.Matrix { return a.Log() }, 4e-7)
	un("Exp", -110, 110, math.Exp, func(a mat.Matrix) mat.Matrix { return a.Exp() }, 4e-6)
	un("Exp1", -3, 3, math.Exp, func(a mat.Matrix) mat.Matrix { return a.Exp() }, 4e-7)
	un("Sigmoid", -100, 100, sigmoid, func(a mat.Matrix) mat.Matrix { return a.Sigmoid() }, 6e-6)
	un("Sigmoid1", -4, 4, sigmoid, func(a mat.Matrix) mat.Matrix { return a.Sigmoid() }, 4e-7)
	add("LogZeros", func(g *matGen) *matInst {
		r, c := g.vec()
		m := g.mkDom(r, c, 0.5, 20)
		for i := range m.v {
			if g.r.P(0.3) {
				m.v[i] = 0
			}
		}
		return &matInst{xs: []*M{m}, n: 1, tol: 4e-7, abs: 2e-7,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].Log()) },
			ref: func(xs []*M) []*M { return []*M{xs[0].mapf(math.Log)} },
			mag: func(xs []*M) []*M {
				return []*M{xs[0].mapf(func(x float64) float64 {
					if x == 0 {
						return 0
					}
					return math.Abs(math.Log(x))
				})}
			}}
	})
	for i := range ops { // the logarithm crosses zero, small sigmoids underflow
		if ops[i].name == "Sigmoid" {
			gen := ops[i].gen
			ops[i].gen = func(g *matGen) *matInst { in := gen(g); in.abs = 1.2e-38; return in }
		}
		if ops[i].name == "Log" {
			gen := ops[i].gen
			ops[i].gen = func(g *matGen) *matInst { in := gen(g); in.abs = 2e-7; return in }
		}
	}
	add("Pow", func(g *matGen) *matInst {
		r, c := g.shape()
		p := []float64{2, 3, 0.5, -1, 1.7, 0, 1, 4, 5, 7, -2, -0.5}[g.r.Intn(12)]
		f := func(x float64) float64 { return math.Pow(x, p) }
		lo := 0.1
		if g.r.P(0.3) {
			lo = -4 // powers of negative numbers; those which are not whole are NaN
		}
		return &matInst{desc: fmt.Sprint("p=", p), xs: []*M{g.mkDom(r, c, lo, 6)}, n: 2,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].Pow(p)) },
			ref: func(xs []*M) []*M { return []*M{xs[0].mapf(f)} },
			mag: func(xs []*M) []*M { return []*M{absM(xs[0].mapf(f))} }}
	})
	add("Softmax", func(g *matGen) *matInst {
		r, c := g.vec()
		hi := []float64{3, 50, 1000}[g.r.Intn(3)]
		return &matInst{xs: []*M{g.mkDom(r, c, -hi, hi)}, n: 8, tol: 1e-5, abs: 1e-9,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].Softmax()) },
			ref: func(xs []*M) []*M { return []*M{col(softmaxRef(xs[0].v)...)} },
			mag: func(xs []*M) []*M { return []*M{col(softmaxRef(xs[0].v)...)} }}
	})
	add("Clip", func(g *matGen) *matInst {
		r, c := g.shape()
		lo := g.scalar()
		hi := lo + math.Abs(g.scalar())
		return &matInst{desc: fmt.Sprint(lo, hi), xs: []*M{g.mk(r, c)}, inplace: true, n: 1,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].ClipInPlace(lo, hi)) },
			ref: func(xs []*M) []*M {
				return []*M{xs[0].mapf(func(x float64) float64 { return math.Min(hi, math.Max(lo, x)) })}
			},
			mag: func(xs []*M) []*M {
				return []*M{xs[0].mapf(func(x float64) float64 { return math.Abs(lo) + math.Abs(hi) + math.Abs(x) })}
			}}
	})
	red := func(name string, f func(v []float64) float64, run func(mat.Matrix) mat.Matrix) {
		add(name, func(g *matGen) *matInst {
			r, c := g.vec()
			if g.r.Bool() {
				r, c = g.dim(), g.dim()
			}
			return &matInst{xs: []*M{g.mk(r, c)}, n: 0,
				run: func(xs []mat.Matrix) []mat.Matrix { return one(run(xs[0])) },
				ref: func(xs []*M) []*M { return []*M{scalarM(f(xs[0].v))} },
				mag: func(xs []*M) []*M { return []*M{scalarM(0)} }}
		})
	}
	red("Max", maxOf, func(a mat.Matrix) mat.Matrix { return a.Max() })
	red("Min", minOf, func(a mat.Matrix) mat.Matrix { return a.Min() })
	add("ArgMax", func(g *matGen) *matInst {
		r, c := g.vec()
		return &matInst{xs: []*M{g.mk(r, c)},
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].NewScalar(float64(xs[0].ArgMax()))) },
			ref: func(xs []*M) []*M { return []*M{scalarM(float64(argmaxRef(xs[0].v)))} },
			mag: func(xs []*M) []*M { return []*M{scalarM(0)} }}
	})
	add("Norm", func(g *matGen) *matInst {
		r, c := g.vec()
		p := []float64{1, 2, 3, 4}[g.r.Intn(4)]
		f := func(v []float64) float64 {
			s := 0.0
			for _, x := range v {
				s += math.Pow(math.Abs(x), p)
			}
			return math.Pow(s, 1/p)
		}
		return &matInst{desc: fmt.Sprint("p=", p), xs: []*M{g.mkDom(r, c, -5, 5)}, n: r*c + 8,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].Norm(p)) },
			ref: func(xs []*M) []*M { return []*M{scalarM(f(xs[0].v))} },
			mag: func(xs []*M) []*M { return []*M{scalarM(f(xs[0].v))} }}
	})
	add("Normalize2", func(g *matGen) *matInst {
		r, c := g.vec()
		x := g.mkDom(r, c, -5, 5)
		if g.r.P(0.1) {
			x = newM(r, c)
		}
		f := func(m *M) *M {
			s := 0.0
			for _, x := range m.v {
				s += x * x
			}
			if s == 0 {
				return m.clone()
			}
			s = math.Sqrt(s)
			return m.mapf(func(x float64) float64 { return x / s })
		}
		return &matInst{xs: []*M{x}, n: 8,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].Normalize2()) },
			ref: func(xs []*M) []*M { return []*M{f(xs[0])} },
			mag: func(xs []*M) []*M { return []*M{absM(f(xs[0]))} }}
	})

	// functions applied element by element
	fn := func(r, c int, v float64) float64 { return v*float64(r+1) - float64(c) }
	fnRef := func(m *M) *M {
		o := newM(m.r, m.c)
		for i := 0; i < m.r; i++ {
			for j := 0; j < m.c; j++ {
				o.set(i, j, fn(i, j, m.at(i, j)))
			}
		}
		return o
	}
	fnMag := func(m *M) *M {
		o := newM(m.r, m.c)
		for i := 0; i < m.r; i++ {
			for j := 0; j < m.c; j++ {
				o.set(i, j, math.Abs(m.at(i, j)*float64(i+1))+float64(j))
			}
		}
		return o
	}
	fnA := func(r, c int, v float64, alpha ...float64) float64 { return fn(r, c, v)*alpha[0] + alpha[1] }
	add("Apply", func(g *matGen) *matInst {
		r, c := g.shape()
		return &matInst{xs: []*M{g.mk(r, c)}, n: 1,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].Apply(fn)) },
			ref: func(xs []*M) []*M { return []*M{fnRef(xs[0])} },
			mag: func(xs []*M) []*M { return []*M{fnMag(xs[0])} }}
	})
	add("ApplyInPlace", func(g *matGen) *matInst {
		r, c := g.shape()
		return &matInst{xs: []*M{g.mk(r, c), g.mk(r, c)}, n: 1, inplace: true,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].ApplyInPlace(fn, xs[1])) },
			ref: func(xs []*M) []*M { return []*M{fnRef(xs[1])} },
			mag: func(xs []*M) []*M { return []*M{fnMag(xs[1])} }}
	})
	aff := func(m *M) *M { return fnRef(m).mapf(func(x float64) float64 { return 2*x - 3 }) }
	affMag := func(m *M) *M { return fnMag(m).mapf(func(x float64) float64 { return 2*x + 3 }) }
	add("ApplyWithAlpha", func(g *matGen) *matInst {
		r, c := g.shape()
		return &matInst{xs: []*M{g.mk(r, c)}, n: 2,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].ApplyWithAlpha(fnA, 2, -3)) },
			ref: func(xs []*M) []*M { return []*M{aff(xs[0])} },
			mag: func(xs []*M) []*M { return []*M{affMag(xs[0])} }}
	})
	add("ApplyWithAlphaInPlace", func(g *matGen) *matInst {
		r, c := g.shape()
		return &matInst{xs: []*M{g.mk(r, c), g.mk(r, c)}, n: 2, inplace: true,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].ApplyWithAlphaInPlace(fnA, xs[1], 2, -3)) },
			ref: func(xs []*M) []*M { return []*M{aff(xs[1])} },
			mag: func(xs []*M) []*M { return []*M{affMag(xs[1])} }}
	})
	return ops
}

// largeMul multiplies matrices larger than the blocks, and the thresholds of
// the parallel algorithm, of the blocked product.
var largeMul = matOp{"Mul", func(g *matGen) *matInst {
	d := func() int { return g.r.Pick(1, 63, 64, 65, 100, 127, 128, 129, 150, 192, 200, g.r.Range(60, 210)) }
	r, k, n := d(), d(), d()
	if g.r.P(0.1) {
		k = g.r.Range(300, 700)
	}
	return &matInst{xs: []*M{g.mk(r, k), g.mk(k, n)}, n: k,
		run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].Mul(xs[1])) },
		ref: func(xs []*M) []*M { return []*M{mul(xs[0], xs[1])} },
		mag: func(xs []*M) []*M { return []*M{mul(absM(xs[0]), absM(xs[1]))} }}
}}

func argmaxRef(v []float64) int {
	b := 0
	for i, x := range v {
		if x > v[b] {
			b = i
		}
	}
	return b
}

// structOps move values around; results are exact.
var structOps = buildStructOps()

func buildStructOps() []matOp {
	var ops []matOp
	add := func(name string, inplace bool, gen func(g *matGen) *matInst) {
		ops = append(ops, matOp{name, func(g *matGen) *matInst {
			in := gen(g)
			in.inplace = inplace
			return in
		}})
	}
	simple := func(name string, inplace bool, shape func(g *matGen) (int, int), run func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M)) {
		add(name, inplace, func(g *matGen) *matInst {
			r, c := shape(g)
			d, a, b := run(g, r, c)
			return &matInst{desc: d, xs: []*M{g.mk(r, c)},
				run: func(xs []mat.Matrix) []mat.Matrix { return one(a(xs[0])) },
				ref: func(xs []*M) []*M { return []*M{b(xs[0])} }}
		})
	}
	anyShape := func(g *matGen) (int, int) {
		if g.r.P(0.5) {
			return g.r.Range(1, 9), g.r.Range(1, 9)
		}
		return g.shape()
	}
	nonEmpty := func(g *matGen) (int, int) {
		for {
			if r, c := anyShape(g); r*c > 0 {
				return r, c
			}
		}
	}
	vec := func(g *matGen) (int, int) { return g.vec() }
	fixed := func(a func(m mat.Matrix) mat.Matrix, b func(m *M) *M) func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		return func(*matGen, int, int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) { return "", a, b }
	}
	simple("T", false, anyShape, fixed(func(m mat.Matrix) mat.Matrix { return m.T() }, (*M).t))
	simple("TransposeInPlace", true, anyShape, fixed(func(m mat.Matrix) mat.Matrix { return m.TransposeInPlace() }, (*M).t))
	flat := func(m *M) *M { return m.reshape(1, m.size()) }
	simple("Flatten", false, anyShape, fixed(func(m mat.Matrix) mat.Matrix { return m.Flatten() }, flat))
	simple("FlattenInPlace", true, anyShape, fixed(func(m mat.Matrix) mat.Matrix { return m.FlattenInPlace() }, flat))
	simple("Clone", false, anyShape, fixed(func(m mat.Matrix) mat.Matrix { return m.Clone() }, (*M).clone))
	simple("ZerosLike", false, anyShape, fixed(func(m mat.Matrix) mat.Matrix { return m.ZerosLike() }, func(m *M) *M { return newM(m.r, m.c) }))
	simple("OnesLike", false, anyShape, fixed(func(m mat.Matrix) mat.Matrix { return m.OnesLike() }, func(m *M) *M { return m.mapf(func(float64) float64 { return 1 }) }))
	simple("Zeros", true, anyShape, fixed(func(m mat.Matrix) mat.Matrix { m.Zeros(); return m }, func(m *M) *M { return newM(m.r, m.c) }))
	resh := func(inplace bool) func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		return func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
			n := r * c
			var ds []int
			for d := 1; d <= n; d++ {
				if n%d == 0 {
					ds = append(ds, d)
				}
			}
			nr := ds[g.r.Intn(len(ds))]
			return fmt.Sprintf("->%d×%d", nr, n/nr), func(m mat.Matrix) mat.Matrix {
				if inplace {
					return m.ReshapeInPlace(nr, n/nr)
				}
				return m.Reshape(nr, n/nr)
			}, func(m *M) *M { return m.reshape(nr, n/nr) }
		}
	}
	simple("Reshape", false, nonEmpty, resh(false))
	simple("ReshapeInPlace", true, nonEmpty, resh(true))
	simple("ExtractRow", false, nonEmpty, func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		i := g.r.Intn(r)
		return fmt.Sprint(i), func(m mat.Matrix) mat.Matrix { return m.ExtractRow(i) }, func(m *M) *M { return refSlice(m, i, 0, i+1, c) }
	})
	simple("ExtractColumn", false, nonEmpty, func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		i := g.r.Intn(c)
		return fmt.Sprint(i), func(m mat.Matrix) mat.Matrix { return m.ExtractColumn(i) }, func(m *M) *M { return refSlice(m, 0, i, r, i+1) }
	})
	simple("Slice", false, nonEmpty, func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		r0, c0 := g.r.Intn(r), g.r.Intn(c)
		r1, c1 := g.r.Range(r0, r), g.r.Range(c0, c)
		if g.r.P(0.3) {
			c0, c1 = 0, c
		}
		return fmt.Sprint(r0, c0, r1, c1), func(m mat.Matrix) mat.Matrix { return m.Slice(r0, c0, r1, c1) }, func(m *M) *M { return refSlice(m, r0, c0, r1, c1) }
	})
	simple("ResizeVector", false, vec, func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		n := g.r.Range(0, 2*r*c)
		return fmt.Sprint(n), func(m mat.Matrix) mat.Matrix { return m.ResizeVector(n) }, func(m *M) *M {
			o := newM(n, 1)
			copy(o.v, m.v)
			return o
		}
	})
	simple("Range", false, vec, func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		a := g.r.Range(0, r*c)
		b := g.r.Range(a, r*c)
		return fmt.Sprint(a, b), func(m mat.Matrix) mat.Matrix { return m.Range(a, b) }, func(m *M) *M { return col(m.v[a:b]...) }
	})
	simple("PadRows", false, anyShape, func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		n := g.count(0, 4, 90)
		return fmt.Sprint(n), func(m mat.Matrix) mat.Matrix { return m.PadRows(n) }, func(m *M) *M {
			o := newM(r+n, c)
			copy(o.v, m.v)
			return o
		}
	})
	simple("PadColumns", false, anyShape, func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		n := g.count(0, 4, 90)
		return fmt.Sprint(n), func(m mat.Matrix) mat.Matrix { return m.PadColumns(n) }, func(m *M) *M {
			o := newM(r, c+n)
			for i := 0; i < r; i++ {
				for j := 0; j < c; j++ {
					o.set(i, j, m.at(i, j))
				}
			}
			return o
		}
	})
	simple("Augment", false, func(g *matGen) (int, int) { n := g.count(1, 9, 140); return n, n }, fixed(func(m mat.Matrix) mat.Matrix { return m.Augment() }, func(m *M) *M {
		o := newM(m.r, 2*m.c)
		for i := 0; i < m.r; i++ {
			for j := 0; j < m.c; j++ {
				o.set(i, j, m.at(i, j))
			}
			o.set(i, m.c+i, 1)
		}
		return o
	}))
	simple("SwapInPlace", true, nonEmpty, func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		a, b := g.r.Intn(r), g.r.Intn(r)
		return fmt.Sprint(a, b), func(m mat.Matrix) mat.Matrix { return m.SwapInPlace(a, b) }, func(m *M) *M {
			o := m.clone()
			for j := 0; j < c; j++ {
				o.v[a*c+j], o.v[b*c+j] = m.v[b*c+j], m.v[a*c+j]
			}
			return o
		}
	})
	simple("SetScalar", true, nonEmpty, func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		i, j := g.r.Intn(r), g.r.Intn(c)
		how := g.r.Intn(3)
		if r != 1 && c != 1 && how == 2 {
			how = 0
		}
		return fmt.Sprint(i, j, how), func(m mat.Matrix) mat.Matrix {
				switch how {
				case 0:
					m.SetScalar(float.Interface(77.0), i, j)
				case 1:
					m.SetAt(mat.Scalar[float64](77), i, j)
				case 2:
					m.SetScalar(float.Interface(float32(77)), i*c+j)
				}
				return m
			}, func(m *M) *M {
				o := m.clone()
				o.set(i, j, 77)
				return o
			}
	})
	simple("AtScalarAt", false, nonEmpty, func(g *matGen, r, c int) (string, func(m mat.Matrix) mat.Matrix, func(m *M) *M) {
		i, j := g.r.Intn(r), g.r.Intn(c)
		return fmt.Sprint(i, j), func(m mat.Matrix) mat.Matrix {
			a := m.At(i, j).(mat.Matrix)
			if r == 1 || c == 1 {
				a = a.NewConcatV(a, m.At(i*c+j).(mat.Matrix), m.NewScalar(m.ScalarAt(i*c+j).F64()))
			} else {
				a = a.NewConcatV(a, m.At(i, j).(mat.Matrix), m.NewScalar(m.ScalarAt(i, j).F64()))
			}
			return a
		}, func(m *M) *M { x := m.at(i, j); return col(x, x, x) }
	})
	simple("NonZero", false, anyShape, fixed(func(m mat.Matrix) mat.Matrix {
		o := m.ZerosLike()
		m.DoNonZero(func(r, c int, v float64) {
			if v == 0 {
				panic("DoNonZero visited a zero")
			}
			o.SetScalar(float.Interface(o.ScalarAt(r, c).F64()+v), r, c)
		})
		return o
	}, (*M).clone))
	simple("VecNonZero", false, vec, fixed(func(m mat.Matrix) mat.Matrix {
		o := m.ZerosLike()
		m.DoVecNonZero(func(i int, v float64) { o.SetScalar(float.Interface(o.ScalarAt(i).F64()+v), i) })
		return o
	}, (*M).clone))
	add("SplitV", false, func(g *matGen) *matInst {
		r, c := g.vec()
		n := r * c
		var sizes []int
		most := g.count(6, 6, 140)
		for left := n; left > 0 && len(sizes) < most; {
			s := g.r.Range(0, left)
			if most > 6 {
				s = g.r.Range(0, min(left, 2))
			}
			sizes = append(sizes, s)
			left -= s
		}
		return &matInst{desc: fmt.Sprint(sizes), xs: []*M{g.mk(r, c)},
			run: func(xs []mat.Matrix) []mat.Matrix { return xs[0].SplitV(sizes...) },
			ref: func(xs []*M) []*M {
				var o []*M
				off := 0
				for _, s := range sizes {
					o = append(o, col(xs[0].v[off:off+s]...))
					off += s
				}
				return o
			}}
	})
	add("AppendRows", false, func(g *matGen) *matInst {
		r, c := nonEmpty(g)
		xs := []*M{g.mk(r, c)}
		for i := g.count(0, 3, 140); i > 0; i-- {
			if g.r.Bool() {
				xs = append(xs, g.mk(1, c))
			} else {
				xs = append(xs, g.mk(c, 1))
			}
		}
		return &matInst{xs: xs,
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].AppendRows(xs[1:]...)) },
			ref: func(xs []*M) []*M {
				var v []float64
				for _, x := range xs {
					v = append(v, x.v...)
				}
				return []*M{mOf(r+len(xs)-1, c, v...)}
			}}
	})
	vecs := func(g *matGen, same bool) []*M {
		r, c := g.vec()
		var xs []*M
		many := g.count(1, 4, 140)
		for i := many; i > 0; i-- {
			if !same {
				r, c = g.vec()
				if many > 4 {
					r, c = g.r.Range(1, 9), 1
				}
			} else if g.r.P(0.3) {
				r, c = c, r
			}
			xs = append(xs, g.mk(r, c))
		}
		return xs
	}
	add("ConcatV", false, func(g *matGen) *matInst {
		return &matInst{xs: vecs(g, false),
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].NewConcatV(xs...)) },
			ref: func(xs []*M) []*M { return []*M{refConcat(xs)} }}
	})
	add("Stack", false, func(g *matGen) *matInst {
		return &matInst{xs: vecs(g, true),
			run: func(xs []mat.Matrix) []mat.Matrix { return one(xs[0].NewStack(xs...)) },
			ref: func(xs []*M) []*M { return []*M{refStack(xs)} }}
	})
	add("Copy", true, func(g *matGen) *matInst {
		r, c := anyShape(g)
		return &matInst{xs: []*M{g.mk(r, c), g.mk(r, c)},
			run: func(xs []mat.Matrix) []mat.Matrix { xs[0].Copy(xs[1]); return one(xs[0]) },
			ref: func(xs []*M) []*M { return []*M{xs[1].clone()} }}
	})
	add("SetData", true, func(g *matGen) *matInst {
		r, c := anyShape(g)
		return &matInst{xs: []*M{g.mk(r, c), g.mk(r, c)},
			run: func(xs []mat.Matrix) []mat.Matrix { xs[0].SetData(xs[1].Data()); return one(xs[0]) },
			ref: func(xs []*M) []*M { return []*M{xs[1].clone()} }}
	})
	return ops
}

// tolerances: machine epsilon of the type, scaled by the number of terms.
func (dt dtype) eps() float64 {
	if dt == f32 {
		return 6e-8
	}
	return 1.2e-16
}

// compare checks one result against the expectation.
func (in *matInst) compare(dt dtype, exact bool, got *M, want, mag *M) string {
	if got.r != want.r || got.c != want.c || len(got.v) != len(want.v) {
		return fmt.Sprintf("shape %d×%d (%d elements), want %d×%d", got.r, got.c, len(got.v), want.r, want.c)
	}
	for i, w := range want.v {
		x := got.v[i]
		w = dt.quant(w)
		if x == w {
			continue
		}
		if math.IsNaN(w) && math.IsNaN(x) {
			continue
		}
		ok := false
		if mag != nil && !(exact && in.tol == 0 && !in.inexact) && !math.IsInf(w, 0) && !math.IsNaN(x) {
			t := dt.eps()*float64(in.n+3)*mag.v[i] + in.abs
			if dt == f32 {
				t += in.tol * mag.v[i]
			} else {
				t += 1e-13 * mag.v[i]
			}
			ok = math.Abs(x-w) <= t+math.Abs(w)*dt.eps()*2
		}
		if !ok {
			return fmt.Sprintf("element %d (row %d, column %d) = %.10g, want %.10g", i, i/max(1, want.c), i%max(1, want.c), x, w)
		}
	}
	return ""
}

package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// dom is the domain an operand must lie in.
type dom struct {
	lo, hi float64
	ok     func(float64) bool
}

func (d dom) has(x float64) bool {
	return x >= d.lo && x <= d.hi && (d.ok == nil || d.ok(x))
}
func (d dom) hasM(m *M) bool {
	for _, x := range m.v {
		if !d.has(x) {
			return false
		}
	}
	return true
}
func (d dom) draw(g *Rng) float64 {
	for i := 0; i < 1000; i++ {
		if x := g.Uni(d.lo, d.hi); d.has(x) {
			return x
		}
	}
	panic("dom: empty")
}

var (
	dAny  = dom{lo: -3, hi: 3}
	dWide = dom{lo: -8, hi: 8}
	dPos  = dom{lo: 0.25, hi: 4}
	dUnit = dom{lo: -1.2, hi: 1.2}
	dNZ   = dom{lo: -4, hi: 4, ok: func(x float64) bool { return math.Abs(x) >= 0.3 }}
)

// G is what an operator generator draws from: in single mode fresh leaves, in
// DAG mode nodes that exist already.
type G struct {
	r     *Rng
	shape func() (int, int)
	// operand returns the id of a node of that shape and domain.
	operand func(r, c int, d dom) int
	args    []int
	nodiff  []bool
	small   bool
	big     bool // large sizes
}

func (g *G) x(r, c int, d dom) {
	g.args = append(g.args, g.operand(r, c, d))
	g.nodiff = append(g.nodiff, false)
}

// hyper adds a scalar hyperparameter: an operand gradients are not propagated to.
func (g *G) hyper(d dom) {
	g.args = append(g.args, g.operand(1, 1, d))
	g.nodiff = append(g.nodiff, true)
}

func (g *G) dim() int {
	if g.small {
		return g.r.Range(1, 4)
	}
	if g.big && g.r.P(0.6) {
		return g.r.Pick(20, 31, 33, 47, 63, 64, 65, 80, 96, 100, 127, 128, 129)
	}
	switch g.r.Intn(12) {
	case 0:
		return g.r.Pick(7, 8, 9, 15, 16, 17)
	case 1:
		if g.r.P(0.5) {
			return g.r.Pick(31, 32, 33, 40)
		}
	}
	return g.r.Range(1, 5)
}

// vec picks a vector shape: row or column.
func (g *G) vec() (int, int) {
	for i := 0; i < 20; i++ {
		if r, c := g.shape(); r == 1 || c == 1 {
			return r, c
		}
	}
	n := g.long(g.dim())
	if g.r.Bool() {
		return n, 1
	}
	return 1, n
}

// long replaces a size by that of a long vector, when sizes are large.
func (g *G) long(n int) int {
	if !g.big || g.r.P(0.3) {
		return n
	}
	return g.r.Pick(150, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 3000, 4096, 4097)
}

// Inst is one application of an operator.
type Inst struct {
	op, desc string
	args     []int
	nodiff   []bool
	ref      func(xs []*M) *M
	build    func(xs []mat.Tensor) mat.Tensor
	gtol     float64 // extra factor on the gradient tolerance
	elem     bool    // computed element by element from operands as large as the result
}

type OpSpec struct {
	name string
	gen  func(g *G) *Inst
}

func unaryEl(name string, d dom, f func(float64) float64, b func(mat.Tensor) mat.Tensor) OpSpec {
	return OpSpec{name, func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, d)
		return &Inst{elem: true, ref: func(xs []*M) *M { return xs[0].mapf(f) }, build: func(xs []mat.Tensor) mat.Tensor { return b(xs[0]) }}
	}}
}

func binEl(name string, d1, d2 dom, f func(x, y float64) float64, b func(x, y mat.Tensor) mat.Tensor) OpSpec {
	return OpSpec{name, func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, d1)
		g.x(r, c, d2)
		return &Inst{elem: true, ref: func(xs []*M) *M { return zip(xs[0], xs[1], f) }, build: func(xs []mat.Tensor) mat.Tensor { return b(xs[0], xs[1]) }}
	}}
}

func scalarEl(name string, d1, d2 dom, f func(x, y float64) float64, b func(x, y mat.Tensor) mat.Tensor) OpSpec {
	return OpSpec{name, func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, d1)
		g.x(1, 1, d2)
		return &Inst{elem: true, ref: func(xs []*M) *M {
			s := xs[1].v[0]
			return xs[0].mapf(func(x float64) float64 { return f(x, s) })
		}, build: func(xs []mat.Tensor) mat.Tensor { return b(xs[0], xs[1]) }}
	}}
}

// hyperEl: an elementwise operator with scalar hyperparameters.
func hyperEl(name string, dx dom, dh []dom, f func(x float64, h []float64) float64, b func(xs []mat.Tensor) mat.Tensor) OpSpec {
	return OpSpec{name, func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dx)
		for _, d := range dh {
			g.hyper(d)
		}
		return &Inst{elem: true, ref: func(xs []*M) *M {
			h := make([]float64, len(xs)-1)
			for i := range h {
				h[i] = xs[i+1].v[0]
			}
			return xs[0].mapf(func(x float64) float64 { return f(x, h) })
		}, build: b}
	}}
}

func sigmoid(x float64) float64 {
	if x >= 0 {
		return 1 / (1 + math.Exp(-x))
	}
	e := math.Exp(x)
	return e / (1 + e)
}

// softplus1 is log(1+e^x), stable.
func softplus1(x float64) float64 {
	if x > 0 {
		return x + math.Log1p(math.Exp(-x))
	}
	return math.Log1p(math.Exp(x))
}

func mishRef(x float64) float64 { return x * math.Tanh(softplus1(x)) }
func geluRef(x float64) float64 {
	return 0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*x*x*x)))
}
func eluRef(x, a float64) float64 {
	if x > 0 {
		return x
	}
	return a * math.Expm1(x)
}

func dims(xs []*M) (r, c int) { return xs[0].r, xs[0].c }

func listOf(g *G, n int, f func()) {
	if g.big && g.r.P(0.4) {
		n = g.r.Pick(8, 9, 15, 16, 17, 33, 64, 65)
		if g.r.P(0.08) {
			n = g.r.Pick(100, 128, 129, 200, 256, 257, 300)
		}
	}
	for i := 0; i < n; i++ {
		f()
	}
}

func col(v ...float64) *M { return mOf(len(v), 1, v...) }

func sumPair(xs []*M) *M {
	o := xs[0].clone()
	for _, x := range xs[1:] {
		o = zip(o, x, func(a, b float64) float64 { return a + b })
	}
	return o
}

func maxOf(v []float64) float64 {
	m := math.Inf(-1)
	for _, x := range v {
		m = math.Max(m, x)
	}
	return m
}
func minOf(v []float64) float64 {
	m := math.Inf(1)
	for _, x := range v {
		m = math.Min(m, x)
	}
	return m
}

func refSlice(x *M, r0, c0, r1, c1 int) *M {
	o := newM(r1-r0, c1-c0)
	for i := r0; i < r1; i++ {
		for j := c0; j < c1; j++ {
			o.set(i-r0, j-c0, x.at(i, j))
		}
	}
	return o
}

func refConcat(xs []*M) *M {
	var v []float64
	for _, x := range xs {
		v = append(v, x.v...)
	}
	return col(v...)
}

func refStack(xs []*M) *M {
	var v []float64
	for _, x := range xs {
		v = append(v, x.v...)
	}
	return mOf(len(xs), xs[0].size(), v...)
}

func sparsemaxRef(v []float64) []float64 {
	tau := sparsemaxTau(v)
	o := make([]float64, len(v))
	for i, x := range v {
		o[i] = math.Max(0, x-tau)
	}
	return o
}

var opSpecs = buildOpSpecs()

func opSpec(name string) OpSpec {
	for _, s := range opSpecs {
		if s.name == name {
			return s
		}
	}
	panic("no op " + name)
}

func buildOpSpecs() []OpSpec {
	var s []OpSpec
	add := func(x ...OpSpec) { s = append(s, x...) }
	add(
		unaryEl("Abs", dAny, math.Abs, ag.Abs),
		unaryEl("Cos", dWide, math.Cos, ag.Cos),
		unaryEl("Sin", dWide, math.Sin, ag.Sin),
		unaryEl("Tan", dUnit, math.Tan, ag.Tan),
		unaryEl("Tanh", dWide, math.Tanh, ag.Tanh),
		unaryEl("Exp", dAny, math.Exp, ag.Exp),
		unaryEl("Log", dPos, math.Log, ag.Log),
		unaryEl("Sqrt", dPos, math.Sqrt, ag.Sqrt),
		unaryEl("Square", dAny, func(x float64) float64 { return x * x }, ag.Square),
		unaryEl("Neg", dAny, func(x float64) float64 { return -x }, ag.Neg),
		unaryEl("Reciprocal", dNZ, func(x float64) float64 { return 1 / x }, ag.Reciprocal),
		unaryEl("ReverseSubOne", dAny, func(x float64) float64 { return 1 - x }, ag.ReverseSubOne),
		unaryEl("Copy", dAny, func(x float64) float64 { return x }, ag.Copy),
		unaryEl("Sigmoid", dWide, sigmoid, ag.Sigmoid),
		unaryEl("HardSigmoid", dWide, func(x float64) float64 { return math.Min(1, math.Max(0, 0.2*x+0.5)) }, ag.HardSigmoid),
		unaryEl("HardTanh", dAny, func(x float64) float64 { return math.Min(1, math.Max(-1, x)) }, ag.HardTanh),
		unaryEl("ReLU", dAny, func(x float64) float64 { return math.Max(0, x) }, ag.ReLU),
		unaryEl("Softsign", dWide, func(x float64) float64 { return x / (1 + math.Abs(x)) }, ag.Softsign),
		unaryEl("Mish", dWide, mishRef, ag.Mish),
		unaryEl("GELU", dAny, geluRef, ag.GELU),
		unaryEl("SiLU", dWide, func(x float64) float64 { return x * sigmoid(x) }, ag.SiLU),
		unaryEl("Swish", dWide, func(x float64) float64 { return x * sigmoid(x) }, ag.Swish),
		unaryEl("PositiveELU", dAny, func(x float64) float64 { return eluRef(x, 1) + 1 }, ag.PositiveELU),

		binEl("Add", dAny, dAny, func(x, y float64) float64 { return x + y }, ag.Add),
		binEl("Sub", dAny, dAny, func(x, y float64) float64 { return x - y }, ag.Sub),
		binEl("Prod", dAny, dAny, func(x, y float64) float64 { return x * y }, ag.Prod),
		binEl("Div", dAny, dNZ, func(x, y float64) float64 { return x / y }, ag.Div),
		binEl("Max", dAny, dAny, math.Max, ag.Max),
		binEl("Min", dAny, dAny, math.Min, ag.Min),

		scalarEl("AddScalar", dAny, dAny, func(x, y float64) float64 { return x + y }, ag.AddScalar),
		scalarEl("SubScalar", dAny, dAny, func(x, y float64) float64 { return x - y }, ag.SubScalar),
		scalarEl("ReverseSub", dAny, dAny, func(x, y float64) float64 { return y - x }, ag.ReverseSub),
		scalarEl("ProdScalar", dAny, dAny, func(x, y float64) float64 { return x * y }, ag.ProdScalar),
		scalarEl("DivScalar", dAny, dNZ, func(x, y float64) float64 { return x / y }, ag.DivScalar),
		scalarEl("SwishB", dAny, dAny, func(x, b float64) float64 { return x * sigmoid(b*x) }, ag.SwishB),

		hyperEl("CELU", dAny, []dom{dPos}, func(x float64, h []float64) float64 {
			if x > 0 {
				return x
			}
			return h[0] * math.Expm1(x/h[0])
		}, func(xs []mat.Tensor) mat.Tensor { return ag.CELU(xs[0], xs[1]) }),
		hyperEl("ELU", dAny, []dom{dPos}, func(x float64, h []float64) float64 { return eluRef(x, h[0]) },
			func(xs []mat.Tensor) mat.Tensor { return ag.ELU(xs[0], xs[1]) }),
		hyperEl("LeakyReLU", dAny, []dom{{lo: 0.01, hi: 0.6}}, func(x float64, h []float64) float64 {
			if x > 0 {
				return x
			}
			return h[0] * x
		}, func(xs []mat.Tensor) mat.Tensor { return ag.LeakyReLU(xs[0], xs[1]) }),
		hyperEl("SELU", dAny, []dom{dPos, dPos}, func(x float64, h []float64) float64 { return h[1] * eluRef(x, h[0]) },
			func(xs []mat.Tensor) mat.Tensor { return ag.SELU(xs[0], xs[1], xs[2]) }),
		hyperEl("SoftPlus", dWide, []dom{{lo: 0.3, hi: 2}, {lo: 0.5, hi: 20}}, func(x float64, h []float64) float64 {
			if x > h[1] {
				return x
			}
			return softplus1(h[0]*x) / h[0]
		}, func(xs []mat.Tensor) mat.Tensor { return ag.SoftPlus(xs[0], xs[1], xs[2]) }),
		hyperEl("SoftShrink", dAny, []dom{{lo: 0.1, hi: 2}}, func(x float64, h []float64) float64 {
			switch {
			case x > h[0]:
				return x - h[0]
			case x < -h[0]:
				return x + h[0]
			}
			return 0
		}, func(xs []mat.Tensor) mat.Tensor { return ag.SoftShrink(xs[0], xs[1]) }),
		hyperEl("Threshold", dAny, []dom{dAny, dAny}, func(x float64, h []float64) float64 {
			if x > h[0] {
				return x
			}
			return h[1]
		}, func(xs []mat.Tensor) mat.Tensor { return ag.Threshold(xs[0], xs[1], xs[2]) }),
	)

	add(OpSpec{"Pow", func(g *G) *Inst {
		r, c := g.shape()
		p := []float64{2, 3, 0.5, -1, 1, 1.7, -2, 4, 5, 0}[g.r.Intn(10)]
		d := dPos
		if p == 2 || p == 3 || p == 4 || p == 1 || p == 5 || p == 0 {
			d = dAny
		}
		g.x(r, c, d)
		return &Inst{elem: true, desc: fmt.Sprint("p=", p), ref: func(xs []*M) *M { return xs[0].mapf(func(x float64) float64 { return math.Pow(x, p) }) },
			build: func(xs []mat.Tensor) mat.Tensor { return ag.Pow(xs[0], p) }}
	}})

	// --- reductions
	add(OpSpec{"ReduceSum", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M { return scalarM(xs[0].sum()) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.ReduceSum(xs[0]) }}
	}}, OpSpec{"ReduceMean", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M { return scalarM(xs[0].sum() / float64(xs[0].size())) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.ReduceMean(xs[0]) }}
	}}, OpSpec{"ReduceMax", func(g *G) *Inst {
		r, c := g.vec()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M { return scalarM(maxOf(xs[0].v)) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.ReduceMax(xs[0]) }}
	}}, OpSpec{"LogSumExpVec", func(g *G) *Inst {
		r, c := g.vec()
		g.x(r, c, dWide)
		return &Inst{ref: func(xs []*M) *M { return scalarM(lseRef(xs[0].v)) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.LogSumExp(xs[0]) }}
	}}, OpSpec{"LogSumExpList", func(g *G) *Inst {
		listOf(g, g.r.Range(2, 5), func() { g.x(1, 1, dWide) })
		return &Inst{ref: func(xs []*M) *M { return scalarM(lseRef(refConcat(xs).v)) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.LogSumExp(xs...) }}
	}}, OpSpec{"ScalarMax", func(g *G) *Inst {
		listOf(g, g.r.Range(1, 5), func() { g.x(1, 1, dWide) })
		return &Inst{ref: func(xs []*M) *M { return scalarM(maxOf(refConcat(xs).v)) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.ScalarMax(xs) }}
	}}, OpSpec{"Dot", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M {
			return scalarM(zip(xs[0], xs[1], func(a, b float64) float64 { return a * b }).sum())
		}, build: func(xs []mat.Tensor) mat.Tensor { return ag.Dot(xs[0], xs[1]) }}
	}})

	// --- normalising transforms of vectors
	add(OpSpec{"Softmax", func(g *G) *Inst {
		r, c := g.vec()
		g.x(r, c, dWide)
		return &Inst{ref: func(xs []*M) *M { return col(softmaxRef(xs[0].v)...) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.Softmax(xs[0]) }}
	}}, OpSpec{"LogSoftmax", func(g *G) *Inst {
		r, c := g.vec()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M {
			l := lseRef(xs[0].v)
			return col(xs[0].v...).mapf(func(x float64) float64 { return x - l })
		}, build: func(xs []mat.Tensor) mat.Tensor { return ag.LogSoftmax(xs[0]) }}
	}}, OpSpec{"SparseMax", func(g *G) *Inst {
		r, c := g.vec()
		g.x(r, c, dom{lo: -1, hi: 1})
		return &Inst{ref: func(xs []*M) *M { return mOf(xs[0].r, xs[0].c, sparsemaxRef(xs[0].v)...) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.SparseMax(xs[0]) }}
	}}, OpSpec{"SparseMaxLoss", func(g *G) *Inst {
		r, c := g.vec()
		g.x(r, c, dom{lo: -1, hi: 1})
		return &Inst{ref: func(xs []*M) *M {
			tau := sparsemaxTau(xs[0].v)
			reg := 0.0
			for _, x := range xs[0].v {
				if x > tau {
					reg += x*x - tau*tau
				}
			}
			reg = 0.5*reg + 0.5
			return xs[0].mapf(func(x float64) float64 { return x - reg })
		}, build: func(xs []mat.Tensor) mat.Tensor { return ag.SparseMaxLoss(xs[0]) }}
	}})

	// --- products
	add(OpSpec{"Mul", func(g *G) *Inst {
		r, c := g.shape()
		n := g.dim()
		if g.r.P(0.4) {
			n = 1
		}
		g.x(r, c, dAny)
		g.x(c, n, dAny)
		return &Inst{ref: func(xs []*M) *M { return mul(xs[0], xs[1]) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.Mul(xs[0], xs[1]) }}
	}}, OpSpec{"MulT", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		g.x(r, 1, dAny)
		return &Inst{ref: func(xs []*M) *M { return mul(xs[0].t(), xs[1]) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.MulT(xs[0], xs[1]) }}
	}}, OpSpec{"Affine", func(g *G) *Inst {
		r := g.dim()
		n := g.r.Pick(1, 1, 1, 2)
		pairs := g.r.Range(1, 3)
		many := g.r.P(0.06)
		if many {
			r, pairs = g.r.Range(1, 4), g.r.Pick(4, 6, 8, 9, 17, 33)
		}
		g.x(r, n, dAny)
		for i := 0; i < pairs; i++ {
			k := g.dim()
			if many {
				k = g.r.Range(1, 4)
			}
			g.x(r, k, dAny)
			g.x(k, n, dAny)
		}
		nilAt := -1
		if g.r.P(0.3) {
			nilAt = g.r.Range(1, pairs)
		}
		return &Inst{desc: fmt.Sprintf("pairs=%d nil=%d", pairs, nilAt), ref: func(xs []*M) *M {
			y := xs[0].clone()
			for i := 1; i < len(xs); i += 2 {
				y = sumPair([]*M{y, mul(xs[i], xs[i+1])})
			}
			return y
		}, build: func(xs []mat.Tensor) mat.Tensor {
			rest := append([]mat.Tensor{}, xs[3:]...)
			if nilAt > 0 { // nil x: the pair is skipped
				at := min(2*(nilAt-1), len(rest))
				rest = append(rest[:at:at], append([]mat.Tensor{xs[1], nil}, rest[at:]...)...)
			}
			y := ag.Affine(xs[0], xs[1], xs[2], rest...)
			decoys(rest) // the list is the caller's
			return y
		}}
	}}, OpSpec{"BiLinear", func(g *G) *Inst {
		a, b := g.dim(), g.dim()
		g.x(a, b, dAny)
		g.x(a, 1, dUnit)
		g.x(b, 1, dUnit)
		return &Inst{ref: func(xs []*M) *M { return mul(mul(xs[1].t(), xs[0]), xs[2]) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.BiLinear(xs[0], xs[1], xs[2]) }}
	}}, OpSpec{"BiAffine", func(g *G) *Inst {
		a, b := g.dim(), g.dim()
		g.x(a, b, dAny)
		g.x(a, 1, dAny)
		g.x(b, 1, dAny)
		g.x(1, 1, dAny)
		g.x(a, 1, dUnit)
		g.x(b, 1, dUnit)
		return &Inst{ref: func(xs []*M) *M {
			w, u, v, bb, x1, x2 := xs[0], xs[1], xs[2], xs[3], xs[4], xs[5]
			return sumPair([]*M{mul(mul(x1.t(), w), x2), mul(u.t(), x1), mul(v.t(), x2), bb})
		}, build: func(xs []mat.Tensor) mat.Tensor {
			return ag.BiAffine(xs[0], xs[1], xs[2], xs[3], xs[4], xs[5])
		}}
	}})

	// --- structure
	add(OpSpec{"T", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M { return xs[0].t() }, build: func(xs []mat.Tensor) mat.Tensor { return ag.T(xs[0]) }}
	}}, OpSpec{"Flatten", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M { return xs[0].reshape(1, xs[0].size()) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.Flatten(xs[0]) }}
	}}, OpSpec{"Reshape", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		n := r * c
		var ds []int
		for d := 1; d <= n; d++ {
			if n%d == 0 {
				ds = append(ds, d)
			}
		}
		nr := ds[g.r.Intn(len(ds))]
		return &Inst{desc: fmt.Sprintf("->%d×%d", nr, n/nr), ref: func(xs []*M) *M { return xs[0].reshape(nr, n/nr) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.Reshape(xs[0], nr, n/nr) }}
	}}, OpSpec{"Slice", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		r0 := g.r.Intn(r)
		c0 := g.r.Intn(c)
		r1, c1 := g.r.Range(r0+1, r), g.r.Range(c0+1, c)
		return &Inst{desc: fmt.Sprint(r0, c0, r1, c1), ref: func(xs []*M) *M { return refSlice(xs[0], r0, c0, r1, c1) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.Slice(xs[0], r0, c0, r1, c1) }}
	}}, OpSpec{"RowView", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		i := g.r.Intn(r)
		return &Inst{desc: fmt.Sprint(i), ref: func(xs []*M) *M { return refSlice(xs[0], i, 0, i+1, c) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.RowView(xs[0], i) }}
	}}, OpSpec{"ColView", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		i := g.r.Intn(c)
		return &Inst{desc: fmt.Sprint(i), ref: func(xs []*M) *M { return refSlice(xs[0], 0, i, r, i+1) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.ColView(xs[0], i) }}
	}}, OpSpec{"At", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		i, j := g.r.Intn(r), g.r.Intn(c)
		return &Inst{desc: fmt.Sprint(i, j), ref: func(xs []*M) *M { return scalarM(xs[0].at(i, j)) }, build: func(xs []mat.Tensor) mat.Tensor {
			idx := []int{i, j}
			y := ag.At(xs[0], idx...)
			idx[0], idx[1] = r-1-i, c-1-j // the list is the caller's
			return y
		}}
	}}, OpSpec{"AtVec", func(g *G) *Inst {
		r, c := g.vec()
		g.x(r, c, dAny)
		i := g.r.Intn(r * c)
		return &Inst{desc: fmt.Sprint(i), ref: func(xs []*M) *M { return scalarM(xs[0].v[i]) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.At(xs[0], i) }}
	}}, OpSpec{"RotateR", func(g *G) *Inst {
		_, n := g.vec()
		if n == 1 {
			n = g.dim()
		}
		g.x(n, 1, dAny)
		i := g.r.Intn(n + 1)
		return &Inst{desc: fmt.Sprint(i), ref: func(xs []*M) *M {
			o := newM(n, 1)
			for k := range o.v {
				o.v[(k+i)%n] = xs[0].v[k]
			}
			return o
		}, build: func(xs []mat.Tensor) mat.Tensor { return ag.RotateR(xs[0], i) }}
	}}, OpSpec{"Concat", func(g *G) *Inst {
		listOf(g, g.r.Range(1, 4), func() { r, c := g.vec(); g.x(r, c, dAny) })
		return &Inst{ref: refConcat, build: func(xs []mat.Tensor) mat.Tensor { return ag.Concat(xs...) }}
	}}, OpSpec{"Stack", func(g *G) *Inst {
		r, c := g.vec()
		listOf(g, g.r.Range(1, 4), func() {
			if g.r.P(0.3) {
				r, c = c, r
			}
			g.x(r, c, dAny)
		})
		return &Inst{ref: refStack, build: func(xs []mat.Tensor) mat.Tensor { return ag.Stack(xs...) }}
	}}, OpSpec{"AppendRows", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		listOf(g, g.r.Range(0, 3), func() { g.x(1, c, dAny) }) // columns: see appendRowsColumn
		return &Inst{ref: func(xs []*M) *M {
			v := append([]float64{}, xs[0].v...)
			for _, x := range xs[1:] {
				v = append(v, x.v...)
			}
			return mOf(len(v)/xs[0].c, xs[0].c, v...)
		}, build: func(xs []mat.Tensor) mat.Tensor { return ag.AppendRows(xs[0], xs[1:]...) }}
	}}, OpSpec{"MaxPooling", func(g *G) *Inst {
		pr, pc := g.r.Range(1, 3), g.r.Range(1, 3)
		r, c := pr*g.r.Range(1, 3), pc*g.r.Range(1, 3)
		g.x(r, c, dAny)
		return &Inst{desc: fmt.Sprintf("%d×%d", pr, pc), ref: func(xs []*M) *M {
			o := newM(r/pr, c/pc)
			for i := 0; i < o.r; i++ {
				for j := 0; j < o.c; j++ {
					o.set(i, j, maxOf(refSlice(xs[0], i*pr, j*pc, (i+1)*pr, (j+1)*pc).v))
				}
			}
			return o
		}, build: func(xs []mat.Tensor) mat.Tensor { return ag.MaxPooling(xs[0], pr, pc) }}
	}})

	// --- lists
	list := func(name string, f func(a, b float64) float64, fin func(x, n float64) float64, b func(xs []mat.Tensor) mat.Tensor) {
		add(OpSpec{name, func(g *G) *Inst {
			r, c := g.shape()
			listOf(g, g.r.Range(1, 5), func() { g.x(r, c, dAny) })
			return &Inst{ref: func(xs []*M) *M {
				o := xs[0].clone()
				for _, x := range xs[1:] {
					o = zip(o, x, f)
				}
				return o.mapf(func(x float64) float64 { return fin(x, float64(len(xs))) })
			}, build: b}
		}})
	}
	id := func(x, _ float64) float64 { return x }
	list("Sum", func(a, b float64) float64 { return a + b }, id, func(xs []mat.Tensor) mat.Tensor { return ag.Sum(xs...) })
	list("Mean", func(a, b float64) float64 { return a + b }, func(x, n float64) float64 { return x / n }, ag.Mean)
	list("Maximum", math.Max, id, ag.Maximum)
	list("Minimum", math.Min, id, ag.Minimum)

	// --- multi-output helpers, reduced to one node by summing weighted parts
	add(OpSpec{"SeparateVec", func(g *G) *Inst {
		r, c := g.vec()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M { return col(xs[0].v...) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.Concat(ag.SeparateVec(xs[0])...) }}
	}}, OpSpec{"SeparateMatrix", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M { return col(xs[0].v...) }, build: func(xs []mat.Tensor) mat.Tensor {
			var ys []mat.Tensor
			for _, row := range ag.SeparateMatrix(xs[0]) {
				ys = append(ys, row...)
			}
			return ag.Concat(ys...)
		}}
	}}, OpSpec{"SplitVec", func(g *G) *Inst {
		k := g.r.Range(1, 4)
		n := k * g.r.Range(1, 5)
		g.x(n, 1, dAny)
		return &Inst{desc: fmt.Sprint("chunks=", k), ref: func(xs []*M) *M { return mOf(k, n/k, xs[0].v...) }, build: func(xs []mat.Tensor) mat.Tensor { return ag.Stack(ag.SplitVec(xs[0], k)...) }}
	}}, OpSpec{"RowViews", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M { return xs[0].clone() }, build: func(xs []mat.Tensor) mat.Tensor { return ag.Stack(ag.RowViews(xs[0])...) }}
	}}, OpSpec{"ColViews", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M { return xs[0].t() }, build: func(xs []mat.Tensor) mat.Tensor { return ag.Stack(ag.ColViews(xs[0])...) }}
	}}, OpSpec{"MapMap2", func(g *G) *Inst {
		r, c := g.shape()
		n := g.r.Range(1, 3)
		listOf(g, n, func() { g.x(r, c, dAny); g.x(r, c, dAny) })
		n = len(g.args) / 2
		return &Inst{ref: func(xs []*M) *M {
			o := newM(r, c)
			for i := 0; i < n; i++ {
				for k := range o.v {
					o.v[k] += -xs[i].v[k] * xs[n+i].v[k]
				}
			}
			return o
		}, build: func(xs []mat.Tensor) mat.Tensor {
			return ag.Sum(ag.Map2(ag.Prod, ag.Map(ag.Neg, xs[:n]), xs[n:])...)
		}}
	}}, OpSpec{"Pad", func(g *G) *Inst {
		r, c := g.shape()
		n := g.r.Range(2, 4)
		k := g.r.Range(1, 5)
		listOf(g, n, func() { g.x(r, c, dAny) })
		return &Inst{desc: fmt.Sprintf("%d of %d", k, n-1), ref: func(xs []*M) *M { // the last operand is the padding
			var ys []*M
			for i := 0; i < k; i++ {
				y := xs[n-1]
				if i < n-1 {
					y = xs[i]
				}
				ys = append(ys, y.mapf(func(x float64) float64 { return x * float64(i+1) }))
			}
			return sumPair(ys)
		}, build: func(xs []mat.Tensor) mat.Tensor {
			in := append([]mat.Tensor{}, xs[:n-1]...)
			ys := ag.Pad(in, k, func(i int) mat.Tensor { return xs[n-1] })
			if len(ys) != k {
				panic(fmt.Sprintf("Pad returned %d elements, want %d", len(ys), k))
			}
			zs := make([]mat.Tensor, k)
			for i, y := range ys {
				zs[i] = ag.ProdScalar(y, y.Value().(mat.Matrix).NewScalar(float64(i+1)))
			}
			return ag.Sum(zs...)
		}}
	}}, OpSpec{"AddNil", func(g *G) *Inst {
		r, c := g.shape()
		g.x(r, c, dAny)
		return &Inst{ref: func(xs []*M) *M { return xs[0].clone() }, build: func(xs []mat.Tensor) mat.Tensor { return ag.Add(nil, xs[0]) }}
	}})
	for i := range s {
		spec := s[i]
		s[i].gen = func(g *G) *Inst {
			g.args, g.nodiff = nil, nil
			in := spec.gen(g)
			in.op, in.args, in.nodiff = spec.name, g.args, g.nodiff
			if spec.name == "GELU" {
				in.gtol = 20
			}
			return in
		}
	}
	return s
}

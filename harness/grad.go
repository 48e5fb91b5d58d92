package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// leaf is an input of a generated computation.
type leaf struct {
	v    *M
	grad bool // requires gradients
	t    mat.Matrix
	g0   *M // gradient present before the pass, or nil
}

// single generates applications of one operator to fresh leaves.
type single struct {
	t      *T
	dt     dtype
	leaves []*leaf
	dup    float64
	over   *dom // overrides the domain of non-scalar operands
	big    bool // large operands
}

func (s *single) G() *G {
	g := &G{r: s.t.R, big: s.big}
	g.shape = func() (int, int) {
		switch s.t.R.Intn(6) {
		case 0:
			return g.long(g.dim()), 1
		case 1:
			return 1, g.long(g.dim())
		case 2:
			if s.t.R.P(0.3) {
				return 1, 1
			}
		}
		return g.dim(), g.dim()
	}
	g.operand = func(r, c int, d dom) int {
		if s.over != nil {
			d = *s.over
		}
		if s.dup > 0 && s.t.R.P(s.dup) {
			for i, l := range s.leaves {
				if l.v.r == r && l.v.c == c && d.hasM(l.v) {
					return i
				}
			}
		}
		m := newM(r, c)
		for i := range m.v {
			m.v[i] = s.dt.quant(d.draw(s.t.R))
			if !d.has(m.v[i]) {
				i--
			}
		}
		if s.t.R.P(0.25) { // exact values and ties
			for i := range m.v {
				x := []float64{0, 1, -1, 2, 0.5}[s.t.R.Intn(5)]
				if i > 0 && s.t.R.P(0.3) {
					x = m.v[s.t.R.Intn(i)]
				}
				if s.t.R.P(0.3) && d.has(x) {
					m.v[i] = x
				}
			}
		}
		s.leaves = append(s.leaves, &leaf{v: m})
		return len(s.leaves) - 1
	}
	return g
}

func instDesc(in *Inst, leaves []*leaf) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s(", in.op, in.desc)
	for i, a := range in.args {
		if i > 0 {
			b.WriteString(", ")
		}
		fmt.Fprintf(&b, "#%d", a)
		if leaves != nil {
			fmt.Fprintf(&b, "=%v", leaves[a].v)
			if leaves[a].grad {
				b.WriteByte('*')
			}
		}
	}
	b.WriteByte(')')
	return b.String()
}

func shapeSig(in *Inst, leaves []*leaf) string {
	var b strings.Builder
	for _, a := range in.args {
		fmt.Fprintf(&b, "%dx%d,", leaves[a].v.r, leaves[a].v.c)
	}
	return b.String()
}

func (in *Inst) refOn(leaves []*leaf) *M {
	xs := make([]*M, len(in.args))
	for i, a := range in.args {
		xs[i] = leaves[a].v
	}
	return in.ref(xs)
}

func (in *Inst) tensors(leaves []*leaf) []mat.Tensor {
	ts := make([]mat.Tensor, len(in.args))
	for i, a := range in.args {
		ts[i] = leaves[a].t
	}
	return ts
}

// decoys replaces the tensors of a list by others: the caller of an operator or
// a layer may use its list of operands again, for others, once the call returned.
func decoys(xs []mat.Tensor) {
	for i, x := range xs {
		if x == nil {
			continue
		}
		v := x.Value()
		xs[i] = dtypeOf(v).mk(toM(v).mapf(func(v float64) float64 { return 1 - v }), true)
	}
}

func gradTol(dt dtype) float64 {
	if dt == f32 {
		return 2e-3
	}
	return 1e-5
}

// checkLeafGrad compares the gradient accumulated on a leaf with the expected
// one; elements expected NaN (not differentiable) only need to be finite.
func checkLeafGrad(l *leaf, want *M, tol float64) string {
	g := l.t.Grad()
	if isNilT(g) {
		for _, w := range want.v {
			if !math.IsNaN(w) && math.Abs(w) > tol {
				return fmt.Sprintf("no gradient, want %v", want)
			}
		}
		return ""
	}
	got := toM(g)
	if got.r != want.r || got.c != want.c {
		return fmt.Sprintf("gradient shape %d×%d, operand shape %d×%d", got.r, got.c, want.r, want.c)
	}
	if len(got.v) != len(want.v) {
		return fmt.Sprintf("gradient has %d elements, want %d", len(got.v), len(want.v))
	}
	scale := 1.0
	for _, w := range want.v {
		if !math.IsNaN(w) {
			scale = math.Max(scale, math.Abs(w))
		}
	}
	for i, w := range want.v {
		x := got.v[i]
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return fmt.Sprintf("gradient element %d = %v, want %v (finite)\ngot  %v\nwant %v", i, x, w, got, want)
		}
		if math.IsNaN(w) {
			continue
		}
		if math.Abs(x-w) > tol*scale {
			return fmt.Sprintf("gradient element %d = %.10g, want %.10g\ngot  %v\nwant %v", i, x, w, got, want)
		}
	}
	return ""
}

func isNilT(t mat.Tensor) bool {
	if t == nil {
		return true
	}
	switch x := t.(type) {
	case *mat.Dense[float32]:
		return x == nil
	case *mat.Dense[float64]:
		return x == nil
	}
	return false
}

// gradCase checks the gradients of one application.
func gradCase(t *T, spec OpSpec, dt dtype, over *dom, big bool) {
	s := &single{t: t, dt: dt, dup: 0.12, over: over, big: big}
	if over != nil || tieOps[spec.name] {
		s.dup = 0
	}
	in := spec.gen(s.G())
	nodiff := map[int]bool{}
	for i, a := range in.args {
		if in.nodiff[i] {
			nodiff[a] = true
		}
	}
	some := false
	for i, l := range s.leaves {
		l.grad = t.R.P(0.75)
		if nodiff[i] {
			l.grad = false
		}
		some = some || l.grad
	}
	if !some {
		for i, l := range s.leaves {
			if !nodiff[i] {
				l.grad = true
			}
		}
	}
	for _, l := range s.leaves {
		l.t = dt.mk(l.v, l.grad)
		if l.grad && t.R.P(0.15) {
			l.g0 = dt.quantM(t.randM(l.v.r, l.v.c, -2, 2))
			l.t.AccGrad(dt.mk(l.g0, false))
		}
	}
	desc := instDesc(in, s.leaves)
	t.Sample("%s %s", dt, desc)
	key := "grad:" + in.op

	ops := in.tensors(s.leaves)
	y := in.build(ops)
	decoys(ops)
	yr := in.refOn(s.leaves)
	yv := toM(y.Value())
	gym := dt.quantM(t.randM(yr.r, yr.c, -2, 2))
	for i, g := range gym.v { // so that kinks show
		if math.Abs(g) < 0.05 {
			gym.v[i] = dt.quant(0.05 + math.Abs(g))
		}
	}
	if t.R.P(0.25) { // sparse
		for i := range gym.v {
			if t.R.Bool() {
				gym.v[i] = 0
			}
		}
	}
	if yv.r != yr.r || yv.c != yr.c {
		t.Fail(key, "%s\nresult shape %d×%d, want %d×%d", desc, yv.r, yv.c, yr.r, yr.c)
		return
	}
	op, isOp := y.(*ag.Operator)
	if !isOp {
		// the helper returned its only operand
	} else if !op.RequiresGrad() {
		return
	}
	if isOp && yr.size() == 1 && t.R.Bool() {
		gym = scalarM(1)
	} else {
		if !isOp && y.(mat.Matrix).HasGrad() {
			return
		}
		y.AccGrad(dt.mk(gym, false))
	}
	if err := ag.Backward(y); err != nil {
		t.Fail(key, "%s\nBackward: %v", desc, err)
		return
	}
	tol := gradTol(dt)
	if in.gtol > 0 {
		tol *= in.gtol
	}
	for i, l := range s.leaves {
		if !l.grad {
			if isOp {
				t.Check(!l.t.HasGrad(), key, "%s\noperand #%d does not require gradients but received one", desc, i)
			}
			continue
		}
		keep := l.v
		f := func(x *M) []float64 {
			l.v = x
			return in.refOn(s.leaves).v
		}
		var want *M
		uses := 0
		for _, a := range in.args {
			if a == i {
				uses++
			}
		}
		switch {
		case big && in.elem && l.v.size() == yr.size() && yr.size() > 1 && uses == 1:
			want = gradFDElem(f, keep, gym.v)
		case big && l.v.size() > 40:
			n := l.v.size()
			at := []int{0, n - 1}
			for k := 0; k < 12; k++ {
				j := t.R.Intn(n)
				if k < 4 {
					j = min(n-1, j/16*16+15)
				}
				at = append(at, j)
			}
			want = gradFDAt(f, keep, gym.v, at)
			skip := map[int]bool{}
			for _, j := range at {
				skip[j] = true
			}
			for j := range want.v {
				if !skip[j] {
					want.v[j] = math.NaN()
				}
			}
		default:
			want = gradFD(f, keep, gym.v)
		}
		l.v = keep
		if l.g0 != nil {
			want = zip(want, l.g0, func(a, b float64) float64 { return a + b })
		}
		for _, w := range want.v {
			if math.IsNaN(w) {
				t.Event("nonsmooth_elements_skipped", 1)
			} else {
				t.Event("gradient_elements_compared", 1)
			}
		}
		msg := checkLeafGrad(l, want, tol)
		t.Check(msg == "", key, "%s %s\noutput gradient %v\noperand #%d: %s", dt, desc, gym, i, msg)
		t.Check(sameM(toM(l.t), l.v), key, "%s\noperand #%d changed by the passes: %v", desc, i, toM(l.t))
	}
	t.Seen(in.op, dt, in.desc, shapeSig(in, s.leaves))
}

// tieOps have no derivative where two operands are equal.
var tieOps = map[string]bool{"Max": true, "Min": true, "Maximum": true, "Minimum": true, "ScalarMax": true, "LogSumExpList": true}

// extremeOps are the operators expected to stay finite far from zero.
var extremeOps = []string{"Sigmoid", "Tanh", "HardSigmoid", "HardTanh", "ReLU", "Softsign", "Mish", "GELU", "SiLU", "Swish",
	"Softmax", "LogSumExpVec", "LogSumExpList", "ReduceMax", "ScalarMax", "Abs", "Max", "Min", "Maximum", "Minimum", "MaxPooling", "PositiveELUneg", "SparseMax"}

func init() {
	register(&Property{
		ID:    "P01",
		Boost: 2,
		Rule: "a case applies one differentiable operator to generated operands (shapes row/column/matrix/scalar up to 40, float32 and float64, operands shared or not, a subset requiring gradients, some with gradients already present) with a random output gradient; " +
			"the gradients observed on the real tensors are compared with 5-point finite differences of an independent float64 reference; distinct = operator × dtype × operand shapes × parameters",
		Phases: []Phase{
			{Name: "operators", Shards: 6, MinEvents: map[string]int64{"gradient_elements_compared": 20000}, Run: func(c *C) {
				n := c.N(250, 1800)
				for _, spec := range opSpecs {
					for _, dt := range []dtype{f64, f32} {
						for b := 0; b < c.N(1, 10); b++ {
							c.Case(fmt.Sprintf("%s/%s/%d", spec.name, dt, b), func(t *T) {
								for i := 0; i < n && !t.Failed(); i++ {
									gradCase(t, spec, dt, nil, false)
								}
							})
						}
					}
				}
			}},
			{Name: "large", Shards: 6, MinEvents: map[string]int64{"gradient_elements_compared": 20000}, Run: func(c *C) {
				for _, spec := range opSpecs {
					for _, dt := range []dtype{f64, f32} {
						for b := 0; b < c.N(4, 150); b++ {
							c.Case(fmt.Sprintf("%s/%s/%d", spec.name, dt, b), func(t *T) { gradCase(t, spec, dt, nil, true) })
						}
					}
				}
			}},
			{Name: "append-columns", Run: func(c *C) {
				c.Case("AppendRowsColumn", appendRowsColumn)
			}},
			{Name: "steep", MinEvents: map[string]int64{"steep": 10000}, Run: func(c *C) { steepCases(c, c.N(20, 600), true) }},
			{Name: "range", MinEvents: map[string]int64{"wide operands": 10000, "ties": 10000}, Run: func(c *C) {
				rangeCases(c, c.N(20, 600), true)
				for i := 0; i < c.N(200, 4000); i++ {
					c.Case(fmt.Sprint("ties/", i), func(t *T) {
						for k := 0; k < 30 && !t.Failed(); k++ {
							tieCase(t)
						}
					})
				}
			}},
			{Name: "extremes", Shards: 2, Run: func(c *C) {
				n := c.N(60, 2000)
				for _, name := range extremeOps {
					name := name
					neg := strings.HasSuffix(name, "neg")
					spec := opSpec(strings.TrimSuffix(name, "neg"))
					for _, dt := range []dtype{f64, f32} {
						for _, hi := range []float64{30, 50, 88, 100, 250, 400, 700} {
							if dt == f32 && hi > 60 {
								continue
							}
							c.Case(fmt.Sprintf("%s/%s/%g", name, dt, hi), func(t *T) {
								for i := 0; i < n && !t.Failed(); i++ {
									d := dom{lo: -hi, hi: hi}
									if neg {
										d.hi = 3
									}
									gradCase(t, spec, dt, &d, false)
								}
							})
						}
					}
				}
			}},
		},
	})
}

// appendRowsColumn: AppendRows accepts column vectors as rows; their gradients
// must have the values, and the shape, of the operands.
func appendRowsColumn(t *T) {
	for i := 0; i < t.N(50, 500); i++ {
		r, c := t.R.Range(1, 5), t.R.Range(2, 9)
		dt := []dtype{f32, f64}[i%2]
		x, v := dt.quantM(t.randM(r, c, -2, 2)), dt.quantM(t.randM(c, 1, -2, 2))
		xt, vt := dt.mk(x, true), dt.mk(v, true)
		y := ag.AppendRows(xt, vt)
		gy := dt.quantM(t.randM(r+1, c, -2, 2))
		y.AccGrad(dt.mk(gy, false))
		if err := ag.Backward(y); err != nil {
			t.Fail("grad:AppendRows:column", "Backward: %v", err)
			return
		}
		g := toM(vt.Grad())
		ok := len(g.v) == c
		for k := 0; ok && k < c; k++ {
			ok = g.v[k] == gy.at(r, k)
		}
		t.Check(ok, "grad:AppendRows:column", "gradient of the column operand %v, want the values of row %d of %v", g, r, gy)
		t.Check(g.r == c && g.c == 1, "grad:AppendRows:column-operand-shape", "gradient of a %d×1 operand has shape %d×%d", c, g.r, g.c)
		msg := checkLeafGrad(&leaf{v: x, t: xt}, refSlice(gy, 0, 0, r, c), 0)
		t.Check(msg == "", "grad:AppendRows:column", "matrix operand: %s", msg)
		t.Event("gradient_elements_compared", r*c+c)
		t.Seen("AppendRowsColumn", dt, r, c)
	}
}

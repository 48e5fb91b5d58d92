package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// Operands of very different magnitudes, up to the ends of the float types, for
// functions whose value and derivative are known in closed form.
var rangeOps = []struct {
	name string
	// abs: the function saturates, and its error is relative to 1
	abs, pos bool
	f        func(x float64) (y, dy float64)
	build    func(x mat.Tensor) mat.Tensor
}{
	{"Abs", false, false, func(x float64) (float64, float64) { return math.Abs(x), math.Copysign(1, x) }, ag.Abs},
	{"Neg", false, false, func(x float64) (float64, float64) { return -x, -1 }, ag.Neg},
	{"Square", false, false, func(x float64) (float64, float64) { return x * x, 2 * x }, ag.Square},
	{"Sqrt", false, true, func(x float64) (float64, float64) { return math.Sqrt(x), 0.5 / math.Sqrt(x) }, ag.Sqrt},
	{"Log", true, true, func(x float64) (float64, float64) { return math.Log(x), 1 / x }, ag.Log},
	{"Reciprocal", false, false, func(x float64) (float64, float64) { return 1 / x, -1 / x / x }, ag.Reciprocal},
	{"ReLU", false, false, func(x float64) (float64, float64) {
		if x > 0 {
			return x, 1
		}
		return 0, 0
	}, ag.ReLU},
	{"Tanh", true, false, func(x float64) (float64, float64) { return math.Tanh(x), 1 - math.Tanh(x)*math.Tanh(x) }, ag.Tanh},
	{"Sigmoid", true, false, func(x float64) (float64, float64) { return sigmoid(x), sigmoid(x) * sigmoid(-x) }, ag.Sigmoid},
	{"Softsign", true, false, func(x float64) (float64, float64) {
		return x / (1 + math.Abs(x)), 1 / (1 + math.Abs(x)) / (1 + math.Abs(x))
	}, ag.Softsign},
	{"SiLU", true, false, func(x float64) (float64, float64) {
		s := sigmoid(x)
		if s == 0 {
			return 0, 0
		}
		return x * s, s + x*s*sigmoid(-x)
	}, ag.SiLU},
	{"Mish", true, false, func(x float64) (float64, float64) {
		th := math.Tanh(softplus1(x))
		if th == 0 {
			return 0, 0
		}
		return x * th, th + x*sigmoid(x)*(1-th*th)
	}, ag.Mish},
	{"GELU", true, false, func(x float64) (float64, float64) {
		if math.Abs(x) > 40 {
			return math.Max(0, x), math.Max(0, math.Copysign(1, x))
		}
		const h = 1e-4
		return geluRef(x), (geluRef(x+h) - geluRef(x-h)) / (2 * h)
	}, ag.GELU},
	{"PositiveELU", true, false, func(x float64) (float64, float64) {
		if x > 0 {
			return x + 1, 1
		}
		return math.Exp(x), math.Exp(x)
	}, ag.PositiveELU},
	{"HardTanh", true, false, func(x float64) (float64, float64) {
		if math.Abs(x) < 1 {
			return x, 1
		}
		return math.Copysign(1, x), 0
	}, ag.HardTanh},
	{"Pow3", false, false, func(x float64) (float64, float64) { return x * x * x, 3 * x * x }, func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 3) }},
	{"Pow-2", false, true, func(x float64) (float64, float64) { return 1 / x / x, -2 / x / x / x }, func(x mat.Tensor) mat.Tensor { return ag.Pow(x, -2) }},
	{"Pow1.5", false, true, func(x float64) (float64, float64) { return x * math.Sqrt(x), 1.5 * math.Sqrt(x) }, func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 1.5) }},
}

func (dt dtype) span() float64 {
	if dt == f32 {
		return 32
	}
	return 95
}

// fits tells whether the type represents x well.
func (dt dtype) fits(x float64) bool {
	a := math.Abs(x)
	if dt == f32 {
		return a == 0 || a > 1e-35 && a < 1e37
	}
	return a == 0 || a > 1e-290 && a < 1e290
}

// wide draws a number of any magnitude.
func (t *T) wide(dt dtype, pos bool) float64 {
	e := t.R.Uni(-1, 1) * dt.span()
	if t.R.P(0.3) {
		e /= 10
	}
	x := dt.quant(math.Pow(10, e))
	if !pos && t.R.Bool() {
		x = -x
	}
	return x
}

func (dt dtype) relTol() float64 {
	if dt == f32 {
		return 4e-6
	}
	return 1e-9
}

// rangeCase compares one function of operands of any magnitude with its closed
// form: the values, or the gradients.
func rangeCase(t *T, i int, dt dtype, grads bool) {
	op := rangeOps[i]
	n := t.R.Range(1, 20)
	xv := newM(n, 1)
	for j := range xv.v {
		for {
			x := t.wide(dt, op.pos)
			y, dy := op.f(x)
			if dt.fits(y) && dt.fits(dy) {
				xv.v[j] = x
				break
			}
		}
	}
	x := dt.mk(xv, grads)
	y := op.build(x)
	got := toM(y.Value())
	g := newM(n, 1)
	key := "range:" + op.name
	if grads {
		g = dt.quantM(t.randM(n, 1, -1, 1))
		y.AccGrad(dt.mk(g, false))
		if err := ag.Backward(y); err != nil {
			t.Fail(key, "%v", err)
			return
		}
		if got = gradOf(x); !t.Check(got != nil, key, "%s %s: no gradient", dt, op.name) {
			return
		}
	}
	for j, v := range xv.v {
		want, dy := op.f(v)
		slack := dt.tiny()
		if grads {
			want = dy * g.v[j]
		}
		if op.abs {
			slack += dt.relTol()
		}
		if op.name == "GELU" {
			slack += 1e-5
		}
		if !t.Check(math.Abs(got.v[j]-want) <= dt.relTol()*math.Abs(want)+slack, key, "%s %s at %g (output gradient %g): %g, want %g", dt, op.name, v, g.v[j], got.v[j], want) {
			return
		}
	}
	t.Event("wide operands", n)
	t.Seen(op.name, dt, fmt.Sprint(xv))
}

var rangeBin = []struct {
	name   string
	scalar bool
	f      func(a, b float64) (y, da, db float64)
	build  func(a, b mat.Tensor) mat.Tensor
}{
	{"Div", false, func(a, b float64) (float64, float64, float64) { return a / b, 1 / b, -(a / b) / b }, ag.Div},
	{"DivScalar", true, func(a, b float64) (float64, float64, float64) { return a / b, 1 / b, -(a / b) / b }, ag.DivScalar},
	{"Prod", false, func(a, b float64) (float64, float64, float64) { return a * b, b, a }, ag.Prod},
	{"ProdScalar", true, func(a, b float64) (float64, float64, float64) { return a * b, b, a }, ag.ProdScalar},
	{"Sub", false, func(a, b float64) (float64, float64, float64) { return a - b, 1, -1 }, ag.Sub},
	{"SubScalar", true, func(a, b float64) (float64, float64, float64) { return a - b, 1, -1 }, ag.SubScalar},
	{"Max", false, func(a, b float64) (float64, float64, float64) {
		if a > b {
			return a, 1, 0
		}
		return b, 0, 1
	}, ag.Max},
	{"Min", false, func(a, b float64) (float64, float64, float64) {
		if a < b {
			return a, 1, 0
		}
		return b, 0, 1
	}, ag.Min},
}

func rangeBinCase(t *T, i int, dt dtype, grads bool) {
	op := rangeBin[i]
	n := t.R.Range(1, 20)
	av, bv := newM(n, 1), newM(n, 1)
	if op.scalar {
		bv = newM(1, 1)
	}
	b := func(j int) *float64 { return &bv.v[min(j, len(bv.v)-1)] }
	for j := range av.v {
		for tries := 0; ; tries++ {
			if j == 0 || !op.scalar {
				*b(j) = t.wide(dt, false)
			}
			av.v[j] = t.wide(dt, false)
			if tries > 30 && op.scalar {
				av.v[j] = av.v[0]
			}
			y, da, db := op.f(av.v[j], *b(j))
			if dt.fits(y) && dt.fits(da) && dt.fits(db) && av.v[j] != *b(j) {
				break
			}
		}
	}
	x1, x2 := dt.mk(av, grads), dt.mk(bv, grads)
	y := op.build(x1, x2)
	key := "range:" + op.name
	desc := fmt.Sprintf("%s %s(%v, %v)", dt, op.name, av, bv)
	ok := func(what string, got *M, want, size []float64) bool {
		if !t.Check(got != nil && len(got.v) == len(want), key, "%s: %s is %v", desc, what, got) {
			return false
		}
		for j := range want {
			if !t.Check(math.Abs(got.v[j]-want[j]) <= dt.relTol()*size[j]+dt.tiny(), key, "%s: %s %d is %g, want %g", desc, what, j, got.v[j], want[j]) {
				return false
			}
		}
		return true
	}
	g := newM(n, 1)
	if grads {
		g = dt.quantM(t.randM(n, 1, -1, 1))
		y.AccGrad(dt.mk(g, false))
		if err := ag.Backward(y); err != nil {
			t.Fail(key, "%v", err)
			return
		}
	}
	vals, das, dbs, aas, abs := make([]float64, n), make([]float64, n), make([]float64, len(bv.v)), make([]float64, n), make([]float64, len(bv.v))
	vabs := make([]float64, n)
	for j, a := range av.v {
		k := min(j, len(bv.v)-1)
		y, da, db := op.f(a, bv.v[k])
		vals[j], vabs[j] = y, math.Abs(y)
		das[j], aas[j] = da*g.v[j], math.Abs(da*g.v[j])
		dbs[k] += db * g.v[j]
		abs[k] += math.Abs(db * g.v[j])
	}
	if grads {
		if !ok("gradient of the first operand", gradOf(x1), das, aas) || !ok("gradient of the second operand", gradOf(x2), dbs, abs) {
			return
		}
	} else if !ok("element", toM(y.Value()), vals, vabs) {
		return
	}
	t.Event("wide operands", n)
	t.Seen(op.name, dt, desc)
}

func rangeCases(c *C, n int, grads bool) {
	each := func(name string, f func(t *T, dt dtype)) {
		for _, dt := range []dtype{f64, f32} {
			for b := 0; b < n; b++ {
				c.Case(fmt.Sprintf("range/%s/%s/%d", name, dt, b), func(t *T) {
					for k := 0; k < 20 && !t.Failed(); k++ {
						f(t, dt)
					}
				})
			}
		}
	}
	for i, op := range rangeOps {
		each(op.name, func(t *T, dt dtype) { rangeCase(t, i, dt, grads) })
	}
	for i, op := range rangeBin {
		each(op.name, func(t *T, dt dtype) { rangeBinCase(t, i, dt, grads) })
	}
}

// tieCase: where several operands attain a maximum or minimum, or one operand
// is given twice, the gradient is a subgradient: what those that attain it
// receive adds up to the output gradient, and the others receive nothing.
func tieCase(t *T) {
	dt := []dtype{f32, f64}[t.R.Intn(2)]
	small := func(r, c int) *M {
		return t.randM(r, c, 0, 1).mapf(func(float64) float64 { return float64(t.R.Range(-1, 1)) })
	}
	sign := 1.0
	kind := t.R.Intn(7)
	name := []string{"Max", "Min", "Maximum", "Minimum", "ScalarMax", "ReduceMax", "MaxPooling"}[kind]
	if kind == 1 || kind == 3 {
		sign = -1
	}
	type cell struct{ i, j int } // element j of leaf i
	var leaves []*M
	var groups [][]cell // of what each output element is the extreme
	var use []int       // operands as leaves
	var ts []mat.Tensor
	var y mat.Tensor
	r, c := t.R.Range(1, 5), t.R.Range(1, 5)
	k := 2
	switch kind {
	case 2, 3, 4:
		k = t.R.Range(1, 6)
	case 5, 6:
		k = 1
	}
	if kind == 4 {
		r, c = 1, 1
	}
	if kind == 5 {
		if r = 1; t.R.Bool() {
			r, c = c, 1
		}
	}
	pr, pc := t.R.Range(1, 3), t.R.Range(1, 3)
	if kind == 6 {
		r, c = r*pr, c*pc
	}
	for i := 0; i < k; i++ {
		if i > 0 && t.R.P(0.2) {
			use = append(use, t.R.Intn(len(leaves)))
			continue
		}
		use = append(use, len(leaves))
		leaves = append(leaves, small(r, c))
	}
	lt := make([]mat.Tensor, len(leaves))
	for i := range leaves {
		lt[i] = dt.mk(leaves[i], true)
	}
	for _, i := range use {
		ts = append(ts, lt[i])
	}
	switch kind {
	case 0:
		y = ag.Max(ts[0], ts[1])
	case 1:
		y = ag.Min(ts[0], ts[1])
	case 2:
		y = ag.Maximum(ts)
	case 3:
		y = ag.Minimum(ts)
	case 4:
		y = ag.ScalarMax(ts)
	case 5:
		y = ag.ReduceMax(ts[0])
	case 6:
		y = ag.MaxPooling(ts[0], pr, pc)
	}
	switch kind {
	case 5:
		var g []cell
		for j := range leaves[0].v {
			g = append(g, cell{0, j})
		}
		groups = [][]cell{g}
	case 6:
		for a := 0; a < r/pr; a++ {
			for b := 0; b < c/pc; b++ {
				var g []cell
				for p := 0; p < pr; p++ {
					for q := 0; q < pc; q++ {
						g = append(g, cell{0, (a*pr+p)*c + b*pc + q})
					}
				}
				groups = append(groups, g)
			}
		}
	default:
		for j := 0; j < r*c; j++ {
			var g []cell
			for i := range leaves {
				g = append(g, cell{i, j})
			}
			groups = append(groups, g)
		}
	}
	desc := fmt.Sprintf("%s %s of %v, operands %v", dt, name, leaves, use)
	key := "ties:" + name
	if _, leaf := y.(*ag.Operator); !leaf {
		return // the only operand itself
	}
	s := y.Value().Shape()
	if !t.Check(s[0]*s[1] == len(groups), key, "%s: shape %v", desc, s) {
		return
	}
	gy := dt.quantM(t.randM(s[0], s[1], -2, 2))
	y.AccGrad(dt.mk(gy, false))
	if err := ag.Backward(y); err != nil {
		t.Fail(key, "%s: %v", desc, err)
		return
	}
	gs := make([]*M, len(lt))
	for i := range lt {
		if gs[i] = gradOf(lt[i]); gs[i] == nil {
			gs[i] = newM(r, c)
		}
	}
	for o, group := range groups {
		best := math.Inf(-1)
		for _, x := range group {
			best = math.Max(best, sign*leaves[x.i].v[x.j])
		}
		sum, n := 0.0, 0
		for _, x := range group {
			g := gs[x.i].v[x.j]
			if sign*leaves[x.i].v[x.j] < best {
				if !t.Check(g == 0, key, "%s: an element that does not attain the extreme has the gradient %g", desc, g) {
					return
				}
				continue
			}
			n++
			sum += g
			share := g / gy.v[o]
			if !t.Check(gy.v[o] == 0 || share >= 0 && share <= 1+1e-6, key, "%s: an element that attains the extreme has the gradient %g, of %g", desc, g, gy.v[o]) {
				return
			}
		}
		if !t.Check(math.Abs(sum-gy.v[o]) <= 1e-6*math.Abs(gy.v[o]), key, "%s: output element %d: the gradients of what attains the extreme add up to %g, the output gradient is %g", desc, o, sum, gy.v[o]) {
			return
		}
		if n > 1 {
			t.Event("ties", 1)
		}
	}
	t.Seen(desc)
}

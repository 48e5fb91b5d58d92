package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
)

// netInst is one configured layer (or loss, or any function of parameters and
// inputs) with an independent reference of what it computes.
type netInst struct {
	model  nn.Model
	params []*nn.Param
	frozen map[int]bool // parameters that require no gradients by design
	xs     []*M
	desc   string
	fwd    func(xs ...mat.Tensor) []mat.Tensor
	// ref computes the outputs from the parameters and the inputs. p0 and x0 are
	// the values at which the outputs are differentiated: what the layer treats
	// as a constant must be computed from them.
	ref        func(p, xs, p0, x0 []*M) []*M
	noGrad     map[int]bool // inputs that never get gradients
	tol        float64      // extra factor on tolerances
	pscale     float64      // range of random parameters (default 1)
	keepParams bool
	skipGrad   bool
	valid      func(xs []*M) bool // inputs that are well conditioned
	skipPre    bool               // the parameters must not have gradients beforehand
	coords     int                // finite-difference coordinates (default 80)
	noRepeat   bool
	vscale     float64 // magnitude below which values are compared absolutely (default 1e-3)
}

// zeroable names the layers that are differentiable (or have kinks that finite
// differences recognise) at zero inputs and zero parameters.
var zeroable = map[string]bool{
	"linear": true, "highway": true, "sqrdist": true, "flatten": true,
	"scaled-dot-product": true, "self": true, "self-cached": true, "cross-cached": true, "multihead": true,
	"birnn": true, "bibilstm": true, "slstm": true, "nll": true,
}

var smoothActs = map[string]bool{"Identity": true, "Tanh": true, "Sigmoid": true, "GELU": true, "Swish": true, "Mish": true, "SiLU": true, "Softsign": true, "Softmax": true}

func init() {
	for _, k := range cellKinds {
		zeroable[k] = true
	}
	for _, s := range convSpecs {
		zeroable[s.name] = s.name != "maxpooling"
	}
}

// add registers a parameter and returns its index.
func (n *netInst) add(ps ...*nn.Param) int {
	i := len(n.params)
	n.params = append(n.params, ps...)
	return i
}

type netSpec struct {
	name string
	gen  func(t *T, dt dtype) *netInst
}

func setParam(p *nn.Param, m *M, dt dtype) {
	d := p.Value().(mat.Matrix)
	if len(m.v) != d.Size() {
		panic(fmt.Sprintf("setParam: %v", m))
	}
	if dt == f32 {
		x := make([]float32, len(m.v))
		for i, v := range m.v {
			x[i] = float32(v)
		}
		mat.SetData[float32](d, x)
		return
	}
	mat.SetData[float64](d, append([]float64(nil), m.v...))
}

func shapeOf(ts []*M) string {
	var b strings.Builder
	for _, m := range ts {
		fmt.Fprintf(&b, "%dx%d,", m.r, m.c)
	}
	return b.String()
}

// netCase checks the values and the gradients of one configured layer.
// A prelude uses the layer before, and may return tensors to use again as inputs.
func netCase(t *T, spec netSpec, dt dtype, prelude ...func(t *T, spec netSpec, dt dtype, n *netInst) []mat.Tensor) {
	t.kinky = false
	n := spec.gen(t, dt)
	if n == nil {
		return
	}
	if n.tol == 0 {
		n.tol = 1
	}
	if n.vscale == 0 {
		n.vscale = 1e-3
	}
	if n.pscale == 0 {
		n.pscale = 1
	}
	if n.coords == 0 {
		n.coords = 80
	}
	if t.big {
		n.coords = 20
		n.tol *= 3
	}
	key := "net:" + spec.name
	var again []mat.Tensor
	if len(prelude) > 0 && !n.noRepeat {
		if again = prelude[0](t, spec, dt, n); t.Failed() {
			return
		}
	}
	// now and then inputs or parameters are zero throughout (padding, dead units,
	// raw initial parameters)
	zeroP, zeroX := 0.0, 0.0
	if zeroable[spec.name] && !t.kinky && len(prelude) == 0 && t.R.P(0.08) {
		zeroP, zeroX = pickF(t, 0, 0, 0.3, 1), pickF(t, 0.3, 1, 0)
		t.Event("zero_operands", 1)
	}
	p0 := make([]*M, len(n.params))
	pgrad := make([]bool, len(n.params))
	all := t.R.P(0.5)
	for i, p := range n.params {
		v := p.Value().(mat.Matrix)
		m := newM(v.Shape()[0], v.Shape()[1])
		if n.keepParams {
			m = toM(v)
		} else {
			shrink := 1.0 // keeps the sums over many elements of the order of one
			if t.big && m.c > 8 {
				shrink = math.Min(1, 3/math.Sqrt(float64(m.c)))
			}
			for j := range m.v {
				m.v[j] = dt.quant(t.R.Uni(-n.pscale, n.pscale) * shrink)
			}
			if t.R.P(zeroP) {
				m = newM(m.r, m.c)
			}
			if len(prelude) > 0 {
				changeParam(t, dt, p, m)
			} else {
				setParam(p, m, dt)
			}
		}
		p0[i] = m
		if n.frozen[i] {
			t.Check(!p.RequiresGrad(), key+":frozen", "parameter %d of %s requires gradients", i, n.desc)
			continue
		}
		if len(prelude) == 0 {
			t.Check(p.RequiresGrad(), key+":params-require-grad", "a fresh parameter (%d) of %s requires no gradients", i, n.desc)
		}
		pgrad[i] = all || t.R.P(0.7)
		p.SetRequiresGrad(pgrad[i])
	}
	leaves := make([]*leaf, len(n.xs))
	ts := make([]mat.Tensor, len(n.xs))
	for i, x := range n.xs {
		n.xs[i] = dt.quantM(x)
		if t.R.P(zeroX) {
			n.xs[i] = newM(x.r, x.c)
		}
		leaves[i] = &leaf{v: n.xs[i], grad: !n.noGrad[i] && (all || t.R.P(0.7))}
		if again != nil && again[i] != nil {
			leaves[i].t = again[i].(mat.Matrix)
			copyInto(again[i], n.xs[i])
			leaves[i].t.SetRequiresGrad(leaves[i].grad)
		} else {
			leaves[i].t = dt.mk(n.xs[i], leaves[i].grad)
		}
		ts[i] = leaves[i].t
	}
	// now and then the same tensor is more than one of the inputs
	alias := map[int]int{}
	if again == nil && len(n.xs) > 1 && t.R.P(0.1) {
		for k := t.R.Range(1, max(1, len(n.xs)/3)); k > 0; k-- {
			j := t.R.Range(1, len(n.xs)-1)
			i := t.R.Intn(j)
			if t.R.Bool() {
				i = j - 1
			}
			if a, ok := alias[i]; ok {
				i = a
			}
			if _, ok := alias[j]; ok || aliased(alias, j) || !n.xs[i].same(n.xs[j]) || n.noGrad[i] != n.noGrad[j] {
				continue
			}
			old := n.xs[j]
			if n.xs[j] = n.xs[i]; n.valid != nil && !n.valid(n.xs) {
				n.xs[j] = old
				continue
			}
			alias[j] = i
			leaves[j], ts[j] = leaves[i], ts[i]
			t.Event("inputs_repeated", 1)
		}
	}
	t.Sample("%s %s %s inputs %s", spec.name, dt, n.desc, shapeOf(n.xs))
	want := n.ref(p0, n.xs, p0, n.xs)
	ys := n.fwd(ts...)
	if !t.Check(len(ys) == len(want), key+":outputs", "%s: %d outputs, want %d", n.desc, len(ys), len(want)) {
		return
	}
	vtol := 1e-9 * n.tol
	if dt == f32 {
		vtol = 1e-4 * n.tol
	}
	for i, x := range ts {
		if !t.Check(x == mat.Tensor(leaves[i].t), key+":inputs", "%s %s: input %d of the caller's list was replaced", dt, n.desc, i) {
			return
		}
	}
	for i, y := range ys {
		if y == nil {
			t.Fail(key+":nil", "%s: output %d is nil", n.desc, i)
			return
		}
		v := y.Value()
		if dtypeOf(v) != dt {
			t.Fail(key+":dtype", "%s: output %d has type %s, want %s", n.desc, i, dtypeOf(v), dt)
			return
		}
		if d := diffM(toM(v), want[i], vtol, n.vscale); !t.Check(d == "", key+":value", "%s %s: output %d: %s\nparams %v\ninputs %v", dt, n.desc, i, d, p0, n.xs) {
			return
		}
	}
	if !n.noRepeat {
		for i, y := range n.fwd(ts...) {
			if d := diffM(toM(y.Value()), want[i], vtol, n.vscale); !t.Check(d == "", key+":repeat", "%s %s: output %d of a second call: %s", dt, n.desc, i, d) {
				return
			}
		}
	}
	t.Seen(spec.name, string(dt), n.desc, shapeOf(n.xs), fmt.Sprint(pgrad))
	t.Event("values", len(ys))
	ys = append([]mat.Tensor(nil), ys...)
	decoys(ts)
	if n.skipGrad {
		return
	}
	// gradients; some may be there already
	pre := map[[2]int]*M{}
	if t.R.P(0.2) {
		put := func(who, i int, x mat.Tensor) {
			if isNilT(x.Grad()) && t.R.P(0.6) {
				sh := x.Shape()
				m := dt.quantM(t.randM(sh[0], sh[1], -1, 1))
				pre[[2]int{who, i}] = m
				x.AccGrad(dt.mk(m, false))
				t.Event("gradients_present_before", 1)
			}
		}
		for i, p := range n.params {
			if pgrad[i] && !n.skipPre {
				put(0, i, p)
			}
		}
		for i, l := range leaves {
			if _, ok := alias[i]; l.grad && !ok {
				put(1, i, l.t)
			}
		}
	}
	gys := make([]*M, len(ys))
	var roots []mat.Tensor
	rooted := map[mat.Tensor]bool{}
	for i, y := range ys {
		gys[i] = dt.quantM(t.randM(want[i].r, want[i].c, -1, 1))
		if !y.RequiresGrad() || rooted[y] {
			gys[i] = newM(want[i].r, want[i].c)
			continue
		}
		if len(ys) > 1 && t.R.P(0.15) {
			gys[i] = newM(want[i].r, want[i].c)
			if !isOperator(y) {
				continue
			}
		}
		rooted[y] = true
		y.AccGrad(dt.mk(gys[i], false))
		if isOperator(y) {
			roots = append(roots, y)
		}
	}
	if err := ag.Backward(roots...); err != nil {
		t.Fail(key+":backward", "%s: Backward: %v", n.desc, err)
		return
	}
	t.Event("backward", 1)
	// the reference gradient, over the concatenation of parameters and inputs
	type slot struct{ who, i, j int }
	var slots []slot
	for i, p := range p0 {
		for j := range p.v {
			slots = append(slots, slot{0, i, j})
		}
	}
	for i, x := range n.xs {
		if _, ok := alias[i]; ok {
			continue
		}
		for j := range x.v {
			slots = append(slots, slot{1, i, j})
		}
	}
	pick := map[int]bool{}
	if len(slots) <= n.coords {
		for i := range slots {
			pick[i] = true
		}
	} else {
		if t.big { // the last elements of some operands, and elements next to multiples of 8
			for k := 0; k < 5; k++ {
				i := t.R.Intn(len(slots))
				for i+1 < len(slots) && slots[i+1].j > 0 && (k < 3 || slots[i].j%8 != 7) {
					i++
				}
				pick[i] = true
			}
		}
		for len(pick) < n.coords {
			pick[t.R.Intn(len(slots))] = true
		}
	}
	var idx []int
	for i := range slots {
		if pick[i] {
			idx = append(idx, i)
		}
	}
	p, x := cloneAll(p0), cloneAll(n.xs)
	for j, i := range alias {
		x[j] = x[i]
	}
	at := func(s slot) *float64 {
		if s.who == 0 {
			return &p[s.i].v[s.j]
		}
		return &x[s.i].v[s.j]
	}
	x0 := newM(len(idx), 1)
	for k, i := range idx {
		x0.v[k] = *at(slots[i])
	}
	var gy []float64
	for _, g := range gys {
		gy = append(gy, g.v...)
	}
	fd := gradFD(func(m *M) []float64 {
		for k, i := range idx {
			*at(slots[i]) = m.v[k]
		}
		var out []float64
		for _, o := range n.ref(p, x, p0, n.xs) {
			out = append(out, o.v...)
		}
		return out
	}, x0, gy)
	for i := range p0 {
		copy(p[i].v, p0[i].v)
	}
	// compare
	scale := 1.0
	for _, v := range fd.v {
		if !math.IsNaN(v) {
			scale = math.Max(scale, math.Abs(v))
		}
	}
	group := map[[2]int]float64{} // the largest derivative by each parameter and input
	for k, i := range idx {
		if v := math.Abs(fd.v[k]); !math.IsNaN(v) {
			id := [2]int{slots[i].who, slots[i].i}
			group[id] = math.Max(group[id], v)
		}
	}
	tolAt := func(s slot) float64 {
		if dt == f32 {
			return gradTol(dt) * n.tol * scale
		}
		return n.tol * (gradTol(dt)*group[[2]int{s.who, s.i}] + 1e-7*scale)
	}
	got := func(s slot) (float64, bool) {
		var g mat.Tensor
		if s.who == 0 {
			g = n.params[s.i].Grad()
		} else {
			g = leaves[s.i].t.Grad()
		}
		if isNilT(g) {
			return 0, false
		}
		d := g.Data().F64()
		if s.j >= len(d) {
			return math.NaN(), true
		}
		if m := pre[[2]int{s.who, s.i}]; m != nil {
			return d[s.j] - m.v[s.j], true
		}
		return d[s.j], true
	}
	name := func(s slot) string {
		if s.who == 0 {
			return fmt.Sprintf("parameter %d", s.i)
		}
		return fmt.Sprintf("input %d", s.i)
	}
	checked := 0
	for k, i := range idx {
		s := slots[i]
		req := s.who == 0 && pgrad[s.i] || s.who == 1 && leaves[s.i].grad
		g, has := got(s)
		if !req {
			t.Check(!has, key+":unwanted-grad", "%s: %s requires no gradients but has one", n.desc, name(s))
			continue
		}
		w := fd.v[k]
		if math.IsNaN(w) {
			t.Check(!math.IsNaN(g) && !math.IsInf(g, 0), key+":grad", "%s: gradient of %s is %v", n.desc, name(s), g)
			continue
		}
		checked++
		if !t.Check(math.Abs(g-w) <= tolAt(s), key+":grad", "%s %s: gradient of %s element %d = %.10g, want %.10g (present: %v)\nparams %v\ninputs %v\noutput gradients %v", dt, n.desc, name(s), s.j, g, w, has, p0, n.xs, gys) {
			return
		}
	}
	t.Event("gradients", checked)
	// shapes of gradients; values unchanged
	for i, pp := range n.params {
		if g := pp.Grad(); !isNilT(g) {
			t.Check(fmt.Sprint(g.Shape()) == fmt.Sprint(pp.Value().Shape()), key+":grad-shape", "%s: gradient of parameter %d has shape %v", n.desc, i, g.Shape())
		}
		if !t.Check(sameM(toM(pp.Value()), p0[i]), key+":param-changed", "%s: parameter %d changed during the forward or backward pass", n.desc, i) {
			return
		}
	}
	for i, l := range leaves {
		if g := l.t.Grad(); !isNilT(g) {
			t.Check(fmt.Sprint(g.Shape()) == fmt.Sprint(l.t.Shape()), key+":grad-shape", "%s: gradient of input %d has shape %v", n.desc, i, g.Shape())
		}
		if !t.Check(sameM(toM(l.t), n.xs[i]), key+":input-changed", "%s: input %d changed during the forward or backward pass", n.desc, i) {
			return
		}
	}
}

// aliased tells whether j stands for another input.
func aliased(alias map[int]int, j int) bool {
	for _, i := range alias {
		if i == j {
			return true
		}
	}
	return false
}

func isOperator(t mat.Tensor) bool {
	_, ok := t.(*ag.Operator)
	return ok
}

func cloneAll(xs []*M) []*M {
	o := make([]*M, len(xs))
	for i, x := range xs {
		o[i] = x.clone()
	}
	return o
}

// netPhase runs the specs under both float types.
func netPhase(name string, quick, thorough int, specs ...netSpec) Phase {
	return Phase{Name: name, Shards: 8, Run: func(c *C) {
		for _, spec := range specs {
			for _, dt := range []dtype{f64, f32} {
				for i := 0; i < c.N(4*quick, 4*thorough); i++ {
					c.Case(fmt.Sprintf("%s/%s/%d", spec.name, dt, i), func(t *T) { netCase(t, spec, dt) })
				}
			}
		}
	}, MinEvents: map[string]int64{"values": 10, "gradients": 10}}
}

// bigPhase runs the specs with large sizes; gradients are compared at some coordinates.
func bigPhase(quick, thorough int, specs ...netSpec) Phase {
	return Phase{Name: "large", Shards: 8, Run: func(c *C) {
		for _, spec := range specs {
			for _, dt := range []dtype{f64, f32} {
				for i := 0; i < c.N(quick, thorough); i++ {
					c.Case(fmt.Sprintf("%s/%s/%d", spec.name, dt, i), func(t *T) {
						t.big = true
						t.far = t.R.P(0.25)
						netCase(t, spec, dt)
					})
				}
			}
		}
	}, MinEvents: map[string]int64{"values": 10, "gradients": 10}}
}

// ------------------------------------------------------ reference building blocks

func addM(a, b *M) *M {
	if a == nil {
		return b
	}
	return zip(a, b, func(x, y float64) float64 { return x + y })
}
func subM(a, b *M) *M  { return zip(a, b, func(x, y float64) float64 { return x - y }) }
func prodM(a, b *M) *M { return zip(a, b, func(x, y float64) float64 { return x * y }) }
func (m *M) scale(k float64) *M {
	return m.mapf(func(x float64) float64 { return k * x })
}
func affine(b, w, x *M) *M { return addM(mul(w, x), b) }
func sigM(m *M) *M         { return m.mapf(sigmoid) }
func tanhM(m *M) *M        { return m.mapf(math.Tanh) }
func (m *M) mean() float64 { return m.sum() / float64(len(m.v)) }
func (m *M) sumsq() float64 {
	s := 0.0
	for _, x := range m.v {
		s += x * x
	}
	return s
}
func mapMs(xs []*M, f func(x *M) *M) []*M {
	o := make([]*M, len(xs))
	for i, x := range xs {
		o[i] = f(x)
	}
	return o
}

// seq makes a random sequence of column vectors.
func (t *T) seq(n, size int) []*M {
	xs := make([]*M, n)
	for i := range xs {
		xs[i] = t.randM(size, 1, -2, 2)
	}
	return xs
}

func (t *T) dim() int { return t.up(t.R.Pick(1, 2, 3, 4, 5), 70) }

// up replaces a size by a larger one, at most hi, in cases of large sizes.
func (t *T) up(v, hi int) int {
	if !t.big || t.far || t.R.P(0.3) {
		return v
	}
	for i := 0; i < 100; i++ {
		if n := t.R.Pick(9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 47, 48, 63, 64, 65, 96, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1024, 1025); n <= hi {
			return n
		}
	}
	return hi
}

// long is like up for the length of a sequence; in some of the cases only the
// sequences are large, and much longer.
func (t *T) long(v, hi int, most ...int) int {
	if !t.far {
		return t.up(v, hi)
	}
	n := t.R.Pick(65, 66, 90, 100, 128, 129, 150, 200, 255, 256, 257, 300)
	for _, k := range most {
		n = min(n, k)
	}
	return n
}

// actNames lists the activations with their names and number of parameters.
var actNames = map[activation.Activation]struct {
	name string
	n    int
}{
	activation.Identity: {"Identity", 0}, activation.Tan: {"Tan", 0}, activation.Tanh: {"Tanh", 0}, activation.Sigmoid: {"Sigmoid", 0},
	activation.HardSigmoid: {"HardSigmoid", 0}, activation.HardTanh: {"HardTanh", 0}, activation.Softsign: {"Softsign", 0},
	activation.ReLU: {"ReLU", 0}, activation.CELU: {"CELU", 1}, activation.GELU: {"GELU", 0}, activation.ELU: {"ELU", 1},
	activation.PositiveELU: {"PositiveELU", 0}, activation.SwishB: {"SwishB", 1}, activation.Swish: {"Swish", 0}, activation.SiLU: {"SiLU", 0},
	activation.Mish: {"Mish", 0}, activation.LeakyReLU: {"LeakyReLU", 1}, activation.SELU: {"SELU", 2}, activation.SoftPlus: {"SoftPlus", 2},
	activation.SoftShrink: {"SoftShrink", 1}, activation.Threshold: {"Threshold", 2}, activation.Softmax: {"Softmax", 0},
	activation.LogSoftmax: {"LogSoftmax", 0}, activation.SparseMax: {"SparseMax", 0},
}

// actRef is the definition of each activation.
func actRef(name string, x *M, h ...float64) *M {
	el := func(f func(x float64) float64) *M { return x.mapf(f) }
	switch name {
	case "Identity":
		return x.clone()
	case "Tan":
		return el(math.Tan)
	case "Tanh":
		return el(math.Tanh)
	case "Sigmoid":
		return el(sigmoid)
	case "HardSigmoid":
		return el(func(x float64) float64 { return math.Min(1, math.Max(0, 0.2*x+0.5)) })
	case "HardTanh":
		return el(func(x float64) float64 { return math.Min(1, math.Max(-1, x)) })
	case "Softsign":
		return el(func(x float64) float64 { return x / (1 + math.Abs(x)) })
	case "ReLU":
		return el(func(x float64) float64 { return math.Max(0, x) })
	case "CELU":
		return el(func(x float64) float64 {
			if x > 0 {
				return x
			}
			return h[0] * math.Expm1(x/h[0])
		})
	case "GELU":
		return el(geluRef)
	case "ELU":
		return el(func(x float64) float64 { return eluRef(x, h[0]) })
	case "PositiveELU":
		return el(func(x float64) float64 { return eluRef(x, 1) + 1 })
	case "SwishB":
		return el(func(x float64) float64 { return x * sigmoid(h[0]*x) })
	case "Swish", "SiLU":
		return el(func(x float64) float64 { return x * sigmoid(x) })
	case "Mish":
		return el(mishRef)
	case "LeakyReLU":
		return el(func(x float64) float64 {
			if x > 0 {
				return x
			}
			return h[0] * x
		})
	case "SELU":
		return el(func(x float64) float64 { return h[1] * eluRef(x, h[0]) })
	case "SoftPlus":
		return el(func(x float64) float64 {
			if x > h[1] {
				return x
			}
			return softplus1(h[0]*x) / h[0]
		})
	case "SoftShrink":
		return el(func(x float64) float64 {
			switch {
			case x > h[0]:
				return x - h[0]
			case x < -h[0]:
				return x + h[0]
			}
			return 0
		})
	case "Threshold":
		return el(func(x float64) float64 {
			if x > h[0] {
				return x
			}
			return h[1]
		})
	case "Softmax":
		return mOf(x.r, x.c, softmaxRef(x.v)...)
	case "LogSoftmax":
		l := lseRef(x.v)
		return el(func(x float64) float64 { return x - l })
	case "SparseMax":
		return mOf(x.r, x.c, sparsemaxRef(x.v)...)
	}
	panic("actRef " + name)
}

// plainActs are the activations without parameters that are used inside layers.
var plainActs = []activation.Activation{activation.Identity, activation.Tanh, activation.Sigmoid, activation.ReLU, activation.GELU, activation.Softsign, activation.Swish, activation.Mish, activation.Softmax, activation.HardTanh}

func (t *T) act() (activation.Activation, string) {
	a := plainActs[t.R.Intn(len(plainActs))]
	if !smoothActs[actNames[a].name] {
		t.kinky = true
	}
	return a, actNames[a].name
}

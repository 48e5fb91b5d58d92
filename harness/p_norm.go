package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
)

// moments returns mean and standard deviation of the elements.
func moments(x *M) (mu, sd float64) {
	mu = x.mean()
	s := 0.0
	for _, v := range x.v {
		s += (v - mu) * (v - mu)
	}
	return mu, math.Sqrt(s / float64(x.size()))
}

// spread makes vectors whose elements are not all close to one another.
func (t *T) spread(n, size int) []*M {
	xs := make([]*M, n)
	for i := range xs {
		for {
			xs[i] = t.randM(size, 1, -2, 2)
			if _, sd := moments(xs[i]); sd > 0.2 || size == 1 {
				break
			}
		}
		if t.R.P(0.3) {
			off := t.R.Uni(-5, 5)
			xs[i] = xs[i].mapf(func(v float64) float64 { return v + off })
		}
	}
	return xs
}

func lenOf(t *T) int { return t.long(t.R.Pick(1, 1, 2, 3, 6), 40) }

var normSpecs = []netSpec{
	{"layernorm", func(t *T, dt dtype) *netInst {
		size := t.up(t.R.Range(2, 9), 513)
		eps := dt.quant([]float64{1e-12, 1e-5, 1e-2}[t.R.Intn(3)])
		var m *layernorm.Model
		if dt == f32 {
			m = layernorm.New[float32](size, eps)
		} else {
			m = layernorm.New[float64](size, eps)
		}
		k := t.long(t.R.Pick(0, 1, 2, 5), 40)
		n := &netInst{model: m, xs: t.spread(k, size), desc: fmt.Sprintf("layernorm(%d,%g)", size, eps), fwd: m.Forward, tol: 20}
		n.add(m.W, m.B)
		n.ref = func(p, xs, _, _ []*M) []*M {
			return mapMs(xs, func(x *M) *M { return layerNormRef(x, p[0], p[1], eps) })
		}
		return n
	}},
	{"layernormsimple", func(t *T, dt dtype) *netInst {
		size := t.up(t.R.Range(2, 9), 513)
		m := layernormsimple.New()
		n := &netInst{model: m, xs: t.spread(lenOf(t), size), desc: "layernormsimple", fwd: m.Forward, tol: 20}
		n.ref = func(p, xs, _, _ []*M) []*M {
			return mapMs(xs, func(x *M) *M {
				mu, sd := moments(x)
				return x.mapf(func(v float64) float64 { return (v - mu) / (sd + 1e-10) })
			})
		}
		return n
	}},
	{"rmsnorm", func(t *T, dt dtype) *netInst {
		size := t.up(t.R.Range(1, 9), 513)
		var m *rmsnorm.Model
		if dt == f32 {
			m = rmsnorm.New[float32](size)
		} else {
			m = rmsnorm.New[float64](size)
		}
		n := &netInst{model: m, xs: t.spread(lenOf(t), size), desc: fmt.Sprintf("rmsnorm(%d)", size), fwd: m.Forward, tol: 20}
		n.add(m.W, m.B)
		n.ref = func(p, xs, _, _ []*M) []*M {
			return mapMs(xs, func(x *M) *M {
				rms := math.Sqrt(x.sumsq() / float64(x.size()))
				return addM(prodM(x.scale(1/(rms+1e-10)), p[0]), p[1])
			})
		}
		return n
	}},
	{"scalenorm", func(t *T, dt dtype) *netInst {
		size := t.up(t.R.Range(1, 9), 513)
		var m *scalenorm.Model
		if dt == f32 {
			m = scalenorm.New[float32](size)
		} else {
			m = scalenorm.New[float64](size)
		}
		n := &netInst{model: m, xs: t.spread(lenOf(t), size), desc: fmt.Sprintf("scalenorm(%d)", size), fwd: m.Forward, tol: 20}
		n.add(m.Gain)
		n.ref = func(p, xs, _, _ []*M) []*M {
			return mapMs(xs, func(x *M) *M { return prodM(x.scale(1/(math.Sqrt(x.sumsq())+1e-10)), p[0]) })
		}
		return n
	}},
	{"fixnorm", func(t *T, dt dtype) *netInst {
		size := t.up(t.R.Range(1, 9), 513)
		m := fixnorm.New()
		n := &netInst{model: m, xs: t.spread(t.long(t.R.Pick(0, 1, 2, 5), 40), size), desc: "fixnorm", fwd: m.Forward, tol: 20}
		n.ref = func(p, xs, _, _ []*M) []*M {
			return mapMs(xs, func(x *M) *M { return x.scale(1 / (math.Sqrt(x.sumsq()) + 1e-10)) })
		}
		return n
	}},
	{"adanorm", func(t *T, dt dtype) *netInst {
		size := t.up(t.R.Range(2, 9), 513)
		sc := dt.quant(t.R.Uni(0.2, 2))
		var m *adanorm.Model
		if dt == f32 {
			m = adanorm.New[float32](sc)
		} else {
			m = adanorm.New[float64](sc)
		}
		n := &netInst{model: m, xs: t.spread(t.long(t.R.Pick(0, 1, 2, 5), 40), size), desc: fmt.Sprintf("adanorm(%g)", sc), fwd: m.Forward, tol: 20}
		norm := func(x *M) *M {
			mu, sd := moments(x)
			return x.mapf(func(v float64) float64 { return (v - mu) / (sd + 1e-10) })
		}
		n.ref = func(p, xs, _, x0 []*M) []*M {
			out := make([]*M, len(xs))
			for i := range xs {
				// the adaptive factor is treated as a constant
				f := norm(x0[i]).mapf(func(y float64) float64 { return sc * (1 - 0.1*y) })
				out[i] = prodM(norm(xs[i]), f)
			}
			return out
		}
		return n
	}},
	{"batchnorm-inference", func(t *T, dt dtype) *netInst {
		m, size, _ := newBatchNorm(t, dt)
		mean, sd := dt.quantM(t.randM(size, 1, -1, 1)), dt.quantM(t.randM(size, 1, 0.2, 2))
		copyInto(m.Mean.Value(), mean)
		copyInto(m.StdDev.Value(), sd)
		n := &netInst{model: m, xs: t.seq(t.long(t.R.Pick(0, 1, 2, 5), 40), size), desc: fmt.Sprintf("batchnorm(%d)", size), fwd: m.Forward, tol: 5}
		n.add(m.W, m.B)
		n.ref = func(p, xs, _, _ []*M) []*M {
			return mapMs(xs, func(x *M) *M {
				return addM(prodM(subM(x, mean), zip(p[0], sd, func(w, s float64) float64 { return w / (s + 1e-5) })), p[1])
			})
		}
		return n
	}},
	{"batchnorm-training", func(t *T, dt dtype) *netInst {
		m, size, _ := newBatchNorm(t, dt)
		k := t.long(t.R.Range(2, 6), 65)
		if size > 9 {
			k += 8 // so that no element happens to be nearly constant
		}
		var xs []*M
		for {
			xs = t.seq(k, size)
			if spread(xs) {
				break
			}
		}
		n := &netInst{model: m, xs: xs, desc: fmt.Sprintf("batchnorm(%d) over %d", size, k), fwd: m.ForwardT, tol: 20, noRepeat: true, valid: spread}
		n.add(m.W, m.B)
		n.ref = func(p, xs, _, _ []*M) []*M {
			mean, sd := batchStats(xs)
			return mapMs(xs, func(x *M) *M {
				return addM(prodM(subM(x, mean), zip(p[0], sd, func(w, s float64) float64 { return w / (s + 1e-5) })), p[1])
			})
		}
		return n
	}},
}

// spread tells whether no element is nearly constant over the batch.
func spread(xs []*M) bool {
	_, sd := batchStats(xs)
	return minOf(sd.v) > 0.2
}

func batchStats(xs []*M) (mean, sd *M) {
	n := float64(len(xs)) + 1e-5
	for _, x := range xs {
		mean = addM(mean, x)
	}
	mean = mean.scale(1 / n)
	for _, x := range xs {
		sd = addM(sd, subM(x, mean).mapf(func(v float64) float64 { return v * v }))
	}
	return mean, sd.scale(1 / n).mapf(math.Sqrt)
}

func newBatchNorm(t *T, dt dtype) (m *batchnorm.Model, size int, momentum float64) {
	size = t.up(t.R.Range(1, 6), 200)
	momentum = 0.9
	if t.R.Bool() {
		if dt == f32 {
			return batchnorm.New[float32](size), size, momentum
		}
		return batchnorm.New[float64](size), size, momentum
	}
	momentum = dt.quant(t.R.Uni(0, 1))
	if dt == f32 {
		return batchnorm.NewWithMomentum[float32](size, float32(momentum)), size, momentum
	}
	return batchnorm.NewWithMomentum[float64](size, momentum), size, momentum
}

// copyInto overwrites the data of a tensor.
func copyInto(dst mat.Tensor, m *M) {
	if dtypeOf(dst) == f32 {
		x := make([]float32, len(m.v))
		for i, v := range m.v {
			x[i] = float32(v)
		}
		mat.SetData[float32](dst.(mat.Matrix), x)
		return
	}
	mat.SetData[float64](dst.(mat.Matrix), append([]float64(nil), m.v...))
}

// batchHistory follows the running statistics of batch normalisation over a
// history of training and inference calls.
func batchHistory(t *T, dt dtype) {
	m, size, momentum := newBatchNorm(t, dt)
	mean, sd := newM(size, 1), newM(size, 1)
	w, b := dt.quantM(t.randM(size, 1, -1, 1)), dt.quantM(t.randM(size, 1, -1, 1))
	setParam(m.W, w, dt)
	setParam(m.B, b, dt)
	tol := 1e-9
	if dt == f32 {
		tol = 1e-4
	}
	steps := ""
	for s := 0; s < t.R.Range(2, 10); s++ {
		xs := t.seq(t.R.Range(1, 6), size)
		for i := range xs {
			xs[i] = dt.quantM(xs[i])
		}
		ts := make([]mat.Tensor, len(xs))
		for i := range xs {
			ts[i] = dt.mk(xs[i], t.R.Bool())
		}
		um, us := mean, sd
		if t.R.P(0.6) {
			steps += "t"
			um, us = batchStats(xs)
			m.ForwardT(ts...)
			mean = addM(mean.scale(momentum), um.scale(1-momentum))
			sd = addM(sd.scale(momentum), us.scale(1-momentum))
			t.Event("training calls", 1)
		} else {
			steps += "i"
			ys := m.Forward(ts...)
			for i, y := range ys {
				want := newM(size, 1)
				scale := 1.0
				for j := range want.v {
					k := w.v[j] / (us.v[j] + 1e-5)
					want.v[j] = (xs[i].v[j]-um.v[j])*k + b.v[j]
					scale = math.Max(scale, math.Abs(k))
				}
				if d := diffM(toM(y.Value()), want, tol*10*scale, 1); !t.Check(d == "", "batchnorm:history", "after %s: inference output %d: %s", steps, i, d) {
					return
				}
			}
			t.Event("inference calls", 1)
		}
		if d := diffM(toM(m.Mean.Value()), mean, tol, 1); !t.Check(d == "", "batchnorm:running-mean", "after %s: running mean: %s", steps, d) {
			return
		}
		if d := diffM(toM(m.StdDev.Value()), sd, tol, 1); !t.Check(d == "", "batchnorm:running-std", "after %s: running deviation: %s", steps, d) {
			return
		}
	}
	t.Seen(string(dt), steps, size)
	t.Sample("batchnorm %s size %d momentum %g history %s", dt, size, momentum, steps)
}

// normHostile: normalised outputs stay bounded and finite for constant, zero,
// tiny and large inputs where the definition is.
func normHostile(t *T, dt dtype) {
	size := t.up(t.R.Range(1, 9), 513)
	kind := t.R.Intn(5)
	mk := func() *M {
		switch kind {
		case 0:
			return newM(size, 1)
		case 1:
			v := t.R.Uni(-3, 3)
			return newM(size, 1).mapf(func(float64) float64 { return v })
		case 2:
			return t.randM(size, 1, -1e-6, 1e-6)
		case 3:
			return t.randM(size, 1, -1e6, 1e6)
		}
		m := t.randM(size, 1, -1, 1)
		m.v[t.R.Intn(size)] = 1e5
		return m
	}
	x := dt.quantM(mk())
	one := newM(size, 1).mapf(func(float64) float64 { return 1 })
	var ln *layernorm.Model
	var rn *rmsnorm.Model
	var sn *scalenorm.Model
	if dt == f32 {
		ln, rn, sn = layernorm.New[float32](size, 1e-5), rmsnorm.New[float32](size), scalenorm.New[float32](size)
	} else {
		ln, rn, sn = layernorm.New[float64](size, 1e-5), rmsnorm.New[float64](size), scalenorm.New[float64](size)
	}
	setParam(ln.W, one, dt)
	setParam(rn.W, one, dt)
	setParam(sn.Gain, one, dt)
	bound := math.Sqrt(float64(size)) * 1.01
	check := func(name string, f func(xs ...mat.Tensor) []mat.Tensor, lim float64) {
		y := toM(f(dt.mk(x, false))[0].Value())
		for i, v := range y.v {
			if !t.Check(!math.IsNaN(v) && math.Abs(v) <= lim, "hostile:"+name, "%s %s of %v: element %d is %v, beyond %v", dt, name, x, i, v, lim) {
				return
			}
		}
		t.Event("hostile", 1)
	}
	check("layernorm", ln.Forward, bound)
	check("layernormsimple", layernormsimple.New().Forward, bound)
	check("rmsnorm", rn.Forward, bound)
	check("scalenorm", sn.Forward, 1.01)
	check("fixnorm", fixnorm.New().Forward, 1.01)
	t.Seen("hostile", string(dt), kind, size)

	// gradients: finite, and at the zero vector those of x/(‖x‖+ε) and the like
	eps := 1e-10
	gy := dt.quantM(t.randM(size, 1, -1, 1))
	mean := 0.0
	for _, v := range gy.v {
		mean += v
	}
	mean /= float64(size)
	plain := gy.mapf(func(v float64) float64 { return v / eps })
	centred := gy.mapf(func(v float64) float64 { return (v - mean) / eps })
	grads := func(name string, f func(xs ...mat.Tensor) []mat.Tensor, atZero *M) {
		in := dt.mk(x, true)
		y := f(in)[0]
		y.AccGrad(dt.mk(gy, false))
		if err := ag.Backward(y); !t.Check(err == nil, "hostile:"+name+":backward", "%v", err) {
			return
		}
		g := gradOf(in)
		if !t.Check(g != nil && len(g.v) == size, "hostile:"+name+":no-gradient", "%s %s of %v: no gradient", dt, name, x) {
			return
		}
		for i, v := range g.v {
			if !t.Check(!math.IsNaN(v) && !math.IsInf(v, 0), "hostile:"+name+":gradient", "%s %s of %v, output gradient %v: gradient of element %d is %v", dt, name, x, gy, i, v) {
				return
			}
		}
		if kind == 0 && atZero != nil {
			tol := 1e-9
			if dt == f32 {
				tol = 2e-5
			}
			d := diffM(g, atZero, tol, 1/eps)
			t.Check(d == "", "hostile:"+name+":gradient-at-zero", "%s %s at the zero vector, output gradient %v: %s", dt, name, gy, d)
		}
		t.Event("hostile_gradient", 1)
	}
	grads("layernorm", ln.Forward, gy.mapf(func(v float64) float64 { return (v - mean) / math.Sqrt(1e-5) }))
	grads("layernormsimple", layernormsimple.New().Forward, centred)
	grads("rmsnorm", rn.Forward, plain)
	grads("scalenorm", sn.Forward, plain)
	grads("fixnorm", fixnorm.New().Forward, plain)
	// the adaptive factor C(1-ky) is C where y = 0
	if dt == f32 {
		grads("adanorm", adanorm.New[float32](1).Forward, centred)
	} else {
		grads("adanorm", adanorm.New[float64](1).Forward, centred)
	}
}

// batchDead: batch normalisation while training on a batch in which some
// dimensions are zero throughout (the outputs of dead units).
func batchDead(t *T, dt dtype) {
	size, n := t.R.Range(1, 6), t.R.Range(1, 6)
	const eps = 1e-5
	dead := make([]bool, size)
	for i := range dead {
		dead[i] = t.R.Bool()
	}
	dead[t.R.Intn(size)] = true
	var m *batchnorm.Model
	if dt == f32 {
		m = batchnorm.New[float32](size)
	} else {
		m = batchnorm.New[float64](size)
	}
	w, b := dt.quantM(t.randM(size, 1, -2, 2)), dt.quantM(t.randM(size, 1, -2, 2))
	setParam(m.W, w, dt)
	setParam(m.B, b, dt)
	xs := make([]mat.Tensor, n)
	gys := make([]*M, n)
	for i := range xs {
		x := t.randM(size, 1, -3, 3)
		for j := range dead {
			if dead[j] {
				x.v[j] = 0
			}
		}
		xs[i] = dt.mk(dt.quantM(x), true)
		gys[i] = dt.quantM(t.randM(size, 1, -1, 1))
	}
	ys := m.ForwardT(xs...)
	for i, y := range ys {
		y.AccGrad(dt.mk(gys[i], false))
	}
	if err := ag.Backward(ys...); !t.Check(err == nil, "dead:backward", "%v", err) {
		return
	}
	tol := 1e-9
	if dt == f32 {
		tol = 2e-5
	}
	for j := range dead {
		sum := 0.0
		for i := range gys {
			sum += gys[i].v[j]
		}
		for i := range xs {
			g := gradOf(xs[i]).v[j]
			if dead[j] {
				want := w.v[j] / eps * (gys[i].v[j] - sum/(float64(n)+eps))
				if !t.Check(math.Abs(g-want) <= tol/eps*10, "dead:gradient", "%s batch of %d, dimension %d zero throughout: gradient %v, want %v (weight %v, output gradients %v)", dt, n, j, g, want, w.v[j], gys) {
					return
				}
			} else if !t.Check(!math.IsNaN(g) && !math.IsInf(g, 0), "dead:gradient-finite", "%s batch of %d, dimension %d (others are zero throughout: %v): gradient %v", dt, n, j, dead, g) {
				return
			}
		}
	}
	for k, p := range []*nn.Param{m.W, m.B} {
		for j, v := range gradOf(p).v {
			t.Check(!math.IsNaN(v) && !math.IsInf(v, 0), "dead:parameter-gradient", "%s batch of %d: gradient of %s[%d] is %v", dt, n, []string{"W", "B"}[k], j, v)
		}
	}
	t.Event("dead_batch", 1)
	t.Seen("dead", string(dt), n, size)
}

func init() {
	register(&Property{
		ID:    "P22",
		Boost: 15,
		Rule: "each normalisation layer equals a float64 reference of its definition (values; gradients of parameters and inputs by finite differences, with the factors documented as constant held constant); " +
			"batch normalisation: the running statistics after every call of a random train/infer history equal the exponential averages of the batch statistics, and inference uses them only; bounded outputs on degenerate inputs",
		Phases: []Phase{
			netPhase("layers", 100, 4000, normSpecs...),
			bigPhase(5, 100, normSpecs...),
			{Name: "history", Shards: 4, Run: func(c *C) {
				for _, dt := range []dtype{f32, f64} {
					for i := 0; i < c.N(150, 10000); i++ {
						c.Case(fmt.Sprintf("batchnorm/%s/%d", dt, i), func(t *T) { batchHistory(t, dt) })
					}
				}
			}, MinEvents: map[string]int64{"training calls": 50, "inference calls": 50}},
			{Name: "hostile", Shards: 2, Run: func(c *C) {
				for _, dt := range []dtype{f32, f64} {
					for i := 0; i < c.N(200, 10000); i++ {
						c.Case(fmt.Sprintf("hostile/%s/%d", dt, i), func(t *T) { normHostile(t, dt) })
						if i%2 == 0 {
							c.Case(fmt.Sprintf("dead/%s/%d", dt, i), func(t *T) { batchDead(t, dt) })
						}
					}
				}
			}, MinEvents: map[string]int64{"hostile": 100, "hostile_gradient": 100, "dead_batch": 50}},
		},
	})
}

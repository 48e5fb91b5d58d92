package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"
)

// clipCase clips the gradients of a random model and compares all of them
// before and after.
func clipCase(t *T, dt dtype, huge bool) {
	nP := t.R.Pick(0, 1, 1, 2, 3, 5, 12, 17, 40)
	if t.R.P(0.02) {
		nP = 150
	}
	var ps []*nn.Param
	var vals, grads []*M
	top := 1.0
	mags := []float64{1e-3, 0.1, 1, 1, 30, 1e4}
	if huge {
		mags = []float64{1e3, 1e8, 1e15, 1e22, 1e30, 1e37}
		if dt == f64 {
			mags = []float64{1e10, 1e60, 1e150, 1e200, 1e300}
		}
	}
	base := mags[t.R.Intn(len(mags))]
	m := &optList{Sub: map[string]*optList{}}
	for i := 0; i < nP; i++ {
		v := dt.quantM(t.randM(t.R.Pick(1, 1, 2, 3, 7, 9, 17), t.R.Pick(1, 1, 2, 5, 8, 16), -1, 1))
		p := nn.NewParam(dt.mk(v, false))
		ps, vals = append(ps, p), append(vals, v)
		if i%3 == 2 {
			m.Sub[fmt.Sprint(i)] = &optList{Ps: []*nn.Param{p}}
		} else {
			m.Ps = append(m.Ps, p)
		}
		if t.R.P(0.2) { // no gradient
			grads = append(grads, nil)
			continue
		}
		k := base
		if t.R.P(0.3) {
			k *= pickF(t, 1e-4, 0.01, 0.3)
		}
		g := t.randM(v.r, v.c, -k, k)
		if t.R.P(0.1) {
			g = newM(v.r, v.c)
		}
		for j := range g.v {
			if t.R.P(0.1) {
				g.v[j] = 0
			}
		}
		g = dt.quantM(g)
		grads = append(grads, g)
		p.AccGrad(dt.mk(g, false))
		top = math.Max(top, g.maxAbs())
	}
	listed := ps
	source := nn.Parameters(m)
	if t.R.P(0.4) {
		if nP > 1 && t.R.Bool() { // the last parameter is not to be clipped
			listed = ps[:nP-1]
		}
		source = nn.StreamParams(listed)
	}
	eps := 2.3e-16
	if dt == f32 {
		eps = 1.2e-7
	}
	key := "clip:value"
	desc := ""
	var want func(g *M) *M
	tol := 0.0
	kind := t.R.Intn(2)
	if huge {
		kind = 1
	}
	if kind == 0 {
		bound := pickF(t, 0, 1e-3, 0.5, 1, 7, 1e4) * t.R.Uni(0.5, 1.5)
		if t.R.P(0.3) {
			bound = base * t.R.Uni(0.1, 1.5)
		}
		bound = dt.quant(bound)
		desc = fmt.Sprintf("%s value %g", dt, bound)
		(&gradclipper.ValueClipper{Value: bound}).ClipGrads(source)
		want = func(g *M) *M {
			return g.mapf(func(x float64) float64 { return math.Min(bound, math.Max(-bound, x)) })
		}
	} else {
		key = "clip:norm"
		p := pickF(t, 2, 2, 2, 3, 1.5, 8, 64, 150, math.Inf(1), math.Inf(1))
		// the norm, scaled so that it does not overflow
		mx := 0.0
		for i, g := range grads {
			if g != nil && i < len(listed) {
				mx = math.Max(mx, g.maxAbs())
			}
		}
		norm := mx
		if !math.IsInf(p, 1) && mx > 0 {
			s := 0.0
			for i, g := range grads {
				if g != nil && i < len(listed) {
					for _, x := range g.v {
						s += math.Pow(math.Abs(x)/mx, p)
					}
				}
			}
			norm = mx * math.Pow(s, 1/p)
		}
		bound := pickF(t, 0, 1e-6, 0.01, 1, 5, 100)
		if bound > 0 && t.R.P(0.6) && norm > 0 {
			bound = norm * pickF(t, 0.01, 0.5, 0.9, 1.1, 2, 100)
		}
		if dt == f32 && bound > 0 && norm > 1e30*bound {
			return // the factor itself is not representable
		}
		if math.IsInf(bound, 1) || math.IsInf(norm, 1) {
			return
		}
		desc = fmt.Sprintf("%s norm type %g bound %g norm %g", dt, p, bound, norm)
		(&gradclipper.NormClipper{MaxNorm: bound, NormType: p}).ClipGradients(source)
		k := 1.0
		if norm > bound {
			k = bound / norm
		}
		// the bound has an absolute guard of 1e-7 under the norm
		want = func(g *M) *M { return g.scale(k) }
		tol = (100*eps*math.Max(1, 1/p) + 2e-7/math.Max(norm, 1e-300))
		if norm <= bound {
			tol = 0
		}
		if bound == 0 {
			t.Event("zero bounds", 1)
		}
		if norm > bound && bound > 0 && math.Abs(norm/bound-1) < 1e-3 {
			tol += 1e-3
		}
		// the new global norm, from what is there
		after := 0.0
		mx = 0
		for _, q := range listed {
			if g := gradOf(q); g != nil {
				mx = math.Max(mx, g.maxAbs())
			}
		}
		after = mx
		if !math.IsInf(p, 1) && mx > 0 {
			s := 0.0
			for _, q := range listed {
				if g := gradOf(q); g != nil {
					for _, x := range g.v {
						s += math.Pow(math.Abs(x)/mx, p)
					}
				}
			}
			after = mx * math.Pow(s, 1/p)
		}
		t.Check(after <= math.Max(bound, 0)*(1+100*eps)+1e-300 || norm <= bound, key+":bound", "%s: the norm is %g after clipping", desc, after)
		if norm > bound {
			t.Event("norms clipped", 1)
		} else {
			t.Event("norms left alone", 1)
		}
	}
	for i, p := range ps {
		if !t.Check(sameM(toM(p), vals[i]), key+":param", "%s: clipping changed the value of parameter %d", desc, i) {
			return
		}
		g := gradOf(p)
		if grads[i] == nil {
			t.Check(g == nil && !p.HasGrad(), key+":no-gradient", "%s: parameter %d, without gradient, has one after clipping", desc, i)
			continue
		}
		if !t.Check(g != nil, key+":lost", "%s: parameter %d has no gradient after clipping", desc, i) {
			return
		}
		if i >= len(listed) {
			t.Check(sameM(g, grads[i]), key+":other", "%s: clipping changed the gradient of a parameter that is not listed", desc)
			continue
		}
		w := want(grads[i])
		if tol == 0 {
			if !t.Check(sameM(g, w), key+":value", "%s: gradient %d was %v, is %v, want %v", desc, i, grads[i], g, w) {
				return
			}
			continue
		}
		for j := range w.v {
			if !t.Check(math.Abs(g.v[j]-w.v[j]) <= tol*math.Abs(w.v[j])+1e-44, key+":value", "%s: gradient %d was %v, is %v, want %v", desc, i, grads[i], g, w) {
				return
			}
		}
	}
	t.Event("clippings", 1)
	t.Event("gradients", nP)
	t.Seen(dt, desc, nP)
	t.Sample("%s over %d parameters", desc, nP)
}

// clipRefuse checks that norm types that make no sense are refused.
func clipRefuse(t *T) {
	p := nn.NewParam(f64.mkScalar(1, false))
	p.AccGrad(f64.mkScalar(5, false))
	nt := pickF(t, 0, -1, 0.5, 1, math.Inf(-1))
	e := panics(func() {
		(&gradclipper.NormClipper{MaxNorm: 1, NormType: nt}).ClipGradients(nn.StreamParams([]*nn.Param{p}))
	})
	t.Check(e != nil, "clip:norm-type", "norm type %g is accepted", nt)
	t.Check(p.Grad().(mat.Matrix).Item().F64() == 5, "clip:norm-type", "a refused clipping changed a gradient")
	t.Seen(nt)
}

func init() {
	register(&Property{
		ID:    "P16",
		Boost: 12,
		Rule: "all gradients of random models before and after clipping: by value every element equals its projection on the interval, bit for bit; by norm all gradients are scaled by the factor that brings the independently computed global norm to the bound, or left bit-identical; " +
			"absent gradients, parameters not listed and values stay untouched; magnitudes up to the limits of the float type",
		Phases: []Phase{{Name: "clip", Shards: 8, Run: func(c *C) {
			for _, dt := range []dtype{f32, f64} {
				for i := 0; i < c.N(4000, 200000); i++ {
					c.Case(fmt.Sprintf("%s/%d", dt, i), func(t *T) { clipCase(t, dt, false) })
				}
				for i := 0; i < c.N(1500, 60000); i++ {
					c.Case(fmt.Sprintf("huge/%s/%d", dt, i), func(t *T) { clipCase(t, dt, true) })
				}
			}
			for i := 0; i < 20; i++ {
				c.Case(fmt.Sprint("refuse/", i), clipRefuse)
			}
		}, MinEvents: map[string]int64{"clippings": 1000, "norms clipped": 100, "norms left alone": 100}}},
	})
}

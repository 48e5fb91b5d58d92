package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"
)

// trainCase trains a layer of the library for a few steps: batches of
// examples evaluated one by one or together, whose gradients accumulate, and
// an optimisation step over the parameters the traversal finds. After each
// step every parameter must be where the update rule takes it, given the
// gradients (of an independent reference, by finite differences) of the sum of
// the losses of the batch.
func trainCase(t *T, spec netSpec, dt dtype) {
	n := spec.gen(t, dt)
	if n == nil || n.model == nil || n.noRepeat || n.skipGrad || len(n.params) == 0 {
		return
	}
	index := map[*nn.Param]int{}
	for i, p := range n.params {
		index[p] = i
	}
	key := "training"
	tol := math.Max(1, n.tol)
	pscale := n.pscale
	if pscale == 0 {
		pscale = 1
	}
	w := make([]*M, len(n.params))
	train := make([]bool, len(n.params))
	freeze := t.R.P(0.3)
	for i, p := range n.params {
		sh := p.Value().Shape()
		m := toM(p)
		if !n.keepParams {
			m = dt.quantM(t.randM(sh[0], sh[1], -pscale, pscale))
			setParam(p, m, dt)
		}
		w[i] = m
		if n.frozen[i] || !p.RequiresGrad() {
			continue
		}
		train[i] = !freeze || t.R.P(0.7)
		p.SetRequiresGrad(train[i])
	}
	type coord struct{ i, j int }
	var all, cs []coord
	for i := range w {
		for j := range w[i].v {
			all = append(all, coord{i, j})
		}
	}
	for _, k := range t.R.Perm(len(all)) {
		if len(cs) < 16 {
			cs = append(cs, all[k])
		}
	}
	rule := newRule(t, []string{"sgd", "momentum", "nesterov"}[t.R.Intn(3)], dt)
	source := nn.Parameters(n.model)
	opt := optimizers.New(source, rule.strategy)
	states := map[coord]*[2]*M{}
	steps := t.R.Range(1, 3)
	for step := 0; step < steps; step++ {
		// the batch
		batch := t.R.Range(1, 3)
		var xs [][]*M
		var gys [][]*M
		var roots []mat.Tensor
		seen := map[int]bool{} // parameters with a gradient
		together := t.R.Bool()
		for b := 0; b < batch; b++ {
			x := make([]*M, len(n.xs))
			ts := make([]mat.Tensor, len(n.xs))
			for i := range n.xs {
				x[i] = dt.quantM(n.xs[i])
				if b+step > 0 && !n.noGrad[i] {
					x[i] = dt.quantM(x[i].mapf(func(v float64) float64 { return v * (1 + 0.125*float64(t.R.Range(-2, 2))) }))
				}
				ts[i] = dt.mk(x[i], !n.noGrad[i] && t.R.P(0.3))
			}
			want := n.ref(w, x, w, x)
			ys := n.fwd(ts...)
			if !t.Check(len(ys) == len(want), key+":outputs", "%s %s: %d outputs, want %d", spec.name, n.desc, len(ys), len(want)) {
				return
			}
			var terms []mat.Tensor
			var gy []*M
			for k, y := range ys {
				g := dt.quantM(t.randM(want[k].r, want[k].c, -1, 1))
				if !y.RequiresGrad() || !isOperator(y) {
					g = newM(want[k].r, want[k].c)
				} else {
					terms = append(terms, ag.ReduceSum(ag.Prod(y, dt.mk(g, false))))
				}
				gy = append(gy, g)
			}
			xs, gys = append(xs, x), append(gys, gy)
			if len(terms) == 0 {
				continue
			}
			loss := ag.Sum(terms...)
			if together {
				roots = append(roots, loss)
				continue
			}
			if err := ag.Backward(loss); err != nil {
				t.Fail(key+":backward", "%s %s: %v", spec.name, n.desc, err)
				return
			}
		}
		if len(roots) > 0 {
			root := roots
			if t.R.Bool() {
				root = []mat.Tensor{ag.Sum(roots...)}
			}
			if err := ag.Backward(root...); err != nil {
				t.Fail(key+":backward", "%s %s: %v", spec.name, n.desc, err)
				return
			}
		}
		for i, p := range n.params {
			seen[i] = p.HasGrad()
			t.Check(train[i] || !seen[i], key+":frozen", "%s %s: parameter %d requires no gradients but has one", spec.name, n.desc, i)
		}
		if err := opt.Optimize(); err != nil {
			t.Fail(key+":error", "%s %s: Optimize: %v", spec.name, n.desc, err)
			return
		}
		if t.R.P(0.3) {
			nn.ZeroGrad(n.model)
		}
		// the gradient of the reference
		q := cloneAll(w)
		x0 := newM(len(cs), 1)
		for k, c := range cs {
			x0.v[k] = w[c.i].v[c.j]
		}
		var gy []float64
		for _, g := range gys {
			for _, m := range g {
				gy = append(gy, m.v...)
			}
		}
		fd := gradFD(func(m *M) []float64 {
			for k, c := range cs {
				q[c.i].v[c.j] = m.v[k]
			}
			var out []float64
			for _, x := range xs {
				for _, o := range n.ref(q, x, w, x) {
					out = append(out, o.v...)
				}
			}
			return out
		}, x0, gy)
		scale := 1.0
		for _, v := range fd.v {
			if !math.IsNaN(v) {
				scale = math.Max(scale, math.Abs(v))
			}
		}
		gtol := gradTol(dt) * tol * scale * 2 * float64(batch)
		for k, c := range cs {
			got := toM(n.params[c.i]).v[c.j]
			old := w[c.i].v[c.j]
			g := fd.v[k]
			if !seen[c.i] {
				if !t.Check(got == old, key+":untouched", "%s %s: parameter %d has no gradient but changed from %g to %g", spec.name, n.desc, c.i, old, got) {
					return
				}
				if train[c.i] && !math.IsNaN(g) && !t.Check(math.Abs(g) <= gtol, key+":missing", "%s %s: parameter %d element %d: no gradient, but the derivative of the loss is %g", spec.name, n.desc, c.i, c.j, g) {
					return
				}
				continue
			}
			s := states[c]
			if s == nil {
				s = &[2]*M{}
				states[c] = s
			}
			if math.IsNaN(g) { // a kink: nothing to compare from here on
				return
			}
			want := rule.update(scalarM(old), scalarM(g), s).v[0]
			lr := 0.31 // the largest rate drawn, with the factor of momentum
			bound := lr*2*gtol*float64(step+1) + 1e-6*math.Abs(old)
			if dt == f64 {
				bound = lr*2*gtol*float64(step+1) + 1e-12*math.Abs(old)
			}
			if !t.Check(math.Abs(got-want) <= bound, key+":value", "%s %s %s with %s, step %d, batch of %d: parameter %d element %d = %.10g, want %.10g (from %.10g, derivative %.10g)", spec.name, dt, n.desc, rule.desc, step, batch, c.i, c.j, got, want, old, g) {
				return
			}
			t.Event("weights compared", 1)
		}
		for i, p := range n.params {
			if !t.Check(!p.HasGrad(), key+":gradient-left", "%s %s: parameter %d still has a gradient after the step", spec.name, n.desc, i) {
				return
			}
			w[i] = toM(p)
			if w[i].maxAbs() > 30 {
				return
			}
		}
		t.Event("training steps", 1)
	}
	t.Seen(spec.name, n.desc, rule.desc)
}

func trainPhase() Phase {
	return Phase{Name: "training", Shards: 8, MinEvents: map[string]int64{"training steps": 500, "weights compared": 3000}, Run: func(c *C) {
		for _, spec := range allSpecs() {
			for _, dt := range []dtype{f64, f32} {
				for i := 0; i < c.N(40, 1500); i++ {
					c.Case(fmt.Sprintf("%s/%s/%d", spec.name, dt, i), func(t *T) { trainCase(t, spec, dt) })
				}
			}
		}
	}}
}

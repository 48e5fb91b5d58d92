package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/adagrad"
	"github.com/nlpodyssey/spago/optimizers/adam"
	"github.com/nlpodyssey/spago/optimizers/decay"
	"github.com/nlpodyssey/spago/optimizers/decay/exponential"
	"github.com/nlpodyssey/spago/optimizers/decay/hyperbolic"
	"github.com/nlpodyssey/spago/optimizers/lamb"
	"github.com/nlpodyssey/spago/optimizers/radam"
	"github.com/nlpodyssey/spago/optimizers/rmsprop"
	"github.com/nlpodyssey/spago/optimizers/sgd"
)

// ruleRef is an independent implementation of an update rule. st holds the two
// moments of one parameter.
type ruleRef struct {
	strategy optimizers.OptimizationStrategy
	desc     string
	update   func(w, g *M, st *[2]*M) *M // the new value
	tick     func()                      // a new step, batch or epoch
	check    func() string               // counters and derived coefficients
	setLR    func(lr float64)
}

func initMoments(st *[2]*M, g *M) {
	if st[0] == nil {
		st[0], st[1] = newM(g.r, g.c), newM(g.r, g.c)
	}
}

var ruleNames = []string{"sgd", "momentum", "nesterov", "adagrad", "rmsprop", "adam", "adamw", "radam", "lamb"}

func pickF(t *T, xs ...float64) float64 { return xs[t.R.Intn(len(xs))] }

// newRule builds a strategy and its reference.
func newRule(t *T, name string, dt dtype) *ruleRef {
	lr := pickF(t, 0.001, 0.01, 0.1, 0.3)
	eps := pickF(t, 1e-8, 1e-6, 1e-3)
	b1 := pickF(t, 0, 0.5, 0.9, 0.99)
	b2 := pickF(t, 0, 0.5, 0.9, 0.99, 0.999)
	lambda := pickF(t, 0.01, 0.1, 0.5)
	r := &ruleRef{tick: func() {}, check: func() string { return "" }}
	ema := func(m, g *M, b float64) *M { return addM(m.scale(b), g.scale(1-b)) }
	step := 1
	corr := func() float64 {
		return lr * math.Sqrt(1-math.Pow(b2, float64(step))) / (1 - math.Pow(b1, float64(step)))
	}
	alpha := corr()
	switch name {
	case "sgd", "momentum", "nesterov":
		mu := 0.0
		if name != "sgd" {
			mu = pickF(t, 0.3, 0.9, 0.99, 0.9, 0.99, 1e-4, 5e-3)
		}
		cfg := sgd.NewConfig(lr, mu, name == "nesterov" || name == "sgd" && t.R.Bool())
		r.desc = fmt.Sprintf("%+v", cfg)
		var set func(a float64)
		if dt == f32 {
			o := sgd.New[float32](cfg)
			r.strategy, set = o, func(a float64) { o.Alpha = a }
		} else {
			o := sgd.New[float64](cfg)
			r.strategy, set = o, func(a float64) { o.Alpha = a }
		}
		r.setLR = func(a float64) { lr = a; set(a) }
		r.update = func(w, g *M, st *[2]*M) *M {
			initMoments(st, g)
			prev := st[0]
			st[0] = addM(prev.scale(mu), g.scale(lr))
			if name == "nesterov" {
				return subM(w, subM(st[0].scale(1+mu), prev.scale(mu)))
			}
			return subM(w, st[0])
		}
	case "adagrad":
		cfg := adagrad.NewConfig(lr, eps)
		r.desc = fmt.Sprintf("%+v", cfg)
		if dt == f32 {
			o := adagrad.New[float32](cfg)
			r.strategy, r.setLR = o, func(a float64) { o.LR = a; lr = a }
		} else {
			o := adagrad.New[float64](cfg)
			r.strategy, r.setLR = o, func(a float64) { o.LR = a; lr = a }
		}
		r.update = func(w, g *M, st *[2]*M) *M {
			initMoments(st, g)
			st[0] = addM(st[0], prodM(g, g))
			return subM(w, zip(g, st[0], func(g, m float64) float64 { return lr * g / (math.Sqrt(m) + eps) }))
		}
	case "rmsprop":
		cfg := rmsprop.NewConfig(lr, eps, b2)
		r.desc = fmt.Sprintf("%+v", cfg)
		if dt == f32 {
			o := rmsprop.New[float32](cfg)
			r.strategy, r.setLR = o, func(a float64) { o.LR = a; lr = a }
		} else {
			o := rmsprop.New[float64](cfg)
			r.strategy, r.setLR = o, func(a float64) { o.LR = a; lr = a }
		}
		r.update = func(w, g *M, st *[2]*M) *M {
			initMoments(st, g)
			st[0] = ema(st[0], prodM(g, g), b2)
			return subM(w, zip(g, st[0], func(g, v float64) float64 { return lr * g / (math.Sqrt(v) + eps) }))
		}
	case "adam", "adamw":
		cfg := adam.NewConfig(lr, b1, b2, eps)
		if name == "adamw" {
			cfg = adam.NewAdamWConfig(lr, b1, b2, eps, lambda)
		} else {
			lambda = 0
		}
		r.desc = fmt.Sprintf("%+v", cfg)
		o := adam.New(cfg)
		r.strategy = o
		r.tick = func() { step++; alpha = corr(); o.IncExample() }
		r.check = func() string {
			if o.TimeStep != step || math.Abs(o.Alpha-alpha) > 1e-12*alpha {
				return fmt.Sprintf("time step %d with coefficient %v, want %d with %v", o.TimeStep, o.Alpha, step, alpha)
			}
			return ""
		}
		r.update = func(w, g *M, st *[2]*M) *M {
			initMoments(st, g)
			st[0], st[1] = ema(st[0], g, b1), ema(st[1], prodM(g, g), b2)
			d := zip(st[0], st[1], func(v, m float64) float64 { return v / (math.Sqrt(m) + eps) })
			return subM(w, addM(d, w.scale(lambda)).scale(alpha))
		}
	case "radam":
		cfg := radam.NewConfig(lr, b1, b2, eps)
		r.desc = fmt.Sprintf("%+v", cfg)
		var tick func()
		var count func() int
		if dt == f32 {
			o := radam.New[float32](cfg)
			r.strategy, tick, count = o, o.IncBatch, func() int { return o.TimeStep }
		} else {
			o := radam.New[float64](cfg)
			r.strategy, tick, count = o, o.IncBatch, func() int { return o.TimeStep }
		}
		r.tick = func() { step++; tick() }
		r.check = func() string {
			if n := count(); n != step {
				return fmt.Sprintf("time step %d, want %d", n, step)
			}
			return ""
		}
		r.update = func(w, g *M, st *[2]*M) *M {
			initMoments(st, g)
			st[0], st[1] = ema(st[0], g, b1), ema(st[1], prodM(g, g), b2)
			b2t := math.Pow(b2, float64(step))
			roMax := 2/(1-b2) - 1
			ro := roMax - 2*float64(step)*b2t/(1-b2t)
			rect := 1.0
			if ro > 4 {
				rect = math.Sqrt((ro - 4) * (ro - 2) * roMax / ((roMax - 4) * (roMax - 2) * ro))
			}
			mhat := st[0].scale(1 / (1 - math.Pow(b1, float64(step))))
			return subM(w, zip(mhat, st[1], func(m, v float64) float64 {
				return lr * rect * m / (math.Sqrt(v/(1-b2t)) + eps)
			}))
		}
	case "lamb":
		if t.R.P(0.2) {
			lambda = 0
		}
		cfg := lamb.NewConfig(lr, b1, b2, eps, lambda)
		r.desc = fmt.Sprintf("%+v", cfg)
		var tick func()
		var count func() (int, float64)
		if dt == f32 {
			o := lamb.New[float32](cfg)
			r.strategy, tick, count = o, o.IncExample, func() (int, float64) { return o.TimeStep, o.Alpha }
		} else {
			o := lamb.New[float64](cfg)
			r.strategy, tick, count = o, o.IncExample, func() (int, float64) { return o.TimeStep, o.Alpha }
		}
		r.tick = func() { step++; alpha = corr(); tick() }
		r.check = func() string {
			if n, a := count(); n != step || math.Abs(a-alpha) > 1e-12*alpha {
				return fmt.Sprintf("time step %d with coefficient %v, want %d with %v", n, a, step, alpha)
			}
			return ""
		}
		r.update = func(w, g *M, st *[2]*M) *M {
			initMoments(st, g)
			st[0], st[1] = ema(st[0], g, b1), ema(st[1], prodM(g, g), b2)
			d := zip(st[0], st[1], func(v, m float64) float64 { return v / (math.Sqrt(m) + eps) })
			d = addM(d, w.scale(lambda))
			trust := 1.0
			if nw, nd := math.Sqrt(w.sumsq()), math.Sqrt(d.sumsq()); nw != 0 && nd != 0 {
				trust = nw / nd
			}
			return subM(w, d.scale(alpha*trust))
		}
	}
	return r
}

// ruleCase follows the trajectories of several parameters under one strategy.
func ruleCase(t *T, name string, dt dtype) {
	r := newRule(t, name, dt)
	key := "rule:" + name
	nP := t.R.Range(1, 5)
	type par struct {
		p  *nn.Param
		w  *M
		st [2]*M
		n  int
	}
	ps := make([]*par, nP)
	for i := range ps {
		v := dt.quantM(t.randM(t.R.Pick(1, 1, 2, 3, 5, 9), t.R.Pick(1, 1, 2, 4), -1, 1))
		if t.R.P(0.03) {
			v = dt.quantM(t.randM(t.R.Pick(1, 7, 16, 33, 130), t.R.Pick(1, 5, 17, 64), -1, 1))
		}
		if t.R.P(0.1) {
			v = newM(v.r, v.c)
		}
		ps[i] = &par{p: nn.NewParam(dt.mk(v, false)), w: v}
	}
	// the gradients of one parameter share a magnitude
	mag := make([]float64, nP)
	for i := range mag {
		mag[i] = pickF(t, 1e-3, 0.1, 1, 1, 10, 1000)
	}
	tol := 1e-10
	if dt == f32 {
		tol = 3e-5
	}
	steps := t.R.Pick(1, 2, 3, 5, 8, 20)
	if t.R.P(0.02) {
		steps = t.R.Pick(60, 130, 300)
	}
	far := t.R.P(0.1) // long trainings
	updates := 0
	for step := 0; step < steps; step++ {
		for _, i := range t.R.Perm(nP) {
			if t.R.P(0.25) {
				continue
			}
			p := ps[i]
			g := dt.quantM(t.randM(p.w.r, p.w.c, -mag[i], mag[i]))
			if t.R.P(0.15) {
				g = newM(g.r, g.c)
			}
			for j := range g.v {
				if t.R.P(0.1) {
					g.v[j] = 0
				}
			}
			gm := dt.mk(g, false)
			p.p.AccGrad(gm)
			held := p.p.Grad()
			before := make([]*M, nP)
			for k := range ps {
				before[k] = toM(ps[k].p)
			}
			if err := r.strategy.OptimizeParams(p.p); err != nil {
				t.Fail(key+":error", "%v", err)
				return
			}
			if before[i].maxAbs() > 1e9 || (before[i].maxAbs() > 0 && before[i].maxAbs() < 1e-17) { // squares overflow, or vanish, in float32
				return
			}
			w := before[i] // rounding errors of the weights do not build up
			p.w = r.update(w, g, &p.st)
			p.n++
			updates++
			got := toM(p.p)
			scale := math.Max(w.maxAbs(), p.w.maxAbs()) + 1e-3
			if d := diffM(got, p.w, tol*math.Sqrt(float64(p.n))*4, scale); !t.Check(d == "", key+":value", "%s %s: parameter %d after %d updates (step %d): %s\nfrom %v gradient %v", dt, r.desc, i, p.n, step, d, before[i], g) {
				return
			}
			if !t.Check(!p.p.HasGrad(), key+":gradient-left", "%s: the gradient is left after an update", name) {
				return
			}
			for k := range ps {
				if k != i && !t.Check(sameM(toM(ps[k].p), before[k]), key+":other", "%s: updating parameter %d changed parameter %d", name, i, k) {
					return
				}
			}
			if !t.Check(sameM(toM(gm), g), key+":gradient-changed", "%s: the update changed the matrix the gradient came from", name) {
				return
			}
			if m, ok := held.(mat.Matrix); ok && !isNilT(held) { // must not be retained
				scribble(t.R, m, 1e6)
			}
		}
		n := t.R.Pick(0, 1, 1, 1, 2)
		if far && t.R.P(0.3) {
			n = t.R.Pick(30, 100, 127, 128, 255, 256, 600, 1025, 5000)
		}
		for ; n > 0; n-- {
			r.tick()
		}
		if d := r.check(); !t.Check(d == "", key+":counter", "%s %s: %s", name, r.desc, d) {
			return
		}
		if r.setLR != nil && t.R.P(0.2) {
			r.setLR(pickF(t, 0.001, 0.02, 0.2))
		}
	}
	t.Event("updates", updates)
	t.Event("trajectories", 1)
	t.Seen(name, dt, r.desc, nP, steps)
	t.Sample("%s %s %s: %d parameters, %d steps, %d updates", name, dt, r.desc, nP, steps, updates)
}

// decayCase follows the learning-rate schedules.
func decayCase(t *T) {
	init := pickF(t, 1, 0.1, 0.01, 0.003) * t.R.Uni(0.5, 1)
	final := init * pickF(t, 1, 0.5, 0.1, 0.01, 1e-4)
	if t.R.P(0.3) {
		init, final = pickF(t, 0.1, 0.01), pickF(t, 0.01, 0.001, 0.0001, 0.005)
	}
	times := t.R.Pick(1, 2, 3, 5, 10, 50, 150, 300)
	var fn decay.Function
	var formula func(step int) float64
	var desc string
	kind := t.R.Intn(2)
	if kind == 0 {
		fn = exponential.New(init, final, times)
		desc = fmt.Sprintf("exponential(%g,%g,%d)", init, final, times)
		formula = func(step int) float64 {
			if step == 1 {
				return init
			}
			if step >= times {
				return final
			}
			return init * math.Pow(final/init, float64(step-1)/float64(times-1))
		}
	} else {
		rate := pickF(t, 0, 0.01, 0.5, 2)
		fn = hyperbolic.New(init, final, rate)
		desc = fmt.Sprintf("hyperbolic(%g,%g,%g)", init, final, rate)
		formula = func(step int) float64 {
			if step == 1 || rate == 0 {
				return init
			}
			return math.Max(final, init/(1+rate*float64(step)))
		}
	}
	lr := init
	for step := 1; step <= times+20; step++ {
		next := fn.Decay(lr, step)
		want := formula(step)
		if !t.Check(math.Abs(next-want) <= 1e-9*want, "decay", "%s: rate %.17g at step %d (from %.17g), want %.17g", desc, next, step, lr, want) ||
			!t.Check(next <= lr*(1+1e-12) && next >= final*(1-1e-12), "decay:bounds", "%s: rate %.17g at step %d after %.17g", desc, next, step, lr) {
			return
		}
		lr = next
		t.Event("schedule steps", 1)
	}
	if kind == 1 { // the hyperbolic rate is a function of the step, from wherever it is resumed
		for i := 0; i < 5; i++ {
			step := t.R.Range(2, times+20)
			from := final + (init-final)*t.R.Uni(0.01, 1)
			want := formula(step)
			if desc[len(desc)-3:] == ",0)" {
				want = from
			}
			if from > final*(1+1e-9) {
				next := fn.Decay(from, step)
				t.Check(math.Abs(next-want) <= 1e-9*want, "decay:resumed", "%s: rate %.17g at step %d (from %.17g), want %.17g", desc, next, step, from, want)
			}
		}
	}
	// a pure function of the rate and the step
	a, b := fn.Decay(init, 2), fn.Decay(init, 2)
	t.Check(a == b, "decay:pure", "%s is not a function of its arguments", desc)
	t.Seen(desc)
}

func init() {
	register(&Property{
		ID:    "P15",
		Boost: 50,
		Rule: "trajectories of several parameters under each strategy, over random hyperparameters, gradient magnitudes, update orders and counter ticks, equal an independent float64 implementation of the rule; other parameters, the source of the gradient and the counters stay as specified; " +
			"learning-rate schedules equal their closed forms and stay within their bounds over and past the whole schedule",
		Phases: []Phase{
			{Name: "rules", Shards: 8, Run: func(c *C) {
				for _, name := range ruleNames {
					for _, dt := range []dtype{f32, f64} {
						for i := 0; i < c.N(600, 40000); i++ {
							c.Case(fmt.Sprintf("%s/%s/%d", name, dt, i), func(t *T) { ruleCase(t, name, dt) })
						}
					}
				}
				for i := 0; i < c.N(2000, 40000); i++ {
					c.Case(fmt.Sprint("decay/", i), decayCase)
				}
			}, MinEvents: map[string]int64{"updates": 1000, "schedule steps": 1000}},
		},
	})
}

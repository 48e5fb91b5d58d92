package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/adagrad"
	"github.com/nlpodyssey/spago/optimizers/adam"
	"github.com/nlpodyssey/spago/optimizers/lamb"
	"github.com/nlpodyssey/spago/optimizers/radam"
	"github.com/nlpodyssey/spago/optimizers/rmsprop"
	"github.com/nlpodyssey/spago/optimizers/sgd"
)

// recStrategy is a strategy that records every call.
type recStrategy struct {
	mu      sync.Mutex
	calls   map[*nn.Param]int
	running atomic.Int64
	total   atomic.Int64
	late    atomic.Int64 // calls started or ended after the step returned
	done    atomic.Bool
	delay   func(p *nn.Param)
	fail    map[*nn.Param]error
	overlap atomic.Int64
	busy    map[*nn.Param]bool
}

func (s *recStrategy) OptimizeParams(p *nn.Param) error {
	s.running.Add(1)
	defer s.running.Add(-1)
	s.total.Add(1)
	if s.done.Load() {
		s.late.Add(1)
	}
	s.mu.Lock()
	s.calls[p]++
	if s.busy[p] {
		s.overlap.Add(1)
	}
	s.busy[p] = true
	s.mu.Unlock()
	s.delay(p)
	err := s.fail[p]
	if err == nil {
		p.SubInPlace(p.Grad().(mat.Matrix))
		p.ZeroGrad()
	}
	s.mu.Lock()
	s.busy[p] = false
	s.mu.Unlock()
	if s.done.Load() {
		s.late.Add(1)
	}
	return err
}

// optList is a model with a slice of parameters, some of them absent.
type optList struct {
	nn.Module
	Ps  []*nn.Param
	Sub map[string]*optList
	Emb *embedding.Model
}

// optStep runs one or more optimisation steps with a recording strategy.
func optStep(t *T, faulty bool) {
	nP := []int{0, 1, 2, 3, 7, 15, 16, 17, 33, 64, 200}[t.R.Intn(11)]
	if t.R.P(0.01) {
		nP = t.R.Pick(1001, 1030, 2049, 3000)
		t.Event("many parameters", 1)
	}
	m := &optList{}
	var ps []*nn.Param
	mk := func() *nn.Param {
		p := nn.NewParam(f64.mk(t.randM(t.R.Range(1, 3), 1, -1, 1), false))
		ps = append(ps, p)
		return p
	}
	for i := 0; i < nP; i++ {
		if t.R.P(0.1) {
			if m.Sub == nil {
				m.Sub = map[string]*optList{}
			}
			m.Sub[fmt.Sprint(i)] = &optList{Ps: []*nn.Param{mk()}}
			continue
		}
		m.Ps = append(m.Ps, mk())
	}
	var source nn.ParamChannelFunc
	kind := t.R.Intn(3)
	switch kind {
	case 0:
		source = nn.Parameters(m)
		if t.R.P(0.3) {
			m.Emb = embedding.New[float64](t.R.Range(1, 20), 3)
			ps = append(ps, m.Emb.Weights...)
		}
	case 1:
		source = nn.StreamParams(ps)
	default: // a slow listing, with a buffer
		d := t.R.Fork()
		source = func(ctx context.Context) <-chan *nn.Param {
			ch := make(chan *nn.Param, 3)
			go func() {
				defer close(ch)
				for _, p := range ps {
					pause(d.Intn(4))
					select {
					case <-ctx.Done():
						return
					case ch <- p:
					}
				}
			}()
			return ch
		}
	}
	base := runtime.NumGoroutine()
	steps := t.R.Range(1, 3)
	for step := 0; step < steps; step++ {
		want := map[*nn.Param]*M{}
		before := map[*nn.Param]*M{}
		frozen := map[*nn.Param]bool{}
		fail := map[*nn.Param]error{}
		density := []float64{0, 0.1, 0.5, 1, 1}[t.R.Intn(5)]
		var failed []error
		failRate := []float64{0.01, 0.1, 0.5, 1}[t.R.Intn(4)]
		for i, p := range ps {
			before[p] = toM(p)
			if !t.R.P(density) {
				continue
			}
			g := t.randM(p.Shape()[0], 1, -1, 1)
			acc := func(gx mat.Tensor) { p.AccGrad(gx) }
			if m.Emb != nil && i >= nP {
				e, _ := m.Emb.Embedding(i - nP)
				acc = e.AccGrad
			}
			acc(f64.mk(g, false))
			if frozen[p] = t.R.P(0.02); frozen[p] { // after its gradient was accumulated
				p.SetRequiresGrad(false)
				t.Event("frozen", 1)
			}
			want[p] = subM(before[p], g)
			if faulty && t.R.P(failRate) {
				fail[p] = fmt.Errorf("fault %d", i)
				failed = append(failed, fail[p])
			}
		}
		slow := t.R.Intn(4)
		var dmu sync.Mutex
		rng := t.R.Fork()
		s := &recStrategy{calls: map[*nn.Param]int{}, busy: map[*nn.Param]bool{}, fail: fail, delay: func(p *nn.Param) {
			dmu.Lock()
			n := rng.Intn(1000)
			dmu.Unlock()
			switch {
			case slow == 0:
			case slow == 3 && n < 100:
				time.Sleep(time.Duration(n) * 10 * time.Microsecond)
			default:
				pause(n % (5 * slow))
			}
		}}
		err := optimizers.New(source, s).Optimize()
		s.done.Store(true)
		running, total := s.running.Load(), s.total.Load()
		key := "optimize"
		if faulty {
			key = "optimize:fault"
		}
		desc := fmt.Sprintf("%d parameters, %d with gradients, %d failing, source %d, step %d", len(ps), len(want), len(failed), kind, step)
		if !t.Check(running == 0, key+":early-return", "%s: Optimize returned while %d updates were running", desc, running) {
			pause(2000)
			return
		}
		if len(failed) == 0 {
			t.Check(err == nil, key+":error", "%s: %v", desc, err)
		} else {
			ok := false
			for _, e := range failed {
				ok = ok || errors.Is(err, e)
			}
			t.Check(ok, key+":lost-error", "%s: Optimize returned %v although updates failed", desc, err)
		}
		// the state at return
		for i, p := range ps {
			g, hasG := want[p], p.HasGrad()
			n := s.calls[p]
			if g == nil {
				if !t.Check(n == 0 && !hasG && sameM(toM(p), before[p]), key+":no-gradient", "%s: parameter %d, without gradient, was updated %d times", desc, i, n) {
					return
				}
				continue
			}
			if len(failed) == 0 {
				if !t.Check(n == 1, key+":once", "%s: parameter %d was updated %d times, want 1", desc, i, n) {
					return
				}
			} else if !t.Check(n <= 1, key+":once", "%s: parameter %d was updated %d times, want at most 1", desc, i, n) {
				return
			}
			w := before[p]
			if n == 1 && fail[p] == nil {
				w = g
			}
			if !t.Check(diffM(toM(p), w, 1e-15, 1) == "", key+":value", "%s: parameter %d is %v after %d updates, want %v", desc, i, toM(p), n, w) {
				return
			}
			if n == 1 && fail[p] == nil && !t.Check(!hasG, key+":gradient-left", "%s: parameter %d keeps its gradient", desc, i) {
				return
			}
		}
		// nothing happens afterwards
		if d := leakedGoroutines(base); d != "" {
			t.Fail(key+":leak", "%s: goroutines left behind:\n%s", desc, d)
			return
		}
		t.Check(s.late.Load() == 0 && s.total.Load() == total, key+":late", "%s: updates went on after Optimize had returned", desc)
		t.Check(s.overlap.Load() == 0, key+":overlap", "%s: two updates of one parameter at once", desc)
		t.Event("updates", int(total))
		t.Event("steps", 1)
		if err != nil {
			t.Event("failed steps", 1)
		}
		nn.ZeroGrad(m)
		for _, p := range ps {
			p.ZeroGrad()
			if frozen[p] {
				p.SetRequiresGrad(true)
			}
		}
		if m.Emb != nil {
			m.Emb.ZeroGrad()
		}
		t.Seen(nP, kind, len(want), len(failed), slow)
		t.Sample("%s: %d updates, error %v", desc, total, err)
	}
}

// strategies builds every strategy of the library.
var strategies = []struct {
	name string
	mk   func(dt dtype) optimizers.OptimizationStrategy
}{
	{"sgd", func(dt dtype) optimizers.OptimizationStrategy { return sgd.New[float32](sgd.NewConfig(0.1, 0, false)) }},
	{"momentum", func(dt dtype) optimizers.OptimizationStrategy {
		return sgd.New[float64](sgd.NewConfig(0.1, 0.9, false))
	}},
	{"nesterov", func(dt dtype) optimizers.OptimizationStrategy { return sgd.New[float64](sgd.NewConfig(0.1, 0.9, true)) }},
	{"adagrad", func(dt dtype) optimizers.OptimizationStrategy {
		if dt == f32 {
			return adagrad.New[float32](adagrad.NewDefaultConfig())
		}
		return adagrad.New[float64](adagrad.NewDefaultConfig())
	}},
	{"rmsprop", func(dt dtype) optimizers.OptimizationStrategy {
		if dt == f32 {
			return rmsprop.New[float32](rmsprop.NewDefaultConfig())
		}
		return rmsprop.New[float64](rmsprop.NewDefaultConfig())
	}},
	{"adam", func(dt dtype) optimizers.OptimizationStrategy { return adam.New(adam.NewDefaultConfig()) }},
	{"adamw", func(dt dtype) optimizers.OptimizationStrategy {
		return adam.New(adam.NewAdamWConfig(0.01, 0.9, 0.99, 1e-8, 0.1))
	}},
	{"radam", func(dt dtype) optimizers.OptimizationStrategy {
		if dt == f32 {
			return radam.New[float32](radam.NewDefaultConfig())
		}
		return radam.New[float64](radam.NewDefaultConfig())
	}},
	{"lamb", func(dt dtype) optimizers.OptimizationStrategy {
		if dt == f32 {
			return lamb.New[float32](lamb.NewDefaultConfig())
		}
		return lamb.New[float64](lamb.NewDefaultConfig())
	}},
}

// optReal compares concurrent steps with the strategies of the library with
// the same updates applied one by one.
func optReal(t *T, si int, dt dtype) {
	st := strategies[si]
	nP := t.R.Pick(1, 2, 5, 17, 40, 120)
	ps, qs := make([]*nn.Param, nP), make([]*nn.Param, nP)
	for i := range ps {
		v := dt.quantM(t.randM(t.R.Range(1, 4), t.R.Range(1, 4), -1, 1))
		ps[i], qs[i] = nn.NewParam(dt.mk(v, false)), nn.NewParam(dt.mk(v, false))
	}
	conc, seq := st.mk(dt), st.mk(dt)
	broken := -1
	if t.R.P(0.2) {
		broken = t.R.Intn(nP)
	}
	for step := 0; step < t.R.Range(1, 4); step++ {
		updated := make([]bool, nP)
		for i := range ps {
			if t.R.P(0.8) {
				g := dt.mk(dt.quantM(t.randM(ps[i].Shape()[0], ps[i].Shape()[1], -1, 1)), false)
				ps[i].AccGrad(g)
				qs[i].AccGrad(g)
				updated[i] = true
			}
		}
		if broken >= 0 {
			if !ps[broken].HasGrad() {
				ps[broken].AccGrad(dt.mk(newM(ps[broken].Shape()[0], ps[broken].Shape()[1]), false))
			}
			ps[broken].State = "a foreign state"
		}
		var err error
		if t.R.Bool() {
			err = optimizers.New(nn.Parameters(&optList{Ps: ps}), conc).Optimize()
		} else {
			err = optimizers.New(nn.StreamParams(ps), conc).Optimize()
		}
		key := "optimize:" + st.name
		if broken >= 0 {
			t.Check(err != nil, key+":lost-error", "%s: Optimize reports no error although parameter %d has a foreign state", st.name, broken)
			t.Event("failed steps", 1)
			return
		}
		if !t.Check(err == nil, key+":error", "%v", err) {
			return
		}
		for i := range ps {
			if updated[i] {
				if err := seq.OptimizeParams(qs[i]); err != nil {
					t.Fail(key+":error", "%v", err)
					return
				}
			}
			if !t.Check(sameM(toM(ps[i]), toM(qs[i])), key+":value", "%s %s: parameter %d is %v after a concurrent step, %v when updated alone", st.name, dt, i, toM(ps[i]), toM(qs[i])) ||
				!t.Check(!ps[i].HasGrad(), key+":gradient-left", "%s: parameter %d keeps its gradient", st.name, i) {
				return
			}
		}
		t.Event("steps", 1)
		t.Event("updates", nP)
		if inc, ok := conc.(interface{ IncExample() }); ok {
			inc.IncExample()
			seq.(interface{ IncExample() }).IncExample()
		}
	}
	t.Seen(st.name, dt, nP)
}

func init() {
	run := func(scale int) func(c *C) {
		return func(c *C) {
			for i := 0; i < c.N(1600/scale, 60000/scale); i++ {
				c.Case(fmt.Sprint("step/", i), func(t *T) { optStep(t, false) })
				c.Case(fmt.Sprint("fault/", i), func(t *T) { optStep(t, true) })
			}
			for si := range strategies {
				for _, dt := range []dtype{f32, f64} {
					for i := 0; i < c.N(80/scale, 3000/scale); i++ {
						c.Case(fmt.Sprintf("%s/%s/%d", strategies[si].name, dt, i), func(t *T) { optReal(t, si, dt) })
					}
				}
			}
		}
	}
	min := map[string]int64{"steps": 200, "updates": 2000, "failed steps": 20}
	register(&Property{
		ID: "P14",
		Rule: "a recording strategy with injected delays and failures under Optimize: at return every parameter with a gradient was updated exactly once and has no gradient left, the others not at all, no update is running or starts later, no goroutine remains; " +
			"a failing update is reported; concurrent steps of the library's strategies equal one-by-one updates bit for bit; plain and race builds",
		Phases: []Phase{
			{Name: "steps", Shards: 8, Run: run(1), MinEvents: min},
			{Name: "race", Variant: "race", Shards: 8, Run: run(4), MinEvents: min},
			trainPhase(),
		},
	})
}

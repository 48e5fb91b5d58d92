package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"time"
	"weak"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/optimizers"
)

// vary gives other values of the same kind for the inputs.
func vary(t *T, dt dtype, n *netInst) []*M {
	xs := make([]*M, len(n.xs))
	for i, x := range n.xs {
		xs[i] = dt.quantM(x)
		if !n.noGrad[i] {
			xs[i] = dt.quantM(x.mapf(func(v float64) float64 { return v * t.R.Uni(0.4, 1) }))
		}
	}
	return xs
}

// changeParam gives a parameter another value, in one of the ways there are.
func changeParam(t *T, dt dtype, p *nn.Param, m *M) string {
	s := p.Value().Shape()
	m = dt.quantM(m.reshape(s[0], s[1]))
	req := p.RequiresGrad()
	v := p.Value().(mat.Matrix)
	switch t.R.Intn(5) {
	case 0:
		p.ReplaceValue(dt.mk(m, t.R.Bool()).(mat.Matrix))
		p.SetRequiresGrad(req)
		return "replace"
	case 1:
		for i := 0; i < m.r; i++ {
			for j := 0; j < m.c; j++ {
				p.SetAt(dt.mkScalar(m.at(i, j), false), i, j)
			}
		}
		return "elements"
	case 2:
		v.ProdScalarInPlace(0)
		v.AddInPlace(dt.mk(m, false).(mat.Matrix))
		return "in place"
	}
	setParam(p, m, dt)
	return "data"
}

func tensorsOf(t *T, dt dtype, xs []*M) []mat.Tensor {
	ts := make([]mat.Tensor, len(xs))
	for i, x := range xs {
		ts[i] = dt.mk(x, t.R.Bool())
	}
	return ts
}

// used makes a past for a layer: passes over other inputs with other parameters,
// optimisation steps, tensors used again with other contents. It returns the
// input tensors to use again, if any.
func used(t *T, spec netSpec, dt dtype, n *netInst) []mat.Tensor {
	key := "past:" + spec.name
	vtol := 1e-9 * n.tol
	if dt == f32 {
		vtol = 1e-4 * n.tol
	}
	var ts []mat.Tensor
	log := ""
	flags := func() {
		if n.keepParams {
			return
		}
		p := t.R.Pick(0, 0, 50, 100)
		for i, q := range n.params {
			if !n.frozen[i] {
				q.SetRequiresGrad(!t.R.P(float64(p) / 100))
			}
		}
	}
	flags()
	if t.R.P(0.3) { // before anything is initialised
		for _, y := range n.fwd(tensorsOf(t, dt, vary(t, dt, n))...) {
			y.Value()
		}
		log += " first"
	}
	for round := t.R.Range(1, 4); round > 0; round-- {
		if !n.keepParams {
			for i, p := range n.params {
				if n.frozen[i] || t.R.P(0.2) {
					continue
				}
				s := p.Value().Shape()
				log += " " + changeParam(t, dt, p, t.randM(s[0], s[1], -n.pscale, n.pscale))
			}
		}
		flags()
		xs := vary(t, dt, n)
		again := t.R.Pick(0, 50, 100)
		if ts == nil {
			ts, again = make([]mat.Tensor, len(xs)), 0
		}
		for i, x := range xs {
			if t.R.P(float64(again) / 100) {
				if t.R.Bool() {
					copyInto(ts[i], x)
				} else {
					xs[i] = toM(ts[i])
				}
				t.Event("tensors used again", 1)
			} else {
				ts[i] = dt.mk(x, !n.noGrad[i] && t.R.Bool())
			}
		}
		if again > 0 {
			log += " same tensors"
		}
		p0 := make([]*M, len(n.params))
		finite := true
		for i, p := range n.params {
			p0[i] = toM(p.Value())
			for _, v := range p0[i].v {
				finite = finite && math.Abs(v) < 100*n.pscale
			}
		}
		if !finite {
			break
		}
		want := n.ref(p0, xs, p0, xs)
		ys := n.fwd(append([]mat.Tensor(nil), ts...)...)
		if !t.Check(len(ys) == len(want), key+":outputs", "%s: %d outputs, want %d", n.desc, len(ys), len(want)) {
			return nil
		}
		for i, y := range ys {
			if d := diffM(toM(y.Value()), want[i], vtol, n.vscale); !t.Check(d == "", key+":value", "%s %s after%s: output %d: %s", dt, n.desc, log, i, d) {
				return nil
			}
		}
		log += " forward"
		if t.R.P(0.6) && !n.skipGrad {
			var roots []mat.Tensor
			seen := map[mat.Tensor]bool{}
			for i, y := range ys {
				if isOperator(y) && y.RequiresGrad() && !seen[y] {
					seen[y] = true
					y.AccGrad(dt.mk(dt.quantM(t.randM(want[i].r, want[i].c, -1, 1)), false))
					roots = append(roots, y)
				}
			}
			if err := ag.Backward(roots...); !t.Check(err == nil, key+":backward", "%s: %v", n.desc, err) {
				return nil
			}
			log += " backward"
			if t.R.P(0.6) && !n.keepParams && n.model != nil {
				st := strategies[t.R.Intn(len(strategies))]
				o := optimizers.New(nn.Parameters(n.model), st.mk(dt))
				err := o.Optimize()
				t.Check(err == nil, key+":optimise", "%s, %s: %v", n.desc, st.name, err)
				for _, p := range n.params { // the state of one strategy does not suit another
					p.State = nil
				}
				log += " " + st.name
				t.Event("optimisation steps", 1)
			}
			for _, p := range n.params {
				p.ZeroGrad()
			}
			for _, x := range ts {
				x.ZeroGrad()
			}
			t.Event("backward passes before", 1)
		}
		t.Event("uses before", 1)
	}
	for i := range ts {
		if t.R.P(0.3) {
			ts[i] = nil // another tensor
		}
	}
	return ts
}

// releaseCase: once a pass is over, only the model remains.
func releaseCase(t *T, name string, dt dtype, batch int, pass func() (keep any, watch []mat.Tensor)) {
	var dense32 []weak.Pointer[mat.Dense[float32]]
	var dense64 []weak.Pointer[mat.Dense[float64]]
	var ops []weak.Pointer[ag.Operator]
	var embs []weak.Pointer[embedding.Embedding]
	var kept []any
	done := make(chan any, 1)
	go func() { // the stack goes, too
		defer func() { done <- recover() }()
		for i := 0; i < batch; i++ {
			k, watch := pass()
			kept = append(kept, k)
			for _, w := range watch {
				switch w := w.(type) {
				case *mat.Dense[float32]:
					dense32 = append(dense32, weak.Make(w))
				case *mat.Dense[float64]:
					dense64 = append(dense64, weak.Make(w))
				case *ag.Operator:
					ops = append(ops, weak.Make(w))
				case *embedding.Embedding:
					embs = append(embs, weak.Make(w))
				}
			}
		}
	}()
	if p := <-done; p != nil {
		t.Fail("release:"+name, "panic: %v", p)
		return
	}
	alive := func() (n int) {
		for _, p := range dense32 {
			if p.Value() != nil {
				n++
			}
		}
		for _, p := range dense64 {
			if p.Value() != nil {
				n++
			}
		}
		for _, p := range ops {
			if p.Value() != nil {
				n++
			}
		}
		for _, p := range embs {
			if p.Value() != nil {
				n++
			}
		}
		return
	}
	left := -1
	for i := 0; i < 40; i++ {
		runtime.GC()
		if left = alive(); left == 0 {
			break
		}
		if i > 4 {
			time.Sleep(time.Duration(i) * time.Millisecond)
		}
	}
	t.Check(left == 0, "release:"+name, "%s: %d of %d tensors of %d finished passes are still reachable", name, left, len(dense32)+len(dense64)+len(ops)+len(embs), batch)
	runtime.KeepAlive(kept)
	t.Event("tensors released", len(dense32)+len(dense64)+len(ops)+len(embs)-left)
	t.Event("passes", batch)
	t.Checked(len(ops) + len(dense32) + len(dense64))
	t.Seen(name, dt, len(ops), len(dense32)+len(dense64))
}

// layerPass evaluates a layer of the given kind once, keeping only its model.
func layerPass(t *T, n *netInst, dt dtype) (keep any, watch []mat.Tensor) {
	params := map[mat.Tensor]bool{}
	for _, p := range n.params {
		params[p.Value()] = true
	}
	ts := make([]mat.Tensor, len(n.xs))
	for i, x := range n.xs {
		ts[i] = dt.mk(dt.quantM(x), !n.noGrad[i])
		watch = append(watch, ts[i])
	}
	ys := n.fwd(ts...)
	var roots []mat.Tensor
	seen := map[mat.Tensor]bool{}
	for _, y := range ys {
		if isOperator(y) && !seen[y] {
			seen[y] = true
			watch = append(watch, y)
			if v := y.Value(); !params[v] {
				watch = append(watch, v)
			}
			if y.RequiresGrad() {
				s := y.Value().Shape()
				y.AccGrad(dt.mk(newM(s[0], s[1]).mapf(func(float64) float64 { return 0.5 }), false))
				roots = append(roots, y)
			}
		}
	}
	if !n.skipGrad && t.R.P(0.7) {
		if err := ag.Backward(roots...); err != nil {
			panic(err)
		}
		if n.model != nil && t.R.Bool() {
			st := strategies[t.R.Intn(len(strategies))]
			if err := optimizers.New(nn.Parameters(n.model), st.mk(dt)).Optimize(); err != nil {
				panic(err)
			}
			for _, p := range n.params {
				p.State = nil
			}
		}
		if t.R.Bool() {
			for _, p := range n.params {
				p.ZeroGrad()
			}
		}
	}
	return n, watch
}

// layerGrowth repeats passes of one layer: the number of objects settles.
func layerGrowth(t *T, spec netSpec, dt dtype, rounds int) {
	n := spec.gen(t, dt)
	if n == nil {
		return
	}
	xs := make([]mat.Tensor, len(n.xs)) // leaves of all graphs
	for i, x := range n.xs {
		xs[i] = dt.mk(dt.quantM(x), !n.noGrad[i])
	}
	var st optimizers.OptimizationStrategy
	var o *optimizers.Optimizer
	if n.model != nil {
		st = strategies[t.R.Intn(len(strategies))].mk(dt)
		o = optimizers.New(nn.Parameters(n.model), st)
	}
	reuse := t.R.Bool()
	pass := func() {
		ts := xs
		if !reuse {
			ts = make([]mat.Tensor, len(n.xs))
			for i, x := range n.xs {
				ts[i] = dt.mk(dt.quantM(x), !n.noGrad[i])
			}
		}
		ys := n.fwd(append([]mat.Tensor(nil), ts...)...)
		if n.skipGrad {
			return
		}
		var roots []mat.Tensor
		seen := map[mat.Tensor]bool{}
		for _, y := range ys {
			if isOperator(y) && y.RequiresGrad() && !seen[y] {
				seen[y] = true
				s := y.Value().Shape()
				y.AccGrad(dt.mk(newM(s[0], s[1]).mapf(func(float64) float64 { return 1e-3 }), false))
				roots = append(roots, y)
			}
		}
		if err := ag.Backward(roots...); err != nil {
			panic(err)
		}
		if o != nil {
			if err := o.Optimize(); err != nil {
				panic(err)
			}
		}
		for _, x := range ts {
			x.ZeroGrad()
		}
	}
	grows(t, "growth:"+spec.name, fmt.Sprintf("%s %s", dt, n.desc), rounds, pass)
	runtime.KeepAlive(n)
	t.Seen("growth", spec.name, dt, n.desc)
}

var siteMemo = map[uintptr][2]bool{}

// profiledSite reports whether memory was allocated by the code of the library,
// rather than by the runtime (descriptors of goroutines and the like).
func profiledSite(stack []uintptr) bool {
	own := false
	for i, pc := range stack {
		m, ok := siteMemo[pc]
		if !ok {
			frames := runtime.CallersFrames([]uintptr{pc})
			for {
				f, more := frames.Next()
				m[0] = m[0] || strings.Contains(f.Function, "nlpodyssey/spago")
				m[1] = m[1] || f.Function == "runtime.malg" || f.Function == "runtime.newproc" || f.Function == "runtime.newproc1" || f.Function == "runtime.acquireSudog"
				if !more {
					break
				}
			}
			siteMemo[pc] = m
		}
		own = own || m[0]
		if i < 6 && m[1] {
			return false
		}
	}
	return own
}

// grows repeats a step and looks for something that never settles: objects (at
// least one for two repetitions) or bytes (at least one reference for two
// repetitions) that are added during each of several longer and longer windows.
// A leak shows in all of them, noise does not.
func grows(t *T, key, desc string, rounds int, pass func()) {
	old := runtime.MemProfileRate
	runtime.MemProfileRate = 1
	defer func() { runtime.MemProfileRate = old }()
	heap := func() (int64, int64) {
		runtime.GC()
		runtime.GC()
		runtime.GC()
		var recs []runtime.MemProfileRecord
		for n, ok := runtime.MemProfile(nil, false); !ok; {
			recs = make([]runtime.MemProfileRecord, n+100)
			n, ok = runtime.MemProfile(recs, false)
			recs = recs[:min(n, len(recs))]
		}
		var objects, bytes int64
		for _, r := range recs {
			if profiledSite(r.Stack()) {
				objects += r.InUseObjects()
				bytes += r.InUseBytes()
			}
		}
		return objects, bytes
	}
	run := func(k int) {
		for i := 0; i < k; i++ {
			pass()
		}
	}
	run(rounds)
	var objects, bytes []int64
	o0, b0 := heap()
	total, w, bad := rounds, 0, 0
	for ; w < 6; w++ { // the number of repetitions doubles in each window
		run(total)
		o1, b1 := heap()
		objects, bytes = append(objects, o1-o0), append(bytes, b1-b0)
		o0, b0 = o1, b1
		if objects[w] < int64(total)/2 && bytes[w] < int64(total)*4 {
			if bad++; bad > 1 { // reallocations may be late
				break
			}
		}
		total *= 2
	}
	t.Check(bad > 1, key, "%s: repetitions keep adding objects to the heap: from %d repetitions on, doubling, by %v objects, %v bytes", desc, rounds, objects, bytes)
	t.Event("repeated passes", total)
	t.Checked(1)
	t.Sample("%s: %d repetitions, objects %v, bytes %v", desc, total, objects, bytes)
}

// embedPass evaluates looked-up embeddings once.
func embedPass(t *T, m *embedding.Model, dt dtype, o *optimizers.Optimizer, watch *[]mat.Tensor) {
	idx := make([]int, t.R.Range(1, 6))
	for i := range idx {
		idx[i] = t.R.Intn(m.Size)
	}
	es := m.MustEncode(idx)
	if t.R.Bool() {
		e, err := m.Embedding(idx[0])
		if err != nil {
			panic(err)
		}
		es = append(es, e)
	}
	y := ag.Tanh(ag.Sum(es...))
	if watch != nil {
		*watch = append(append(*watch, es...), y, y.Value())
	}
	if t.R.P(0.8) {
		y.AccGrad(dt.mk(newM(m.Dim, 1).mapf(func(float64) float64 { return 1e-3 }), false))
		if err := ag.Backward(y); err != nil {
			panic(err)
		}
	}
	switch t.R.Intn(4) {
	case 0:
		if err := o.Optimize(); err != nil {
			panic(err)
		}
	case 1:
		nn.ZeroGrad(m)
	case 2:
		m.ZeroGrad()
	case 3:
		for _, p := range m.Weights {
			p.ZeroGrad()
		}
	}
}

func init() {
	register(&Property{
		ID:    "P30",
		Rule:  "weak pointers to the inputs, outputs and output values of finished passes (every operator, every layer, forward only or with back-propagation and optimisation) are all cleared by garbage collections while the models stay in use; over thousands of repeated passes of one model, the number of heap objects does not keep growing",
		Level: "real code under monitors",
		Phases: []Phase{
			{Name: "released", Shards: 8, Run: func(c *C) {
				for _, s := range allSpecs() {
					for _, dt := range []dtype{f32, f64} {
						for i := 0; i < c.N(75, 800); i++ {
							c.Case(fmt.Sprintf("%s/%s/%d", s.name, dt, i), func(t *T) {
								n := s.gen(t, dt)
								if n == nil {
									return
								}
								n.pscale = max(n.pscale, 1)
								if !n.keepParams {
									for _, p := range n.params {
										sh := p.Value().Shape()
										setParam(p, dt.quantM(t.randM(sh[0], sh[1], -n.pscale, n.pscale)), dt)
									}
								}
								releaseCase(t, s.name, dt, t.R.Range(1, 6), func() (any, []mat.Tensor) { return layerPass(t, n, dt) })
							})
						}
					}
				}
			}, MinEvents: map[string]int64{"tensors released": 5000}},
			{Name: "operators", Shards: 8, Run: func(c *C) {
				for _, spec := range opSpecs {
					for _, dt := range []dtype{f32, f64} {
						for i := 0; i < c.N(45, 500); i++ {
							c.Case(fmt.Sprintf("%s/%s/%d", spec.name, dt, i), func(t *T) {
								releaseCase(t, spec.name, dt, 3, func() (any, []mat.Tensor) {
									s := &single{t: t, dt: dt, dup: 0.1}
									in := spec.gen(s.G())
									var watch []mat.Tensor
									p := nn.NewParam(dt.mk(t.randM(1, 1, 1, 2), false).(mat.Matrix)) // remains
									ts := make([]mat.Tensor, len(in.args))
									all := make([]mat.Tensor, len(s.leaves))
									for i, l := range s.leaves {
										all[i] = dt.mk(l.v, true)
										watch = append(watch, all[i])
									}
									for i, a := range in.args {
										ts[i] = all[a]
									}
									y := in.build(ts)
									z := ag.Prod(ag.ReduceSum(y), p)
									watch = append(watch, y, z, z.Value())
									if t.R.P(0.8) {
										if err := ag.Backward(z); err != nil {
											panic(err)
										}
									}
									return p, watch
								})
							})
						}
					}
				}
			}, MinEvents: map[string]int64{"tensors released": 5000}},
			{Name: "embeddings", Shards: 8, Run: func(c *C) {
				for i := 0; i < c.N(150, 4000); i++ {
					c.Case(fmt.Sprint(i), func(t *T) {
						dt := f32
						m := embedding.New[float32](t.R.Range(1, 20), t.R.Range(1, 4))
						if t.R.Bool() {
							dt, m = f64, embedding.New[float64](m.Size, m.Dim)
						}
						o := optimizers.New(nn.Parameters(m), strategies[t.R.Intn(len(strategies))].mk(dt))
						if i%5 == 0 {
							grows(t, "growth:embeddings", fmt.Sprintf("%s embeddings %dx%d", dt, m.Size, m.Dim), t.N(50, 1000), func() { embedPass(t, m, dt, o, nil) })
							runtime.KeepAlive(m)
							return
						}
						releaseCase(t, "embeddings", dt, t.R.Range(1, 6), func() (keep any, watch []mat.Tensor) {
							embedPass(t, m, dt, o, &watch)
							return m, watch
						})
					})
				}
			}, MinEvents: map[string]int64{"tensors released": 500, "repeated passes": 2000}},
			{Name: "growth", Shards: 8, Run: func(c *C) {
				for _, s := range allSpecs() {
					for _, dt := range []dtype{f32, f64} {
						for i := 0; i < c.N(1, 20); i++ {
							c.Case(fmt.Sprintf("%s/%s/%d", s.name, dt, i), func(t *T) { layerGrowth(t, s, dt, t.N(30, 400)) })
						}
					}
				}
			}, MinEvents: map[string]int64{"repeated passes": 2000}},
		},
	})
	register(&Property{
		ID:    "P31",
		Boost: 4,
		Rule:  "a layer is first used: one to four passes with other parameter values (replaced, set by element, in place, as data, moved by a step of any optimiser) and other inputs (the same tensors with other contents included), each compared with the reference; then values and gradients are compared with the reference and finite differences as for a fresh layer",
		Level: "real code under monitors",
		Phases: []Phase{
			{Name: "used", Shards: 8, Run: func(c *C) {
				for _, s := range allSpecs() {
					for _, dt := range []dtype{f32, f64} {
						for i := 0; i < c.N(120, 4000); i++ {
							c.Case(fmt.Sprintf("%s/%s/%d", s.name, dt, i), func(t *T) { netCase(t, s, dt, used) })
						}
					}
				}
			}, MinEvents: map[string]int64{"uses before": 5000, "optimisation steps": 500, "tensors used again": 500, "gradients": 5000}},
		},
	})
}

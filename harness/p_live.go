package main

import (
	"fmt"
	"math"
	"runtime"
	"sync"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
)

// operandsAreOperators applies an operator to operands that are themselves
// operators requiring gradients (hyperparameters included): the operator must
// not leave any of them waiting.
func operandsAreOperators(t *T, spec OpSpec, dt dtype) {
	base := runtime.NumGoroutine()
	s := &single{t: t, dt: dt}
	in := spec.gen(s.G())
	key := "live:" + spec.name
	xs := make([]mat.Tensor, len(s.leaves))
	for i, l := range s.leaves {
		l.grad = t.R.P(0.85)
		l.t = dt.mk(l.v, l.grad)
		xs[i] = l.t
		for k := t.R.Intn(3); k > 0; k-- {
			xs[i] = ag.Copy(xs[i])
		}
	}
	ts := make([]mat.Tensor, len(in.args))
	for i, a := range in.args {
		ts[i] = xs[a]
	}
	y := in.build(ts)
	if y.RequiresGrad() && !y.HasGrad() {
		v := y.Value()
		y.AccGrad(dt.mk(dt.quantM(t.randM(v.Shape()[0], v.Shape()[1], -1, 1)), false))
	}
	outs := []mat.Tensor{y}
	if t.R.P(0.3) { // an operand is an output too
		for _, x := range xs {
			if _, ok := x.(*ag.Operator); ok && x.Value().Size() == 1 {
				outs = append(outs, x)
			}
		}
	}
	err := ag.Backward(outs...) // a wait without end is reported by the runtime
	t.Check(err == nil || !y.RequiresGrad(), key, "%s: %v", instDesc(in, nil), err)
	for i, x := range xs {
		if _, ok := x.(*ag.Operator); ok {
			x.Grad() // must not wait either
			t.Event("operands_released", 1)
		}
		l := s.leaves[i]
		t.Check(l.grad || !l.t.HasGrad() || xs[i] == mat.Tensor(l.t), key, "%s: operand #%d received a gradient it does not require", instDesc(in, nil), i)
	}
	if d := leakedGoroutines(base); d != "" {
		t.Fail(key, "goroutines left behind:\n%s", d)
	}
	t.Seen(spec.name, dt, in.desc, shapeSig(in, s.leaves), len(outs))
}

// errorCase: a call that is refused must leave everything as it was.
func errorCase(t *T) {
	g := newGraph(t.R, t.R.Pick(3, 8, 20), t.R.P(0.3))
	if !g.exact() {
		return
	}
	base := runtime.NumGoroutine()
	key := "error"
	g.build()
	var bad, good []int
	for _, n := range g.nodes {
		if n.leaf {
			continue
		}
		if n.val.size() != 1 && n.req {
			bad = append(bad, n.id)
		} else if n.val.size() == 1 {
			good = append(good, n.id)
		}
	}
	if len(bad) == 0 {
		return
	}
	// some outputs are fine (scalars, or with gradients assigned), some lack theirs
	outs := []int{bad[t.R.Intn(len(bad))]}
	missing := map[int]bool{outs[0]: true}
	for i := t.R.Intn(3); i > 0; i-- {
		if len(good) > 0 && t.R.Bool() {
			outs = append(outs, good[t.R.Intn(len(good))])
			continue
		}
		id := bad[t.R.Intn(len(bad))]
		outs = append(outs, id)
		if n := g.at(id); !missing[id] && n.g == nil {
			n.g = n.val.mapf(func(float64) float64 { return float64(t.R.Range(-2, 2)) })
			n.t.AccGrad(f64.mk(n.g, false))
		}
	}
	p := t.R.Perm(len(outs))
	shuf := make([]int, len(outs))
	for i, j := range p {
		shuf[i] = outs[j]
	}
	outs = shuf
	for k := t.R.Range(1, 2); k > 0; k-- {
		err := ag.Backward(g.tensors(outs)...)
		if !t.Check(err != nil, key, "%s\nBackward(%v): no error although #%v lacks its gradient", g, outs, missing) {
			return
		}
		t.Event("errors_observed", 1)
		// nothing was propagated
		for _, e := range g.tr.ev {
			if e.kind == evBackward {
				t.Fail(key, "%s\nBackward(%v) failed, but operator #%d propagated", g, outs, e.node)
			}
		}
		g.checkState(t, key, "after a refused Backward")
	}
	g.tr.ev = nil
	// the same tensors work once the gradient is supplied
	for id := range missing {
		n := g.at(id)
		n.g = n.val.mapf(func(float64) float64 { return float64(t.R.Range(-2, 2)) })
		n.t.AccGrad(f64.mk(n.g, false))
	}
	got := g.modelPass(outs)
	if !g.exact() {
		return
	}
	if err := ag.Backward(g.tensors(outs)...); err != nil {
		t.Fail(key, "%s\nBackward(%v) after the error: %v", g, outs, err)
		return
	}
	g.checkTrace(t, key, got, outs)
	g.checkState(t, key, "in the call after the error")
	if d := leakedGoroutines(base); d != "" {
		t.Fail(key, "goroutines left behind:\n%s", d)
	}
	t.Seen(g.String(), fmt.Sprint(outs))
}

// trivialCases: calls with nothing to do return at once.
func trivialCases(t *T) {
	base := runtime.NumGoroutine()
	x := f64.mk(mOf(2, 1, 1, 2), true)
	z := f64.mk(scalarM(3), false)
	for name, f := range map[string]func() error{
		"no tensors":      func() error { return ag.Backward() },
		"leaves only":     func() error { return ag.Backward(x, z) },
		"nothing to do":   func() error { return ag.Backward(ag.Add(z, z)) },
		"blocked":         func() error { return ag.Backward(ag.StopGrad(ag.ReduceSum(x))) },
		"blocked inside":  func() error { return ag.Backward(ag.ReduceSum(ag.StopGrad(ag.Square(x)))) },
		"leaf and scalar": func() error { return ag.Backward(z, ag.Square(z)) },
	} {
		t.Check(f() == nil, "trivial", "%s: error", name)
		t.Check(!x.HasGrad(), "trivial", "%s: gradient on a leaf", name)
	}
	t.Check(leakedGoroutines(base) == "", "trivial", "goroutines left behind")
	t.Seen("trivial")
}

// ------------------------------------------------------------- concurrency

// concurrentCase: many goroutines build, evaluate and back-propagate graphs of
// their own over shared leaves. No monitor adds synchronisation here: the
// race detector must see the library's own.
func concurrentCase(t *T, workers, iters int) {
	base := runtime.NumGoroutine()
	r, c := t.R.Range(1, 4), t.R.Range(1, 4)
	if t.R.P(0.1) {
		r, c = t.R.Range(5, 24), t.R.Range(5, 24)
	}
	ints := func(r, c int) *M {
		return randM(t.R, r, c, -3, 3).mapf(func(x float64) float64 { return float64(int(x)) })
	}
	w := nn.NewParam(f64.mk(ints(r, c), false))
	b := nn.NewParam(f64.mk(ints(r, 1), false))
	s := f64.mk(scalarM(float64(t.R.Range(1, 3))), true)
	shared := f64.mk(ints(c, 1), true)
	wv, bv, sv, shv := toM(w), toM(b), toM(s), toM(shared)
	type job struct {
		x    *M
		gy   *M
		mode int
		y    int
	}
	jobs := make([][]job, workers)
	wantW, wantB, wantS, wantSh := newM(r, c), newM(r, 1), newM(1, 1), newM(c, 1)
	for i := range jobs {
		for k := 0; k < iters; k++ {
			j := job{x: ints(c, 1), gy: ints(r, 1), mode: t.R.Intn(4), y: t.R.Pick(0, 0, 1, 3)}
			jobs[i] = append(jobs[i], j)
			x := j.x
			if j.mode == 1 {
				x = shv
			}
			// y = s * (W x + b), modes 2 and 3 use it twice
			k := 1.0
			if j.mode >= 2 {
				k = 2
			}
			pre := zip(mul(wv, x), bv, func(a, b float64) float64 { return a + b })
			for a := 0; a < r; a++ {
				wantB.v[a] += k * sv.v[0] * j.gy.v[a]
				wantS.v[0] += k * j.gy.v[a] * pre.v[a]
				for e := 0; e < c; e++ {
					wantW.v[a*c+e] += k * sv.v[0] * j.gy.v[a] * x.v[e]
					if j.mode == 1 {
						wantSh.v[e] += k * sv.v[0] * j.gy.v[a] * wv.at(a, e)
					}
				}
			}
		}
	}
	bad := make([]string, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range jobs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for _, j := range jobs[i] {
				pause(j.y)
				x := f64.mk(j.x, false)
				xv := j.x
				var xt mat.Tensor = x
				if j.mode == 1 {
					xt, xv = shared, shv
				}
				y := ag.ProdScalar(ag.Affine(b, w, xt), s)
				want := zip(mul(wv, xv), bv, func(a, b float64) float64 { return sv.v[0] * (a + b) })
				if j.mode >= 2 {
					y = ag.Add(y, y)
					want = want.mapf(func(x float64) float64 { return 2 * x })
				}
				if j.mode == 3 { // several readers of one asynchronous value
					var rg sync.WaitGroup
					for k := 0; k < 3; k++ {
						rg.Add(1)
						go func() {
							defer rg.Done()
							if v := y.Value(); v == nil {
								panic("nil value")
							}
							y.RequiresGrad()
							y.Shape()
						}()
					}
					rg.Wait()
				}
				if got := toM(y.Value()); !sameM2(got, want) {
					bad[i] = fmt.Sprintf("value %v, want %v", got, want)
					return
				}
				y.AccGrad(f64.mk(j.gy, false))
				if err := ag.Backward(y); err != nil {
					bad[i] = err.Error()
					return
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	for _, m := range bad {
		t.Check(m == "", "concurrent", "%s", m)
	}
	for _, q := range []struct {
		name string
		got  mat.Tensor
		want *M
	}{{"W", w, wantW}, {"b", b, wantB}, {"s", s, wantS}, {"x", shared, wantSh}} {
		msg := equalG(gradOf(q.got), q.want)
		t.Check(msg == "", "concurrent", "%d goroutines × %d passes: sum of the gradients on %s: %s", workers, iters, q.name, msg)
	}
	t.Event("concurrent_passes", workers*iters)
	if d := leakedGoroutines(base); d != "" {
		t.Fail("concurrent", "goroutines left behind:\n%s", d)
	}
	t.Seen(workers, iters, r, c, fmt.Sprint(jobs[0][0].x.v, jobs[0][0].gy.v))
}

// accGradCase: direct concurrent accumulation on leaves, parameters and
// operators, with concurrent readers.
func accGradCase(t *T) {
	r, c := t.R.Range(1, 3), t.R.Range(1, 20)
	if t.R.P(0.15) {
		c = t.R.Range(60, 500)
	}
	v := newM(r, c)
	targets := []mat.Tensor{f64.mk(v, true), nn.NewParam(f64.mk(v, false)), f32.mk(v, true), ag.Copy(f64.mk(v, true)), ag.Add(f64.mk(v, true), f64.mk(v, true))}
	workers, iters := t.R.Range(2, 8), t.R.Range(1, 30)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < iters; k++ {
				for _, tg := range targets {
					m := v.mapf(func(float64) float64 { return float64(i + 1) })
					if dtypeOf(tg.Value()) == f32 {
						tg.AccGrad(f32.mk(m, false))
					} else {
						tg.AccGrad(f64.mk(m, false))
					}
					tg.HasGrad()
				}
			}
		}(i)
	}
	wg.Wait()
	want := v.mapf(func(float64) float64 { return float64(iters * workers * (workers + 1) / 2) })
	for i, tg := range targets {
		msg := equalG(gradOf(tg), want)
		t.Check(msg == "", "accgrad", "target %d, %d goroutines × %d contributions: %s", i, workers, iters, msg)
	}
	t.Event("contributions", workers*iters*len(targets))
	t.Seen(r, c, workers, iters)
}

// asyncCase: the same program evaluated asynchronously and synchronously.
func asyncCase(t *T, size int) {
	seed := t.R.U64()
	type out struct{ vals, grads []*M }
	run := func(sync bool) (o out, g *graph, ok bool) {
		ag.SetForceSyncExecution(sync)
		defer ag.SetForceSyncExecution(false)
		g = newGraph(NewRng(seed), size, false)
		if !g.exact() {
			return o, g, false
		}
		g.build()
		for _, n := range g.nodes {
			o.vals = append(o.vals, toM(n.t.Value()))
		}
		outs := g.outputs(true)
		g.modelPass(outs)
		if !g.exact() {
			return o, g, false
		}
		if err := ag.Backward(g.tensors(outs)...); err != nil {
			t.Fail("async", "%v", err)
		}
		for _, n := range g.nodes {
			o.grads = append(o.grads, gradOf(n.t))
		}
		return o, g, true
	}
	a, g, ok := run(false)
	if !ok {
		return
	}
	b, _, _ := run(true)
	for i := range a.vals {
		t.Check(sameM2(a.vals[i], b.vals[i]) && sameM2(a.vals[i], g.at(i).val), "async", "%s\nvalue of #%d: %v asynchronously, %v synchronously", g, i, a.vals[i], b.vals[i])
		msg := equalG(a.grads[i], b.grads[i])
		t.Check(msg == "", "async", "%s\ngradient of #%d, asynchronous against synchronous: %s", g, i, msg)
		if m := equalG(a.grads[i], g.at(i).g); m != "" {
			t.Fail("async", "%s\ngradient of #%d: %s", g, i, m)
		}
	}
	t.Event("operators_compared", len(a.vals))
	t.Seen(g.String())
}

// wideAsync: more asynchronous operators in flight than the library allows to
// run at once, each waiting for its operands, read from many goroutines.
func wideAsync(t *T) {
	n := t.R.Range(20, 200)
	x := f64.mk(scalarM(1), true)
	var layer []mat.Tensor
	for i := 0; i < n; i++ {
		layer = append(layer, ag.Add(x, x))
	}
	depth := t.R.Range(1, 8)
	for d := 0; d < depth; d++ {
		next := make([]mat.Tensor, n)
		for i := range next {
			next[i] = ag.Add(layer[i], layer[(i*7+d)%n])
		}
		layer = next
	}
	var wg sync.WaitGroup
	want := float64(int(2) << depth)
	bad := ""
	var mu sync.Mutex
	for i := range layer {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if v := layer[i].Item().F64(); v != want {
				mu.Lock()
				bad = fmt.Sprint(v)
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()
	t.Check(bad == "", "wide", "value %s, want %g", bad, want)
	if err := ag.Backward(layer...); err != nil {
		t.Fail("wide", "%v", err)
		return
	}
	msg := equalG(gradOf(x), scalarM(float64(n)*want))
	t.Check(msg == "", "wide", "%d outputs of depth %d: %s", n, depth, msg)
	t.Seen(n, depth)
	t.Event("operators_compared", n*depth)
}

// largeCase differentiates graphs of many operators made of long chains,
// diamonds with branches of different lengths, and fans: all linear, and exact.
func largeCase(t *T, budget int) {
	base := runtime.NumGoroutine()
	x := mat.Scalar(1.0, mat.WithGrad(true))
	half, two := mat.Scalar(0.5), mat.Scalar(2.0)
	type node struct {
		t mat.Tensor
		c float64 // derivative with respect to x, and value
	}
	ops := 0
	desc := ""
	step := func(n node) node {
		ops++
		switch t.R.Intn(4) {
		case 0:
			return node{ag.Copy(n.t), n.c}
		case 1:
			return node{ag.ReduceSum(n.t), n.c}
		}
		return node{ag.Neg(n.t), -n.c}
	}
	chain := func(n node, k int) node {
		for ; k > 0; k-- {
			n = step(n)
		}
		return n
	}
	norm := func(n node) node { // keep the numbers representable
		for math.Abs(n.c) > 1<<20 {
			n = node{ag.ProdScalar(n.t, half), n.c / 2}
			ops++
		}
		if n.c == 0 {
			n = node{ag.Add(n.t, x), 1}
			ops++
		}
		return n
	}
	join := func(a, b node) node {
		ops++
		switch t.R.Intn(3) {
		case 0:
			return norm(node{ag.Sub(a.t, b.t), a.c - b.c})
		case 1:
			return norm(node{ag.ReduceSum(ag.Concat(a.t, b.t)), a.c + b.c})
		}
		return norm(node{ag.Add(a.t, b.t), a.c + b.c})
	}
	n := node{x, 1}
	var roots []node
	for ops < budget {
		k := t.R.Range(1, max(2, budget/t.R.Pick(1, 2, 4, 20)))
		switch t.R.Intn(5) {
		case 0:
			n = chain(n, k)
			desc += fmt.Sprintf(" chain %d", k)
		case 1: // a diamond: one branch may be as short as nothing
			short := t.R.Pick(0, 1, 2, k/2)
			a, b := n, n
			if t.R.Bool() {
				a, b = chain(a, short), chain(b, k)
			} else {
				a, b = chain(a, k), chain(b, short)
			}
			n = join(a, b)
			desc += fmt.Sprintf(" diamond %d,%d", short, k)
		case 2: // a fan
			w, l := t.R.Range(2, 200), t.R.Range(1, 20)
			if t.R.P(0.2) {
				w, l = t.R.Range(100, 500), t.R.Range(1, 2)
			}
			w = max(2, min(w, (budget-ops)/l))
			all := make([]mat.Tensor, w)
			sum := 0.0
			for i := range all {
				b := chain(n, l)
				all[i], sum = b.t, sum+b.c
			}
			ops++
			if t.R.Bool() {
				n = norm(node{ag.Sum(all...), sum})
			} else {
				n = norm(node{ag.ReduceSum(ag.Concat(all...)), sum})
			}
			desc += fmt.Sprintf(" fan %dx%d", w, l)
		case 3: // doubling
			for i := t.R.Range(1, 60); i > 0; i-- {
				n = norm(node{ag.Add(n.t, n.t), 2 * n.c})
				ops++
			}
			desc += " doubling"
		case 4:
			if isOperator(n.t) && len(roots) < 3 {
				roots = append(roots, n)
				desc += " root"
			}
			n = norm(node{ag.ProdScalar(n.t, two), 2 * n.c})
			ops++
		}
	}
	roots = append(roots, n)
	want, scale := 0.0, 0.0
	var outs []mat.Tensor
	for _, i := range t.R.Perm(len(roots)) {
		outs = append(outs, roots[i].t)
		want += roots[i].c
		scale += math.Abs(roots[i].c)
		if v := roots[i].t.Value().Item().F64(); !t.Check(math.Abs(v-roots[i].c) <= 1e-9*math.Abs(roots[i].c), "large:value", "%s: value %g, want %g", desc, v, roots[i].c) {
			return
		}
	}
	// outputs that are operands of others receive the gradients of both
	for _, o := range outs {
		o.AccGrad(mat.Scalar(1.0))
	}
	if err := ag.Backward(outs...); err != nil {
		t.Fail("large", "%s: %v", desc, err)
		return
	}
	if !t.Check(x.HasGrad(), "large", "%d operators (%s): no gradient", ops, desc) {
		return
	}
	g := x.Grad().Item().F64()
	t.Check(math.Abs(g-want) <= 1e-9*scale, "large", "%d operators (%s): gradient %g, want %g", ops, desc, g, want)
	if d := leakedGoroutines(base); d != "" {
		t.Fail("large", "goroutines left behind:\n%s", limit(d, 3000))
	}
	t.Event("large_operators", ops)
	t.Seen(ops, desc)
	t.Sample("%d operators:%s", ops, desc)
}

func init() {
	live := func(name, variant string, shards, q, th int) Phase {
		return Phase{Name: name, Variant: variant, Shards: shards, MinEvents: map[string]int64{"operands_released": 500}, Run: func(c *C) {
			for _, spec := range opSpecs {
				for _, dt := range []dtype{f64, f32} {
					c.Case(spec.name+"/"+string(dt), func(t *T) {
						for i := 0; i < t.N(q, th) && !t.Failed(); i++ {
							operandsAreOperators(t, spec, dt)
						}
					})
				}
			}
		}}
	}
	register(&Property{
		ID:    "P03",
		Boost: 6,
		Rule: "cases: (a) every operator applied to operands that are operators requiring gradients, hyperparameters included; (b) random graphs in which functions withhold gradients from some operands, with nested and repeated outputs; (c) calls that must be refused for a missing output gradient, followed by a correct call; " +
			"observed: completion (the runtime's deadlock report, goroutine dumps), goroutines left behind, all gradients; distinct = graph or operator instance",
		Phases: []Phase{
			live("operands", "plain", 4, 60, 800),
			live("operands-race", "race", 2, 8, 100),
			{Name: "withheld", Shards: 4, MinEvents: map[string]int64{"passes": 500}, Run: func(c *C) {
				for b := 0; b < c.N(800, 10000); b++ {
					c.Case(fmt.Sprint(b), func(t *T) {
						old := runtime.GOMAXPROCS([]int{8, 1, 3}[b%3])
						defer runtime.GOMAXPROCS(old)
						for i := 0; i < 20 && !t.Failed(); i++ {
							graphCase(t, "withheld", t.R.Pick(3, 8, 20, 40), true)
						}
					})
				}
			}},
			{Name: "large", Shards: 4, MinEvents: map[string]int64{"large_operators": 100000}, Run: func(c *C) {
				for b := 0; b < c.N(20, 1500); b++ {
					c.Case(fmt.Sprint(b), func(t *T) {
						old := runtime.GOMAXPROCS([]int{8, 1, 3}[b%3])
						defer runtime.GOMAXPROCS(old)
						largeCase(t, t.R.Pick(50, 500, 3000, 12000, t.N(30000, 200000)))
					})
				}
			}},
			{Name: "errors", Shards: 4, MinEvents: map[string]int64{"errors_observed": 300}, Run: func(c *C) {
				c.Case("trivial", trivialCases)
				for b := 0; b < c.N(400, 6000); b++ {
					c.Case(fmt.Sprint(b), func(t *T) {
						for i := 0; i < 20 && !t.Failed(); i++ {
							errorCase(t)
						}
					})
				}
			}},
		},
	})

	conc := func(name, variant string, shards, q, th int) Phase {
		return Phase{Name: name, Variant: variant, Shards: shards, MinEvents: map[string]int64{"concurrent_passes": 2000, "contributions": 1000, "operators_compared": 1000}, Run: func(c *C) {
			for b := 0; b < c.N(q, th); b++ {
				c.Case(fmt.Sprintf("shared/%d", b), func(t *T) {
					old := runtime.GOMAXPROCS([]int{8, 4, 2, 16}[b%4])
					defer runtime.GOMAXPROCS(old)
					for i := 0; i < 4 && !t.Failed(); i++ {
						concurrentCase(t, t.R.Range(2, 12), t.R.Range(2, 25))
					}
				})
				c.Case(fmt.Sprintf("acc/%d", b), func(t *T) {
					for i := 0; i < 4 && !t.Failed(); i++ {
						accGradCase(t)
					}
				})
				c.Case(fmt.Sprintf("async/%d", b), func(t *T) {
					for i := 0; i < 6 && !t.Failed(); i++ {
						asyncCase(t, t.R.Pick(5, 20, 60))
					}
					wideAsync(t)
				})
			}
		}}
	}
	register(&Property{
		ID:    "P04",
		Boost: 4,
		Rule:  "a case runs 2 to 12 goroutines that build, evaluate (asynchronous operators included), read and back-propagate graphs over shared parameters with integer data, or accumulate gradients directly, under varying GOMAXPROCS, in a plain build and under the race detector; the accumulated sums are compared exactly, asynchronous with synchronous evaluation too; distinct = generated workload",
		Phases: []Phase{
			conc("plain", "plain", 2, 60, 1500),
			conc("race", "race", 4, 60, 1500),
		},
	})
}

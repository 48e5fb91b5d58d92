package main

import (
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
)

// The graph monitor: integer-valued graphs in which part of the operators are
// monitored functions that record every gradient delivery, next to a model
// that computes what each pass must deliver. All values are integers small
// enough for float64 arithmetic to be exact, whatever the order of the sums.

type evKind int

const (
	evForward evKind = iota
	evDeliver        // about to add a gradient to an operand
	evBackward
	evBackwardDone
)

type event struct {
	kind evKind
	node int
	arg  int
	g    *M // evBackward: the gradient received
}

// trace is the event log of one graph.
type trace struct {
	mu sync.Mutex
	ev []event
}

func (tr *trace) add(e event) {
	tr.mu.Lock()
	tr.ev = append(tr.ev, e)
	tr.mu.Unlock()
}

// monFn is a monitored linear or bilinear function.
type monFn struct {
	id    int
	xs    []mat.Tensor
	coef  []float64
	tr    *trace
	mute  []bool // operands the function gives no gradients
	yield int    // scheduling points inserted
	block []bool // operands wrapped by StopGrad: still receive AccGrad calls, which must be ignored
}

func pause(n int) {
	for i := 0; i < n; i++ {
		runtime.Gosched()
	}
}

func (f *monFn) Forward() (mat.Tensor, error) {
	f.tr.add(event{kind: evForward, node: f.id})
	pause(f.yield)
	var o *M
	for i, x := range f.xs {
		v := toM(x.Value()).mapf(func(v float64) float64 { return v * f.coef[i] })
		if o == nil {
			o = v
		} else {
			o = zip(o, v, func(a, b float64) float64 { return a + b })
		}
	}
	return f64.mk(o, false), nil
}

func (f *monFn) Operands() []mat.Tensor { return f.xs }

func (f *monFn) Backward(gy mat.Tensor) error {
	f.tr.add(event{kind: evBackward, node: f.id, g: toM(gy)})
	for i, x := range f.xs {
		pause(f.yield)
		if f.mute[i] || !(x.RequiresGrad() || f.block[i]) {
			continue
		}
		g := f64.mk(toM(gy).mapf(func(v float64) float64 { return v * f.coef[i] }), false)
		f.tr.add(event{kind: evDeliver, node: f.id, arg: i})
		x.AccGrad(g)
	}
	pause(f.yield)
	f.tr.add(event{kind: evBackwardDone, node: f.id})
	return nil
}

type gnode struct {
	id    int
	what  string
	args  []int
	stop  []bool // argument wrapped by StopGrad
	mute  []bool
	ref   func(xs []*M) *M
	relu  bool
	build func(xs []mat.Tensor) mat.Tensor
	mon   bool

	val  *M
	req  bool
	leaf bool
	t    mat.Tensor
	g    *M // model: accumulated gradient, nil if none
	deps int
	plan *gplan
}

// gplan is what varies between two builds of the same graph.
type gplan struct{ yield int }

type graph struct {
	r     *Rng
	nodes []*gnode
	tr    *trace
	muted bool // some functions give no gradients to some operands
	wide  bool // there is an operator of many operands
	huge  bool // of larger matrices
}

const maxExact = 1 << 48

func (g *graph) at(id int) *gnode { return g.nodes[id] }

// pick returns an existing node of that shape, or a new leaf.
func (g *graph) pick(r, c int, lim float64) int {
	for try := 0; try < 6; try++ {
		n := g.nodes[g.r.Intn(len(g.nodes))]
		if g.r.P(0.5) { // favour recent nodes: depth
			k := len(g.nodes)
			n = g.nodes[k-1-g.r.Intn(min(k, 4))]
		}
		if n.val.r == r && n.val.c == c && n.val.maxAbs() <= lim {
			return n.id
		}
	}
	return g.addLeaf(r, c)
}

func (g *graph) addLeaf(r, c int) int {
	v := newM(r, c)
	for i := range v.v {
		v.v[i] = float64(g.r.Range(-4, 4))
	}
	n := &gnode{id: len(g.nodes), what: "leaf", val: v, leaf: true, req: g.r.P(0.75)}
	g.nodes = append(g.nodes, n)
	return n.id
}

func (g *graph) add(n *gnode) {
	n.id = len(g.nodes)
	n.plan = &gplan{}
	xs := make([]*M, len(n.args))
	n.stop = make([]bool, len(n.args))
	if n.mute == nil {
		n.mute = make([]bool, len(n.args))
	}
	for i, a := range n.args {
		xs[i] = g.at(a).val
		n.stop[i] = g.r.P(0.06)
		n.req = n.req || (g.at(a).req && !n.stop[i])
	}
	n.val = n.ref(xs)
	g.nodes = append(g.nodes, n)
}

func (g *graph) shape() (int, int) {
	if g.huge {
		s := [][2]int{{9, 8}, {70, 1}, {1, 70}, {8, 10}, {17, 1}, {1, 1}}[g.r.Intn(6)]
		return s[0], s[1]
	}
	switch g.r.Intn(5) {
	case 0, 1:
		return 1, 1
	case 2:
		return g.r.Range(1, 3), 1
	case 3:
		return 1, g.r.Range(1, 3)
	}
	return g.r.Range(1, 3), g.r.Range(1, 3)
}

// arity draws the number of operands of a variadic operator: up to most, as a
// rule.
func (g *graph) arity(most int) int {
	if !g.wide && g.r.P(0.002) {
		g.wide = true
		return g.r.Pick(20, 70, 130, 150)
	}
	return g.r.Range(1, most)
}

// grow adds one operator.
func (g *graph) grow() {
	big := float64(maxExact)
	r, c := g.shape()
	if g.r.P(0.7) { // continue with an existing shape
		n := g.nodes[len(g.nodes)-1-g.r.Intn(min(len(g.nodes), 5))]
		r, c = n.val.r, n.val.c
	}
	switch k := g.r.Intn(16); k {
	case 0, 1, 2, 3, 4: // monitored linear combination
		n := &gnode{mon: true, what: "mon"}
		var coef []float64
		for i := g.arity(4); i > 0; i-- {
			n.args = append(n.args, g.pick(r, c, big))
			coef = append(coef, float64(g.r.Pick(-2, -1, 1, 1, 1, 2)))
			n.mute = append(n.mute, g.muted && g.r.P(0.2))
		}
		n.ref = func(xs []*M) *M {
			o := newM(xs[0].r, xs[0].c)
			for i, x := range xs {
				for j, v := range x.v {
					o.v[j] += v * coef[i]
				}
			}
			return o
		}
		n.build = func(xs []mat.Tensor) mat.Tensor {
			f := &monFn{id: n.id, xs: append([]mat.Tensor(nil), xs...), coef: coef, tr: g.tr, mute: n.mute, yield: n.plan.yield, block: n.stop}
			if n.plan.yield > 3 {
				return ag.NewOperator(f).Run(true)
			}
			return ag.NewOperator(f).Run()
		}
		g.add(n)
	case 5, 6:
		a, b := g.pick(r, c, big), g.pick(r, c, big)
		s := 1.0
		n := &gnode{what: "Add", args: []int{a, b}, build: func(xs []mat.Tensor) mat.Tensor { return ag.Add(xs[0], xs[1]) }}
		if k == 6 {
			s = -1
			n.what, n.build = "Sub", func(xs []mat.Tensor) mat.Tensor { return ag.Sub(xs[0], xs[1]) }
		}
		n.ref = func(xs []*M) *M { return zip(xs[0], xs[1], func(x, y float64) float64 { return x + s*y }) }
		g.add(n)
	case 7:
		a, b := g.pick(r, c, 1000), g.pick(r, c, 1000)
		g.add(&gnode{what: "Prod", args: []int{a, b}, build: func(xs []mat.Tensor) mat.Tensor { return ag.Prod(xs[0], xs[1]) },
			ref: func(xs []*M) *M { return zip(xs[0], xs[1], func(x, y float64) float64 { return x * y }) }})
	case 8:
		a := g.pick(r, c, big)
		g.add(&gnode{what: "ReduceSum", args: []int{a}, build: func(xs []mat.Tensor) mat.Tensor { return ag.ReduceSum(xs[0]) },
			ref: func(xs []*M) *M { return scalarM(xs[0].sum()) }})
	case 9:
		a := g.pick(r, c, big)
		g.add(&gnode{what: "T", args: []int{a}, build: func(xs []mat.Tensor) mat.Tensor { return ag.T(xs[0]) },
			ref: func(xs []*M) *M { return xs[0].t() }})
	case 10:
		a := g.pick(r, c, 1000)
		k := g.r.Pick(1, r)
		if g.huge {
			k = 1
		}
		b := g.pick(c, k, 1000)
		g.add(&gnode{what: "Mul", args: []int{a, b}, build: func(xs []mat.Tensor) mat.Tensor { return ag.Mul(xs[0], xs[1]) },
			ref: func(xs []*M) *M { return mul(xs[0], xs[1]) }})
	case 11:
		a, b := g.pick(r, c, 1000), g.pick(1, 1, 1000)
		g.add(&gnode{what: "ProdScalar", args: []int{a, b}, build: func(xs []mat.Tensor) mat.Tensor { return ag.ProdScalar(xs[0], xs[1]) },
			ref: func(xs []*M) *M { return xs[0].mapf(func(x float64) float64 { return x * xs[1].v[0] }) }})
	case 12: // (helpers that expand to several operators hide nodes: not here)
		a := g.pick(r, c, big)
		i := g.r.Intn(r)
		g.add(&gnode{what: fmt.Sprintf("RowView%d", i), args: []int{a}, build: func(xs []mat.Tensor) mat.Tensor { return ag.RowView(xs[0], i) },
			ref: func(xs []*M) *M { return refSlice(xs[0], i, 0, i+1, xs[0].c) }})
	case 13:
		n := &gnode{what: "Concat", build: func(xs []mat.Tensor) mat.Tensor { return ag.Concat(xs...) }, ref: refConcat}
		for i := g.arity(3); i > 0; i-- {
			if g.r.Bool() {
				n.args = append(n.args, g.pick(g.r.Range(1, 2), 1, big))
			} else {
				n.args = append(n.args, g.pick(1, g.r.Range(1, 2), big))
			}
		}
		g.add(n)
	case 14:
		a := g.pick(r, c, big)
		for _, v := range g.at(a).val.v {
			if v == 0 { // no derivative there
				return
			}
		}
		g.add(&gnode{what: "ReLU", relu: true, args: []int{a}, build: func(xs []mat.Tensor) mat.Tensor { return ag.ReLU(xs[0]) },
			ref: func(xs []*M) *M { return xs[0].mapf(func(x float64) float64 { return math.Max(0, x) }) }})
	case 15:
		if g.huge {
			return
		}
		m := g.r.Range(1, 3)
		b, w, x := g.pick(r, 1, big), g.pick(r, m, 1000), g.pick(m, 1, 1000)
		w2, x2 := g.pick(r, r, 1000), g.pick(r, 1, 1000)
		g.add(&gnode{what: "Affine", args: []int{b, w, x, w2, x2}, build: func(xs []mat.Tensor) mat.Tensor { return ag.Affine(xs[0], xs[1], xs[2], xs[3:]...) },
			ref: func(xs []*M) *M { return sumPair([]*M{xs[0], mul(xs[1], xs[2]), mul(xs[3], xs[4])}) }})
	}
}

func (g *graph) String() string {
	var b strings.Builder
	for _, n := range g.nodes {
		fmt.Fprintf(&b, "#%d=%s(", n.id, n.what)
		for i, a := range n.args {
			if i > 0 {
				b.WriteByte(',')
			}
			if n.stop[i] {
				b.WriteByte('!')
			}
			if n.mute[i] {
				b.WriteByte('-')
			}
			fmt.Fprintf(&b, "%d", a)
		}
		fmt.Fprintf(&b, ")%dx%d", n.val.r, n.val.c)
		if n.leaf && n.req {
			b.WriteByte('*')
		}
		b.WriteByte(' ')
	}
	return b.String()
}

func (g *graph) exact() bool {
	for _, n := range g.nodes {
		if n.val.maxAbs() > maxExact || (n.g != nil && n.g.maxAbs() > maxExact) {
			return false
		}
	}
	return true
}

// newGraph generates a graph of about n operators.
func newGraph(r *Rng, n int, muted bool) *graph {
	g := &graph{r: r, tr: &trace{}, muted: muted}
	if r.P(0.01) {
		g.huge = true
		g.wide = true // not both
		n = min(n, 10)
	}
	for i := r.Range(1, 4); i > 0; i-- {
		rr, c := g.shape()
		g.addLeaf(rr, c)
	}
	if r.P(0.15) { // doubling chain: exponentially many paths
		x := g.addLeaf(1, r.Range(1, 2))
		for i := r.Range(5, 30); i > 0; i-- {
			m := &gnode{what: "Add", args: []int{x, x}, build: func(xs []mat.Tensor) mat.Tensor { return ag.Add(xs[0], xs[1]) },
				ref: func(xs []*M) *M { return zip(xs[0], xs[1], func(x, y float64) float64 { return x + y }) }}
			g.add(m)
			x = m.id
		}
	}
	for i := 0; i < n; i++ {
		g.grow()
	}
	return g
}

// build makes the real tensors.
func (g *graph) build() {
	for _, n := range g.nodes {
		if n.leaf {
			if n.t == nil {
				switch {
				case g.r.P(0.3):
					n.t = nn.NewParam(f64.mk(n.val, false)).WithGrad(n.req)
				default:
					n.t = f64.mk(n.val, n.req)
				}
			}
			continue
		}
		n.plan.yield = g.r.Pick(0, 0, 0, 1, 2, 5, 12)
		xs := make([]mat.Tensor, len(n.args))
		for i, a := range n.args {
			xs[i] = g.at(a).t
			if n.stop[i] {
				xs[i] = ag.StopGrad(xs[i])
			}
		}
		n.t = n.build(xs)
		for i, a := range n.args { // the list of operands is the caller's: others next
			xs[i] = f64.mk(newM(g.at(a).val.r, g.at(a).val.c), true)
		}
	}
}

// vjp is the exact vector-Jacobian product of a multi-affine function with
// respect to argument i: unit differences.
func (n *gnode) vjp(xs []*M, i int, gy *M) *M {
	if n.relu {
		return zip(xs[0], gy, func(x, g float64) float64 {
			if x > 0 {
				return g
			}
			return 0
		})
	}
	ys := append([]*M{}, xs...)
	ys[i] = xs[i].clone()
	o := newM(xs[i].r, xs[i].c)
	base := n.val
	for k := range o.v {
		ys[i].v[k]++
		p := n.ref(ys)
		ys[i].v[k]--
		s := 0.0
		for j := range p.v {
			s += (p.v[j] - base.v[j]) * gy.v[j]
		}
		o.v[k] = s
	}
	return o
}

// modelPass computes what one call of Backward on the given outputs does to
// the gradients. It returns how often each operator propagates, and with
// which gradient.
func (g *graph) modelPass(outs []int) map[int]*M {
	in := map[int]bool{} // takes part
	var visit func(id int)
	visit = func(id int) {
		n := g.at(id)
		if n.leaf || !n.req || in[id] {
			return
		}
		in[id] = true
		for i, a := range n.args {
			if !n.stop[i] {
				visit(a)
			}
		}
	}
	for _, o := range outs {
		visit(o)
		n := g.at(o)
		if n.g == nil && !n.leaf {
			n.g = scalarM(1)
		}
	}
	got := map[int]*M{}
	for id := len(g.nodes) - 1; id >= 0; id-- {
		n := g.at(id)
		if !in[id] || n.g == nil {
			continue
		}
		got[id] = n.g.clone()
		xs := make([]*M, len(n.args))
		for i, a := range n.args {
			xs[i] = g.at(a).val
		}
		for i, a := range n.args {
			m := g.at(a)
			if n.stop[i] || n.mute[i] || !m.req {
				continue
			}
			c := n.vjp(xs, i, n.g)
			if m.g == nil {
				m.g = c
			} else {
				m.g = zip(m.g, c, func(a, b float64) float64 { return a + b })
			}
		}
	}
	return got
}

func gradOf(t mat.Tensor) *M {
	g := t.Grad()
	if isNilT(g) {
		return nil
	}
	return toM(g)
}

// equalG compares gradients; nil and zero are distinguished only if strict.
func equalG(got, want *M) string {
	if got == nil || want == nil {
		if (got == nil || got.maxAbs() == 0) && (want == nil || want.maxAbs() == 0) {
			return ""
		}
		return fmt.Sprintf("gradient %v, want %v", got, want)
	}
	return diffM(got, want, 0, 0)
}

// checkState compares all gradients with the model.
func (g *graph) checkState(t *T, key, when string) {
	for _, n := range g.nodes {
		msg := equalG(gradOf(n.t), n.g)
		if msg == "" && n.leaf && !n.req && n.t.HasGrad() {
			msg = "does not require gradients but received one"
		}
		t.Check(msg == "", key, "%s\n%s: node #%d (%s): %s", g, when, n.id, n.what, msg)
		if n.g != nil {
			t.Event("node_gradients_compared", 1)
		}
		if t.Failed() {
			return
		}
	}
}

// checkTrace checks the events of one pass: every monitored operator that must
// propagate does so exactly once, with the complete gradient, and only after
// all gradients due to it were sent.
func (g *graph) checkTrace(t *T, key string, got map[int]*M, outs []int) {
	count := map[int]int{}
	started := map[int]int{}
	for pos, e := range g.tr.ev {
		switch e.kind {
		case evBackward:
			count[e.node]++
			started[e.node] = pos
			want, ok := got[e.node]
			if !t.Check(ok, key, "%s\noperator #%d propagated gradients, but none were due", g, e.node) {
				return
			}
			msg := diffM(e.g, want, 0, 0)
			t.Check(msg == "", key, "%s\noperator #%d propagated an incomplete or wrong gradient (outputs %v): %s", g, e.node, outs, msg)
			t.Event("backward_calls_observed", 1)
		case evDeliver:
			a := g.at(e.node).args[e.arg]
			if g.at(a).mon && !g.at(e.node).stop[e.arg] {
				_, early := started[a]
				t.Check(!early, key, "%s\noperator #%d propagated before #%d had sent its gradient", g, a, e.node)
				t.Event("ordered_deliveries_observed", 1)
			}
		}
	}
	for id := range got {
		if g.at(id).mon {
			t.Check(count[id] == 1, key, "%s\noperator #%d propagated %d times in one pass, want once", g, id, count[id])
		}
	}
	g.tr.ev = nil
}

// outputs draws the tensors a pass starts from, and gives them gradients where
// needed.
func (g *graph) outputs(allowAuto bool) []int {
	var outs []int
	k := len(g.nodes)
	for i := g.r.Pick(1, 1, 1, 2, 3); i > 0; i-- {
		id := k - 1
		if g.r.P(0.5) {
			id = g.r.Intn(k)
		}
		if g.at(id).leaf {
			continue
		}
		outs = append(outs, id)
	}
	if len(outs) == 0 {
		for id := k - 1; id >= 0; id-- {
			if !g.at(id).leaf {
				outs = append(outs, id)
				break
			}
		}
	}
	for _, id := range outs {
		n := g.at(id)
		if n.val.size() != 1 && n.g == nil || g.r.P(0.3) {
			m := newM(n.val.r, n.val.c)
			for i := range m.v {
				m.v[i] = float64(g.r.Range(-3, 3))
			}
			n.t.AccGrad(f64.mk(m, false))
			if n.g == nil {
				n.g = m
			} else {
				n.g = zip(n.g, m, func(a, b float64) float64 { return a + b })
			}
		}
	}
	return outs
}

func (g *graph) tensors(ids []int) []mat.Tensor {
	var ts []mat.Tensor
	for _, id := range ids {
		ts = append(ts, g.at(id).t)
	}
	return ts
}

// graphCase runs a history of passes over one generated graph.
func graphCase(t *T, key string, size int, muted bool) {
	g := newGraph(t.R, size, muted)
	if !g.exact() {
		t.Event("skipped_too_large", 1)
		return
	}
	base := runtime.NumGoroutine()
	g.build()
	t.Sample("%s", g)
	for _, n := range g.nodes {
		v := toM(n.t.Value())
		t.Check(sameM2(v, n.val), key, "%s\nvalue of #%d: %v, want %v", g, n.id, v, n.val)
		t.Check(n.t.RequiresGrad() == n.req, key, "%s\n#%d.RequiresGrad() = %v", g, n.id, !n.req)
	}
	fw := map[int]int{}
	for _, e := range g.tr.ev {
		fw[e.node]++
	}
	for _, n := range g.nodes {
		if n.mon {
			t.Check(fw[n.id] == 1, key, "%s\n#%d evaluated %d times", g, n.id, fw[n.id])
		}
	}
	g.tr.ev = nil
	order := ""
	for pass := t.R.Pick(1, 1, 2, 3); pass > 0 && !t.Failed(); pass-- {
		outs := g.outputs(true)
		got := g.modelPass(outs)
		if !g.exact() {
			t.Event("skipped_too_large", 1)
			return
		}
		ts := g.tensors(outs)
		if t.R.P(0.1) { // tensors without history are ignored
			ts = append(ts, g.at(0).t)
			if !g.at(0).leaf {
				panic("node 0 is a leaf")
			}
		}
		if err := ag.Backward(ts...); err != nil {
			t.Fail(key, "%s\nBackward(%v): %v", g, outs, err)
			return
		}
		for _, e := range g.tr.ev {
			if e.kind == evBackward {
				order += fmt.Sprint(e.node, ",")
			}
		}
		g.checkTrace(t, key, got, outs)
		g.checkState(t, key, fmt.Sprintf("after Backward(%v)", outs))
		t.Event("passes", 1)
		switch t.R.Intn(3) {
		case 0: // forget everything
			for _, n := range g.nodes {
				n.t.ZeroGrad()
				n.g = nil
			}
		case 1: // same leaves, new graph
			for _, n := range g.nodes {
				if !n.leaf {
					n.t, n.g = nil, nil
				}
			}
			g.build()
			for _, n := range g.nodes {
				n.t.Value()
			}
			g.tr.ev = nil
		}
	}
	if d := leakedGoroutines(base); d != "" {
		t.Fail(key+":leak", "%s\ngoroutines left behind:\n%s", g, d)
	}
	t.Checked(1)
	t.Seen(g.String(), order)
}

func sameM2(a, b *M) bool { return diffM(a, b, 0, 0) == "" }

// operatorGraphCase: a graph over all differentiable operators, checked
// against reverse accumulation of finite-difference products.
func operatorGraphCase(t *T, size int) {
	type onode struct {
		in   *Inst
		val  *M
		t    mat.Tensor
		req  bool
		leaf bool
		g    *M
	}
	var nodes []*onode
	r := t.R
	G := &G{r: r, small: true}
	G.shape = func() (int, int) {
		if len(nodes) > 0 && r.P(0.7) {
			n := nodes[len(nodes)-1-r.Intn(min(len(nodes), 6))]
			return n.val.r, n.val.c
		}
		switch r.Intn(4) {
		case 0:
			return r.Range(1, 3), 1
		case 1:
			return 1, r.Range(1, 3)
		}
		return r.Range(1, 3), r.Range(1, 3)
	}
	G.operand = func(rr, c int, d dom) int {
		for try := 0; try < 8 && len(nodes) > 0; try++ {
			i := r.Intn(len(nodes))
			if r.P(0.5) {
				i = len(nodes) - 1 - r.Intn(min(len(nodes), 4))
			}
			if n := nodes[i]; n.val.r == rr && n.val.c == c && d.hasM(n.val) {
				return i
			}
		}
		m := newM(rr, c)
		for i := range m.v {
			m.v[i] = d.draw(r)
		}
		nodes = append(nodes, &onode{val: m, leaf: true, req: r.P(0.8)})
		nodes[len(nodes)-1].t = f64.mk(m, nodes[len(nodes)-1].req)
		return len(nodes) - 1
	}
	desc := ""
	for i := 0; i < size; i++ {
		in := opSpecs[r.Intn(len(opSpecs))].gen(G)
		xs := make([]*M, len(in.args))
		ts := make([]mat.Tensor, len(in.args))
		req := false
		for j, a := range in.args {
			xs[j], ts[j] = nodes[a].val, nodes[a].t
			req = req || nodes[a].req
		}
		if tieOps[in.op] { // not differentiable at ties
			tie := false
			for j := range xs {
				for k := 0; k < j; k++ {
					for e := range xs[j].v {
						tie = tie || xs[j].v[e] == xs[k].v[e]
					}
				}
			}
			if tie {
				continue
			}
		}
		v := in.ref(xs)
		y := in.build(ts)
		if _, ok := y.(*ag.Operator); !ok {
			continue // a helper returned its operand
		}
		dup := false
		for _, n := range nodes {
			dup = dup || n.t == y
		}
		if dup {
			continue
		}
		desc += fmt.Sprintf("#%d=%s%v ", len(nodes), in.op, in.args)
		nodes = append(nodes, &onode{in: in, val: v, t: y, req: req})
	}
	last := -1
	for i, n := range nodes {
		if !n.leaf && n.t.(*ag.Operator).RequiresGrad() {
			last = i
		}
	}
	if last < 0 {
		return
	}
	out := nodes[last]
	gy := t.randM(out.val.r, out.val.c, -1, 1)
	out.t.AccGrad(f64.mk(gy, false))
	out.g = gy
	for i := last; i >= 0; i-- {
		n := nodes[i]
		if n.leaf || n.g == nil || !n.req {
			continue
		}
		xs := make([]*M, len(n.in.args))
		for j, a := range n.in.args {
			xs[j] = nodes[a].val
		}
		for j, a := range n.in.args {
			if n.in.nodiff[j] || !nodes[a].req {
				continue
			}
			scale := n.g.maxAbs() // kinks are recognised relative to the gradient
			if scale == 0 {
				scale = 1
			}
			gx := gradFD(func(x *M) []float64 {
				ys := append([]*M{}, xs...)
				ys[j] = x
				return n.in.ref(ys).v
			}, xs[j], n.g.mapf(func(x float64) float64 { return x / scale }).v).mapf(func(x float64) float64 { return x * scale })
			if nodes[a].g == nil {
				nodes[a].g = gx
			} else {
				nodes[a].g = zip(nodes[a].g, gx, func(x, y float64) float64 { return x + y })
			}
		}
	}
	if err := ag.Backward(out.t); err != nil {
		t.Fail("dag:operators", "%s\n%v", desc, err)
		return
	}
	for i, n := range nodes {
		if !n.leaf || n.g == nil {
			continue
		}
		bad := false
		for _, x := range n.g.v {
			bad = bad || math.Abs(x) > 1e6
		}
		if bad {
			t.Event("skipped_too_large", 1)
			continue
		}
		msg := checkLeafGrad(&leaf{v: n.val, t: n.t.(mat.Matrix)}, n.g, 2e-4)
		t.Check(msg == "", "dag:operators", "%s\nleaf #%d=%v: %s", desc, i, n.val, msg)
		t.Event("leaf_gradients_compared", 1)
	}
	t.Sample("%s", desc)
	t.Seen(desc)
}

func init() {
	engine := func(name, variant string, procs []int, shards, q, th int, muted bool, key string) Phase {
		return Phase{Name: name, Variant: variant, Shards: shards, MinEvents: map[string]int64{"backward_calls_observed": 500, "passes": 300}, Run: func(c *C) {
			for b := 0; b < c.N(q, th); b++ {
				c.Case(fmt.Sprint(b), func(t *T) {
					old := runtime.GOMAXPROCS(procs[b%len(procs)])
					defer runtime.GOMAXPROCS(old)
					for i := 0; i < 20 && !t.Failed(); i++ {
						size := t.R.Pick(3, 6, 12, 25, 50)
						if t.R.P(0.05) {
							size = 200
						}
						graphCase(t, key, size, muted)
					}
				})
			}
		}}
	}
	register(&Property{
		ID:    "P02",
		Boost: 3,
		Rule: "a case builds a random graph of monitored functions and library operators on integer data (shared operands, repeated operands, blocked gradients, leaves with and without gradients, exponential path counts), runs one to three back-propagations from one to three possibly nested outputs, with or without clearing, on the same or a rebuilt graph, under varying GOMAXPROCS and injected scheduling points; " +
			"events (who propagated when, with which gradient) and all node gradients are compared exactly with a model; a second workload chains all operators and compares leaf gradients with finite differences; distinct = graph × observed order of back-propagation",
		Phases: []Phase{
			engine("engine", "plain", []int{8, 1, 2, 4}, 6, 2000, 16000, false, "dag:engine"),
			engine("engine-race", "race", []int{8, 2, 4}, 4, 100, 1200, false, "dag:engine"),
			{Name: "operators", Shards: 4, MinEvents: map[string]int64{"leaf_gradients_compared": 1000}, Run: func(c *C) {
				for b := 0; b < c.N(400, 6000); b++ {
					c.Case(fmt.Sprint(b), func(t *T) {
						for i := 0; i < 20 && !t.Failed(); i++ {
							operatorGraphCase(t, t.R.Range(2, 14))
						}
					})
				}
			}},
		},
	})
}

package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
)

// cell is one recurrent layer with its reference recurrence.
type cell struct {
	name    string
	in, out int
	model   nn.StandardModel
	params  []*nn.Param
	nstate  int
	// run feeds the inputs one by one, starting with the given state (nil: none),
	// and returns the outputs and the final state.
	run func(state []mat.Tensor, xs []mat.Tensor) (ys, next []mat.Tensor)
	ref func(p []*M, state []*M, xs []*M) (ys, next []*M)
}

func oneMinus(m *M) *M { return m.mapf(func(v float64) float64 { return 1 - v }) }

// gateRef is w·x + b [+ wr·y].
func gateRef(w, wr, b, x, y *M) *M {
	o := affine(b, w, x)
	if y != nil {
		o = addM(o, mul(wr, y))
	}
	return o
}

func newCell(t *T, dt dtype, kind string, in, out int) *cell {
	c := &cell{name: fmt.Sprintf("%s(%d,%d)", kind, in, out), in: in, out: out, nstate: 1}
	switch kind {
	case "srn":
		var m *srn.Model
		if dt == f32 {
			m = srn.New[float32](in, out)
		} else {
			m = srn.New[float64](in, out)
		}
		c.model, c.params = m, []*nn.Param{m.W, m.WRec, m.B}
		c.run = func(state, xs []mat.Tensor) (ys, next []mat.Tensor) {
			var s *srn.State
			if state != nil {
				s = &srn.State{Y: state[0]}
			}
			for _, x := range xs {
				s = m.Next(s, x)
				ys = append(ys, s.Y)
			}
			return ys, []mat.Tensor{s.Y}
		}
		c.ref = func(p, state, xs []*M) (ys, next []*M) {
			var y *M
			if state != nil {
				y = state[0]
			}
			for _, x := range xs {
				y = tanhM(gateRef(p[0], p[1], p[2], x, y))
				ys = append(ys, y)
			}
			return ys, []*M{y}
		}
	case "gru":
		var m *gru.Model
		if dt == f32 {
			m = gru.New[float32](in, out)
		} else {
			m = gru.New[float64](in, out)
		}
		c.model = m
		c.params = []*nn.Param{m.WPart, m.WPartRec, m.BPart, m.WRes, m.WResRec, m.BRes, m.WCand, m.WCandRec, m.BCand}
		c.run = func(state, xs []mat.Tensor) (ys, next []mat.Tensor) {
			var s *gru.State
			if state != nil {
				s = &gru.State{Y: state[0]}
			}
			for _, x := range xs {
				s = m.Next(s, x)
				ys = append(ys, s.Y)
			}
			return ys, []mat.Tensor{s.Y}
		}
		c.ref = func(p, state, xs []*M) (ys, next []*M) {
			var y *M
			if state != nil {
				y = state[0]
			}
			for _, x := range xs {
				z := sigM(gateRef(p[0], p[1], p[2], x, y))
				r := sigM(gateRef(p[3], p[4], p[5], x, y))
				var ry *M
				if y != nil {
					ry = prodM(r, y)
				}
				h := tanhM(gateRef(p[6], p[7], p[8], x, ry))
				n := prodM(z, h)
				if y != nil {
					n = addM(n, prodM(oneMinus(z), y))
				}
				y = n
				ys = append(ys, y)
			}
			return ys, []*M{y}
		}
	case "lstm", "lstm-refined":
		var m *lstm.Model
		if dt == f32 {
			m = lstm.New[float32](in, out)
		} else {
			m = lstm.New[float64](in, out)
		}
		refined := kind == "lstm-refined"
		m.WithRefinedGates(refined)
		c.model, c.nstate = m, 2
		c.params = []*nn.Param{m.WIn, m.WInRec, m.BIn, m.WOut, m.WOutRec, m.BOut, m.WFor, m.WForRec, m.BFor, m.WCand, m.WCandRec, m.BCand}
		c.run = func(state, xs []mat.Tensor) (ys, next []mat.Tensor) {
			var s *lstm.State
			if state != nil {
				s = &lstm.State{Y: state[0], Cell: state[1]}
			}
			for _, x := range xs {
				s = m.Next(s, x)
				ys = append(ys, s.Y)
			}
			return ys, []mat.Tensor{s.Y, s.Cell}
		}
		c.ref = func(p, state, xs []*M) (ys, next []*M) {
			var y, cl *M
			if state != nil {
				y, cl = state[0], state[1]
			}
			for _, x := range xs {
				i := sigM(gateRef(p[0], p[1], p[2], x, y))
				o := sigM(gateRef(p[3], p[4], p[5], x, y))
				f := sigM(gateRef(p[6], p[7], p[8], x, y))
				g := tanhM(gateRef(p[9], p[10], p[11], x, y))
				if refined {
					i, o = prodM(i, x), prodM(o, x)
				}
				n := prodM(i, g)
				if cl != nil {
					n = addM(n, prodM(f, cl))
				}
				cl = n
				y = prodM(o, tanhM(cl))
				ys = append(ys, y)
			}
			return ys, []*M{y, cl}
		}
	default:
		panic(kind)
	}
	return c
}

var cellKinds = []string{"srn", "gru", "lstm", "lstm-refined"}

func (t *T) cellDims(kind string) (in, out int) {
	in, out = t.up(t.R.Range(1, 4), 40), t.up(t.R.Range(1, 4), 40)
	if kind == "lstm-refined" {
		out = in
	}
	return
}

// cellSpec: Forward without a state, or steps from a given state, in chunks.
func cellSpec(kind string) netSpec {
	return netSpec{kind, func(t *T, dt dtype) *netInst {
		in, out := t.cellDims(kind)
		c := newCell(t, dt, kind, in, out)
		n := &netInst{model: c.model, tol: 4, coords: 120}
		n.add(c.params...)
		ls := t.long(t.R.Pick(1, 2, 3, 5, 8), 65)
		if t.R.Bool() {
			if t.R.P(0.1) {
				ls = 0
			}
			n.xs = t.seq(ls, in)
			n.desc = c.name + " forward"
			n.fwd = c.model.Forward
			n.ref = func(p, xs, _, _ []*M) []*M {
				ys, _ := c.ref(p, nil, xs)
				return ys
			}
			return n
		}
		// given initial state, fed in two chunks; the final state is an output too
		for i := 0; i < c.nstate; i++ {
			n.xs = append(n.xs, t.randM(out, 1, -1, 1))
		}
		n.xs = append(n.xs, t.seq(ls, in)...)
		cut := t.R.Range(1, ls)
		n.desc = fmt.Sprintf("%s from a state, %d+%d steps", c.name, cut, ls-cut)
		n.fwd = func(ts ...mat.Tensor) []mat.Tensor {
			ys, s := c.run(ts[:c.nstate], ts[c.nstate:c.nstate+cut])
			if cut < ls {
				var y2 []mat.Tensor
				y2, s = c.run(s, ts[c.nstate+cut:])
				ys = append(ys, y2...)
			}
			return append(ys, s[1:]...)
		}
		n.ref = func(p, xs, _, _ []*M) []*M {
			ys, s := c.ref(p, xs[:c.nstate], xs[c.nstate:])
			return append(ys, s[1:]...)
		}
		return n
	}}
}

// mergeRef merges both directions.
func mergeRef(mode birnn.MergeType, a, b *M) *M {
	switch mode {
	case birnn.Concat:
		return refConcat([]*M{a, b})
	case birnn.Sum:
		return addM(a, b)
	case birnn.Prod:
		return prodM(a, b)
	}
	return addM(a, b).scale(0.5)
}

func biRef(mode birnn.MergeType, pos, neg func(xs []*M) []*M, xs []*M) []*M {
	n := len(xs)
	rev := make([]*M, n)
	for i, x := range xs {
		rev[n-1-i] = x
	}
	a, b := pos(xs), neg(rev)
	out := make([]*M, n)
	for i := range out {
		out[i] = mergeRef(mode, a[i], b[n-1-i])
	}
	return out
}

var mergeModes = []birnn.MergeType{birnn.Concat, birnn.Sum, birnn.Prod, birnn.Avg}

var birnnSpec = netSpec{"birnn", func(t *T, dt dtype) *netInst {
	k1, k2 := cellKinds[t.R.Intn(3)], cellKinds[t.R.Intn(3)]
	in, out := t.up(t.R.Range(1, 3), 24), t.up(t.R.Range(1, 3), 24)
	a, b := newCell(t, dt, k1, in, out), newCell(t, dt, k2, in, out)
	mode := mergeModes[t.R.Intn(4)]
	var m *birnn.Model
	switch {
	case k1 == "lstm" && k2 == "lstm" && t.R.Bool():
		if dt == f32 {
			m = birnn.NewBiLSTM[float32](in, out, mode)
		} else {
			m = birnn.NewBiLSTM[float64](in, out, mode)
		}
		a.params, b.params = lstmParams(m.Positive), lstmParams(m.Negative)
	case k1 == "gru" && k2 == "gru" && t.R.Bool():
		if dt == f32 {
			m = birnn.NewBiGRU[float32](in, out, mode)
		} else {
			m = birnn.NewBiGRU[float64](in, out, mode)
		}
		a.params, b.params = gruParams(m.Positive), gruParams(m.Negative)
	default:
		m = birnn.New(a.model, b.model, mode)
	}
	n := &netInst{model: m, xs: t.seq(t.long(t.R.Pick(0, 1, 2, 3, 6), 40), in), desc: fmt.Sprintf("birnn(%s,%s,mode %d)", a.name, b.name, mode), fwd: m.Forward, tol: 5}
	pa := n.add(a.params...)
	pb := n.add(b.params...)
	n.ref = func(p, xs, _, _ []*M) []*M {
		return biRef(mode, func(xs []*M) []*M { y, _ := a.ref(p[pa:], nil, xs); return y },
			func(xs []*M) []*M { y, _ := b.ref(p[pb:], nil, xs); return y }, xs)
	}
	return n
}}

func lstmParams(m nn.StandardModel) []*nn.Param {
	l := m.(*lstm.Model)
	return []*nn.Param{l.WIn, l.WInRec, l.BIn, l.WOut, l.WOutRec, l.BOut, l.WFor, l.WForRec, l.BFor, l.WCand, l.WCandRec, l.BCand}
}

func gruParams(m nn.StandardModel) []*nn.Param {
	l := m.(*gru.Model)
	return []*nn.Param{l.WPart, l.WPartRec, l.BPart, l.WRes, l.WResRec, l.BRes, l.WCand, l.WCandRec, l.BCand}
}

var bibiSpec = netSpec{"bibilstm", func(t *T, dt dtype) *netInst {
	in, h := t.up(t.R.Range(1, 3), 12), t.up(t.R.Range(1, 2), 12)
	mode := mergeModes[t.R.Intn(4)]
	var ms []*birnn.Model
	if dt == f32 {
		ms = birnn.NewBiBiLSTM[float32](in, h, mode)
	} else {
		ms = birnn.NewBiBiLSTM[float64](in, h, mode)
	}
	ref := newCell(t, dt, "lstm", in, h).ref
	n := &netInst{xs: t.seq(t.long(t.R.Range(1, 4), 20), in), desc: fmt.Sprintf("bibilstm(%d,%d,%d)", in, h, mode), tol: 10,
		fwd: nn.ModuleList[*birnn.Model](ms).Forward}
	for _, m := range ms {
		n.add(lstmParams(m.Positive)...)
		n.add(lstmParams(m.Negative)...)
	}
	n.ref = func(p, xs, _, _ []*M) []*M {
		at := func(i int) func(xs []*M) []*M {
			return func(xs []*M) []*M { y, _ := ref(p[12*i:12*i+12], nil, xs); return y }
		}
		return biRef(mode, at(2), at(3), biRef(birnn.Concat, at(0), at(1), xs))
	}
	return n
}}

// slstmSpec: the sentence-state LSTM. Parameters in the order: seven gates
// (W, U, V, B), three non-local gates (W, U, B), start, end, initial value.
var slstmSpec = netSpec{"slstm", func(t *T, dt dtype) *netInst {
	cfg := slstm.Config{InputSize: t.up(t.R.Range(1, 3), 12), OutputSize: t.up(t.R.Range(1, 3), 12), Steps: t.R.Pick(1, 2, 2, 3, 3, 4, 5, 7)}
	var m *slstm.Model
	if dt == f32 {
		m = slstm.New[float32](cfg)
	} else {
		m = slstm.New[float64](cfg)
	}
	n := &netInst{model: m, xs: t.seq(t.long(t.R.Range(1, 4), 20), cfg.InputSize), desc: fmt.Sprintf("slstm(%+v)", cfg), fwd: m.Forward, tol: 10, coords: 120}
	for _, g := range []*slstm.HyperLinear4{m.InputGate, m.LeftCellGate, m.RightCellGate, m.CellGate, m.SentCellGate, m.OutputGate, m.InputActivation} {
		n.add(g.W, g.U, g.V, g.B)
	}
	for _, g := range []*slstm.HyperLinear3{m.NonLocalSentCellGate, m.NonLocalInputGate, m.NonLocalSentOutputGate} {
		n.add(g.W, g.U, g.B)
	}
	n.add(m.StartH, m.EndH, m.InitValue)
	n.ref = func(p, xs, _, _ []*M) []*M {
		start, end, init := p[37], p[38], p[39]
		k := len(xs)
		h, c := make([]*M, k), make([]*M, k)
		for i := range h {
			h[i], c[i] = init, init
		}
		g := init
		for s := 1; s < cfg.Steps; s++ {
			gate := func(i int, ctx, x *M) *M {
				q := p[4*i:]
				return addM(addM(mul(q[0], ctx), mul(q[1], x)), addM(mul(q[2], g), q[3]))
			}
			nh, nc := make([]*M, k), make([]*M, k)
			for i := range xs {
				hl, cl, hr, cr := start, start, end, end
				if i > 0 {
					hl, cl = h[i-1], c[i-1]
				}
				if i < k-1 {
					hr, cr = h[i+1], c[i+1]
				}
				ctx := refConcat([]*M{hl, h[i], hr})
				iG, lG, rG, fG, sG, oG := sigM(gate(0, ctx, xs[i])), sigM(gate(1, ctx, xs[i])), sigM(gate(2, ctx, xs[i])), sigM(gate(3, ctx, xs[i])), sigM(gate(4, ctx, xs[i])), sigM(gate(5, ctx, xs[i]))
				u := tanhM(gate(6, ctx, xs[i]))
				nc[i] = addM(addM(addM(prodM(lG, cl), prodM(fG, c[i])), addM(prodM(rG, cr), prodM(sG, g))), prodM(iG, u))
				nh[i] = prodM(oG, tanhM(nc[i]))
			}
			avg := newM(cfg.OutputSize, 1)
			for _, x := range h {
				avg = addM(avg, x.scale(1/float64(k)))
			}
			fg := sigM(addM(addM(mul(p[28], g), mul(p[29], avg)), p[30]))
			og := sigM(addM(addM(mul(p[34], g), mul(p[35], avg)), p[36]))
			cg := prodM(fg, g)
			for i := range h {
				cg = addM(cg, prodM(sigM(addM(addM(mul(p[31], g), mul(p[32], h[i])), p[33])), c[i]))
			}
			h, c, g = nh, nc, prodM(og, tanhM(cg))
		}
		return h
	}
	return n
}}

// chunkCase: one call, one step at a time, and random chunks give bit-identical
// outputs, also interleaved with another sequence on the same model.
func chunkCase(t *T, dt dtype, kind string) {
	in, out := t.cellDims(kind)
	if t.R.P(0.2) {
		in, out = t.R.Range(5, 20), t.R.Range(5, 20)
		if kind == "lstm-refined" {
			out = in
		}
	}
	c := newCell(t, dt, kind, in, out)
	for _, p := range c.params {
		s := p.Value().Shape()
		setParam(p, dt.quantM(t.randM(s[0], s[1], -1, 1)), dt)
	}
	ls := t.R.Range(1, 20)
	mk := func() []mat.Tensor {
		ts := make([]mat.Tensor, ls)
		for i, x := range t.seq(ls, in) {
			ts[i] = dt.mk(x, false)
		}
		return ts
	}
	xs, zs := mk(), mk()
	whole := c.model.Forward(xs...)
	other := c.model.Forward(zs...)
	var ys []mat.Tensor
	var state, ostate []mat.Tensor
	var oys []mat.Tensor
	d := ""
	for at := 0; at < ls; {
		k := t.R.Range(1, ls-at)
		d += fmt.Sprint(k, " ")
		y, s := c.run(state, xs[at:at+k])
		ys, state = append(ys, y...), s
		y, ostate = c.run(ostate, zs[at:at+k])
		oys = append(oys, y...)
		at += k
	}
	for i := range whole {
		if !t.Check(sameM(toM(whole[i].Value()), toM(ys[i].Value())), "chunks:"+kind, "%s %s in chunks %s: output %d differs", dt, c.name, d, i) {
			return
		}
		if !t.Check(sameM(toM(other[i].Value()), toM(oys[i].Value())), "chunks:"+kind, "%s %s in chunks %s: output %d of an interleaved sequence differs", dt, c.name, d, i) {
			return
		}
		for _, v := range toM(ys[i].Value()).v {
			lim := 1.0
			if kind == "lstm-refined" {
				lim = 2
			}
			t.Check(!math.IsNaN(v) && math.Abs(v) <= lim+1e-6, "range:"+kind, "%s: output %v out of range", c.name, v)
		}
	}
	t.Event("chunked", ls)
	t.Seen(kind, string(dt), in, out, d)
}

// biConcurrent: bidirectional models evaluated and differentiated from many
// goroutines; under the race detector.
func biConcurrent(t *T, dt dtype) {
	in, h := t.R.Range(1, 3), t.R.Range(1, 3)
	var m *birnn.Model
	if dt == f32 {
		m = birnn.NewBiLSTM[float32](in, h, birnn.Concat)
	} else {
		m = birnn.NewBiGRU[float64](in, h, birnn.Sum)
	}
	nn.ForEachParam(m, func(p *nn.Param) {
		s := p.Value().Shape()
		setParam(p, dt.quantM(t.randM(s[0], s[1], -1, 1)), dt)
	})
	x := t.seq(3, in)
	run := func() []*M {
		ts := make([]mat.Tensor, len(x))
		for i := range x {
			ts[i] = dt.mk(x[i], true)
		}
		ys := m.Forward(ts...)
		for _, y := range ys {
			v := y.Value()
			y.AccGrad(dt.mk(newM(v.Shape()[0], v.Shape()[1]).mapf(func(float64) float64 { return 1 }), false))
		}
		if err := ag.Backward(ys...); err != nil {
			panic(err)
		}
		var out []*M
		for i := range ys {
			out = append(out, toM(ys[i].Value()), gradOf(ts[i]))
		}
		return out
	}
	want := run()
	total := map[int]*M{}
	i := 0
	nn.ForEachParam(m, func(p *nn.Param) { total[i] = gradOf(p); i++ })
	nn.ZeroGrad(m)
	const k = 6
	res := make(chan []*M, k)
	for g := 0; g < k; g++ {
		go func() { res <- run() }()
	}
	tol := 1e-9
	if dt == f32 {
		tol = 1e-4
	}
	for g := 0; g < k; g++ {
		for j, o := range <-res {
			if d := diffM(o, want[j], tol, 1); !t.Check(d == "", "bi-concurrent", "concurrent use of one model: output/gradient %d: %s", j, d) {
				return
			}
		}
	}
	i = 0
	nn.ForEachParam(m, func(p *nn.Param) {
		d := diffM(gradOf(p), total[i].scale(k), tol*10, 1)
		t.Check(d == "", "bi-concurrent", "gradients accumulated by %d concurrent passes: parameter %d: %s", k, i, d)
		i++
	})
	t.Event("concurrent passes", k)
	t.Seen(string(dt), in, h)
}

func init() {
	var specs []netSpec
	for _, k := range cellKinds {
		specs = append(specs, cellSpec(k))
	}
	specs = append(specs, birnnSpec, bibiSpec, slstmSpec)
	register(&Property{
		ID:    "P19",
		Boost: 6,
		Rule: "recurrent layers equal a float64 reference recurrence at every time step (values, final states, and gradients of parameters, inputs and initial states by finite differences), for random sizes, lengths, initial states and merge modes; " +
			"any chunking with the state carried over gives bit-identical outputs, interleaved sequences do not interfere; concurrent passes over one bidirectional model are race-free and accumulate the sum of the gradients",
		Phases: []Phase{
			netPhase("layers", 60, 2500, specs...),
			bigPhase(10, 200, specs...),
			{Name: "chunks", Shards: 4, Run: func(c *C) {
				for _, kind := range cellKinds {
					for _, dt := range []dtype{f32, f64} {
						for i := 0; i < c.N(40, 3000); i++ {
							c.Case(fmt.Sprintf("%s/%s/%d", kind, dt, i), func(t *T) { chunkCase(t, dt, kind) })
						}
					}
				}
			}, MinEvents: map[string]int64{"chunked": 500}},
			{Name: "concurrent", Variant: "race", Shards: 2, Run: func(c *C) {
				for _, dt := range []dtype{f32, f64} {
					for i := 0; i < c.N(15, 400); i++ {
						c.Case(fmt.Sprintf("bi/%s/%d", dt, i), func(t *T) { biConcurrent(t, dt) })
					}
				}
			}, MinEvents: map[string]int64{"concurrent passes": 50}},
		},
	})
}

package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/mat"
)

// scribble overwrites every element of m, and then changes its shape, by means
// of its own methods.
func scribble(r *Rng, m mat.Matrix, x float64) {
	n := m.Size()
	switch r.Intn(3) {
	case 0:
		m.Zeros()
		m.AddScalarInPlace(x)
	case 1:
		sh := m.Shape()
		for i := 0; i < sh[0]; i++ {
			for j := 0; j < sh[1]; j++ {
				m.SetAt(m.NewScalar(x), i, j)
			}
		}
	default:
		switch d := m.Data().BitSize(); d {
		case 32:
			v := m.Data().F32()
			for i := range v {
				v[i] = float32(x)
			}
		default:
			v := m.Data().F64()
			for i := range v {
				v[i] = x
			}
		}
	}
	switch r.Intn(3) {
	case 0:
		m.TransposeInPlace()
	case 1:
		if n > 0 {
			m.ReshapeInPlace(n, 1)
			if r.Bool() {
				m.ReshapeInPlace(1, n)
			}
		}
	default:
		m.FlattenInPlace()
	}
}

// aliasCase applies op and watches the operands and the results while the
// others are overwritten.
func aliasCase(t *T, op matOp, dt dtype) {
	g := &matGen{r: t.R, exact: t.R.Bool()}
	in := op.gen(g)
	mixed := t.R.P(0.3)
	ms := make([]mat.Matrix, len(in.xs))
	snap := make([]*M, len(in.xs))
	for i, x := range in.xs {
		d := dt
		if mixed && i > 0 && t.R.Bool() {
			if d = f32; dt == f32 {
				d = f64
			}
		}
		ms[i] = d.mk(x, false)
		snap[i] = toM(ms[i])
	}
	// now and then the same matrix is passed more than once
	self := false
	if len(ms) > 1 && t.R.P(0.3) && op.name != "SetData" {
		for i := 1; i < len(ms); i++ {
			if in.xs[i].same(in.xs[0]) && dtypeOf(ms[i]) == dtypeOf(ms[0]) && t.R.Bool() {
				ms[i], snap[i], in.xs[i] = ms[0], snap[0], in.xs[0]
				self = true
			}
		}
	}
	desc := func() string {
		return fmt.Sprintf("%s(%s) mixed=%v self=%v", op.name, inputDesc(in, []dtype{dt}), mixed, self)
	}
	key := "alias:" + op.name
	var want []*M
	if self && in.mag != nil { // the reference of the values
		q := make([]*M, len(in.xs))
		for i := range q {
			q[i] = snap[i]
		}
		want = in.ref(q)
	}
	res := in.run(ms)
	for i := range ms {
		if in.inplace && ms[i] == ms[0] {
			continue
		}
		if d := sameM2(toM(ms[i]), snap[i]); !d {
			t.Fail(key, "%s\noperand #%d was modified by the call", desc(), i)
			return
		}
		t.Checked(1)
	}
	if want != nil {
		for i := range want {
			ex := *in
			ex.inexact = !g.exact || g.real
			if msg := ex.compare(dt, g.exact && !g.real, toM(res[i]), want[i], in.mag([]*M{snap[0], snap[len(snap)-1]})[min(i, 0)]); msg != "" && len(in.xs) == 2 {
				t.Fail("self:"+op.name, "%s\nreceiver and argument are the same matrix: %s", desc(), msg)
				return
			}
			t.Checked(1)
		}
		t.Event("self_argument_calls", 1)
	}
	rs := make([]*M, len(res))
	for i := range res {
		rs[i] = toM(res[i])
	}
	isOperand := func(r mat.Matrix) bool { return in.inplace && r == ms[0] }
	// overwrite the operands: the results stay
	order := t.R.Bool()
	scribbleOperands := func() bool {
		for i, m := range ms {
			if in.inplace && m == ms[0] {
				continue
			}
			scribble(t.R, m, 77)
			for j := range res {
				if d := sameM2(toM(res[j]), rs[j]); !d {
					t.Fail(key, "%s\nresult #%d changed when operand #%d was overwritten", desc(), j, i)
					return false
				}
				t.Checked(1)
			}
			snap[i] = toM(m)
			for k := range ms {
				if ms[k] == m {
					snap[k] = snap[i]
				}
			}
		}
		return true
	}
	scribbleResults := func() bool {
		for j, r := range res {
			scribble(t.R, r, -55)
			rs[j] = toM(r)
			for i, m := range ms {
				if isOperand(r) && m == r {
					continue
				}
				if in.inplace && m == ms[0] {
					continue
				}
				if d := sameM2(toM(m), snap[i]); !d {
					t.Fail(key, "%s\noperand #%d changed when result #%d was overwritten", desc(), i, j)
					return false
				}
				t.Checked(1)
			}
			for k := range res {
				if k == j {
					continue
				}
				if d := sameM2(toM(res[k]), rs[k]); !d {
					t.Fail(key, "%s\nresult #%d changed when result #%d was overwritten", desc(), k, j)
					return false
				}
				t.Checked(1)
			}
		}
		return true
	}
	if order {
		_ = scribbleOperands() && scribbleResults()
	} else {
		_ = scribbleResults() && scribbleOperands()
	}
	sh := ""
	for _, x := range in.xs {
		sh += fmt.Sprintf("%dx%d,", x.r, x.c)
	}
	t.Event("scribbles", len(ms)+len(res))
	t.Seen(op.name, dt, mixed, self, in.desc, sh)
	t.Sample("%s", desc())
}

// operatorAlias does the same with the operators of the graph.
func operatorAlias(t *T, spec OpSpec, dt dtype) {
	s := &single{t: t, dt: dt, dup: 0.1}
	in := spec.gen(s.G())
	for _, l := range s.leaves {
		l.t = dt.mk(l.v, t.R.Bool())
	}
	y := in.build(in.tensors(s.leaves))
	for _, l := range s.leaves {
		if y == l.t {
			return // a sum of one term is that term
		}
	}
	desc := instDesc(in, s.leaves)
	v := y.Value().(mat.Matrix)
	key := "alias:ag." + in.op
	was := toM(v)
	for i, l := range s.leaves {
		m := l.t.(mat.Matrix)
		if !t.Check(sameM(toM(m), l.v), key, "%s\noperand #%d was modified by the call", desc, i) {
			return
		}
	}
	if t.R.Bool() {
		for i, l := range s.leaves {
			scribble(t.R, l.t.(mat.Matrix), 77)
			if !t.Check(sameM2(toM(v), was), key, "%s\nthe value changed when operand #%d was overwritten", desc, i) {
				return
			}
		}
	} else {
		scribble(t.R, v, -55)
		for i, l := range s.leaves {
			if !t.Check(sameM2(toM(l.t), l.v), key, "%s\noperand #%d changed when the value was overwritten: %v", desc, i, toM(l.t)) {
				return
			}
		}
	}
	t.Event("scribbles", len(s.leaves))
	t.Seen("ag", in.op, dt, in.desc, shapeSig(in, s.leaves))
}

// pairs of in-place and out-of-place methods.
type inplacePair struct {
	name string
	args int // matrices besides the receiver, of the same shape
	out  func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix
	in   func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix
}

var inplacePairs = []inplacePair{
	{"Add", 1, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.Add(o[0]) }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.AddInPlace(o[0]) }},
	{"Sub", 1, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.Sub(o[0]) }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.SubInPlace(o[0]) }},
	{"Prod", 1, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.Prod(o[0]) }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.ProdInPlace(o[0]) }},
	{"Div", 1, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.Div(o[0]) }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.DivInPlace(o[0]) }},
	{"AddScalar", 0, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.AddScalar(s) }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.AddScalarInPlace(s) }},
	{"SubScalar", 0, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.SubScalar(s) }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.SubScalarInPlace(s) }},
	{"ProdScalar", 0, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.ProdScalar(s) }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.ProdScalarInPlace(s) }},
	{"ProdMatrixScalar", 1, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return o[0].ProdScalar(s) }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix {
		return a.ProdMatrixScalarInPlace(o[0], s)
	}},
	{"T", 0, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.T() }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.TransposeInPlace() }},
	{"Reshape", 0, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.Reshape(a.Shape()[1], a.Shape()[0]) }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix {
		return a.ReshapeInPlace(a.Shape()[1], a.Shape()[0])
	}},
	{"Flatten", 0, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.Flatten() }, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix { return a.FlattenInPlace() }},
	{"Apply", 1, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix {
		return o[0].Apply(func(r, c int, v float64) float64 { return v*s + float64(r) - 2*float64(c) })
	}, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix {
		return a.ApplyInPlace(func(r, c int, v float64) float64 { return v*s + float64(r) - 2*float64(c) }, o[0])
	}},
	{"ApplyWithAlpha", 1, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix {
		return o[0].ApplyWithAlpha(func(r, c int, v float64, al ...float64) float64 { return v*al[0] + al[1]*float64(r-c) }, s, 2)
	}, func(a mat.Matrix, o []mat.Matrix, s float64) mat.Matrix {
		return a.ApplyWithAlphaInPlace(func(r, c int, v float64, al ...float64) float64 { return v*al[0] + al[1]*float64(r-c) }, o[0], s, 2)
	}},
}

func pairCase(t *T, p inplacePair, dt dtype) {
	g := &matGen{r: t.R}
	r, c := g.shape()
	s := t.R.Uni(-3, 3)
	x := dt.quantM(g.mk(r, c))
	var os []*M
	for i := 0; i < p.args; i++ {
		os = append(os, dt.quantM(g.mkDom(r, c, 0.2, 3)))
	}
	same := t.R.P(0.3) // the argument is the receiver itself
	mk := func() (mat.Matrix, []mat.Matrix) {
		a := dt.mk(x, false)
		var o []mat.Matrix
		for _, m := range os {
			if same {
				o = append(o, a)
			} else {
				o = append(o, dt.mk(m, false))
			}
		}
		return a, o
	}
	a1, o1 := mk()
	a2, o2 := mk()
	want := toM(p.out(a1, o1, s))
	got := p.in(a2, o2, s)
	desc := fmt.Sprintf("%s %v args %v s=%v argument-is-receiver=%v", p.name, x, os, s, same)
	t.Check(got == a2, "pair:"+p.name, "%s: the in-place variant does not return the receiver", desc)
	d := sameM2(toM(got), want)
	t.Check(d, "pair:"+p.name, "%s\nin place and out of place differ\nin place %v\nout of place %v", desc, toM(got), want)
	if !same {
		for i := range o2 {
			t.Check(sameM(toM(o2[i]), os[i]), "pair:"+p.name, "%s: argument changed", desc)
		}
	}
	t.Event("pairs_compared", 1)
	t.Seen("pair", p.name, dt, r, c, same)
}

// historyCase drives a pool of matrices through a random sequence of
// operations, most of them in place, and checks the whole pool after each.
func historyCase(t *T, dt dtype, steps int) {
	type cell struct {
		m mat.Matrix
		v *M
	}
	var pool []*cell
	log := ""
	add := func(m mat.Matrix, v *M) {
		pool = append(pool, &cell{m, v.clone()})
		if len(pool) > 12 {
			k := t.R.Intn(len(pool))
			pool = append(pool[:k:k], pool[k+1:]...)
		}
	}
	fresh := func() {
		r, c := t.R.Range(1, 6), t.R.Range(1, 6)
		v := newM(r, c)
		for i := range v.v {
			v.v[i] = float64(t.R.Range(-9, 9))
		}
		add(dt.mk(v, false), v)
	}
	fresh()
	fresh()
	for n := 0; n < steps; n++ {
		k := t.R.Intn(len(pool))
		c := pool[k]
		if c.v.maxAbs() > 1e5 || c.v.size() == 0 || len(pool) < 3 {
			fresh()
			pool[k], pool[len(pool)-1] = pool[len(pool)-1], pool[k]
			if c.v.maxAbs() > 1e5 {
				pool = pool[:len(pool)-1]
			}
			continue
		}
		// a partner of the same shape, perhaps itself
		var mates []*cell
		for _, o := range pool {
			if o.v.same(c.v) {
				mates = append(mates, o)
			}
		}
		o := mates[t.R.Intn(len(mates))]
		R, C := c.v.r, c.v.c
		s := float64(t.R.Range(-3, 3))
		op := ""
		switch t.R.Intn(26) {
		case 0:
			op = "AddInPlace"
			v := zip(c.v, o.v, func(a, b float64) float64 { return a + b })
			c.m.AddInPlace(o.m)
			c.v = v
		case 1:
			op = "SubInPlace"
			v := zip(c.v, o.v, func(a, b float64) float64 { return a - b })
			c.m.SubInPlace(o.m)
			c.v = v
		case 2:
			op = "ProdInPlace"
			if c.v.maxAbs() > 300 || o.v.maxAbs() > 300 {
				continue
			}
			v := zip(c.v, o.v, func(a, b float64) float64 { return a * b })
			c.m.ProdInPlace(o.m)
			c.v = v
		case 3:
			op = "TransposeInPlace"
			c.m.TransposeInPlace()
			c.v = c.v.t()
		case 4:
			op = "ReshapeInPlace"
			c.m.ReshapeInPlace(C, R)
			c.v = c.v.reshape(C, R)
		case 5:
			op = "FlattenInPlace"
			c.m.FlattenInPlace()
			c.v = c.v.reshape(1, R*C)
		case 6:
			op = "SetScalar"
			i, j := t.R.Intn(R), t.R.Intn(C)
			c.m.SetAt(c.m.NewScalar(s), i, j)
			c.v.set(i, j, s)
		case 7:
			op = "SwapInPlace"
			i, j := t.R.Intn(R), t.R.Intn(R)
			c.m.SwapInPlace(i, j)
			v := c.v.clone()
			for q := 0; q < C; q++ {
				v.set(i, q, c.v.at(j, q))
				v.set(j, q, c.v.at(i, q))
			}
			c.v = v
		case 8:
			op = "AddScalarInPlace"
			c.m.AddScalarInPlace(s)
			c.v = c.v.mapf(func(x float64) float64 { return x + s })
		case 9:
			op = "ProdScalarInPlace"
			c.m.ProdScalarInPlace(s)
			c.v = c.v.mapf(func(x float64) float64 { return x * s })
		case 10:
			op = "Copy"
			c.m.Copy(o.m)
			c.v = o.v.clone()
		case 11:
			op = "SetData"
			c.m.SetData(o.m.Data())
			c.v = o.v.clone()
		case 12:
			op = "ClipInPlace"
			c.m.ClipInPlace(-5, 7)
			c.v = c.v.mapf(func(x float64) float64 { return math.Min(7, math.Max(-5, x)) })
		case 13:
			op = "Clone"
			add(c.m.Clone(), c.v)
		case 14:
			op = "T"
			add(c.m.T(), c.v.t())
		case 15:
			op = "Reshape"
			add(c.m.Reshape(C, R), c.v.reshape(C, R))
		case 16:
			op = "Flatten"
			add(c.m.Flatten(), c.v.reshape(1, R*C))
		case 17:
			op = "Slice"
			i, j := t.R.Intn(R), t.R.Intn(C)
			p, q := t.R.Range(i+1, R), t.R.Range(j+1, C)
			v := newM(p-i, q-j)
			for a := i; a < p; a++ {
				for b := j; b < q; b++ {
					v.set(a-i, b-j, c.v.at(a, b))
				}
			}
			add(c.m.Slice(i, j, p, q), v)
		case 18:
			op = "ExtractRow"
			i := t.R.Intn(R)
			add(c.m.ExtractRow(i), mOf(1, C, c.v.v[i*C:(i+1)*C]...))
		case 19:
			op = "ExtractColumn"
			j := t.R.Intn(C)
			v := newM(R, 1)
			for i := 0; i < R; i++ {
				v.v[i] = c.v.at(i, j)
			}
			add(c.m.ExtractColumn(j), v)
		case 20:
			op = "Add"
			add(c.m.Add(o.m), zip(c.v, o.v, func(a, b float64) float64 { return a + b }))
		case 21:
			op = "NewStack"
			if !c.v.isVec() {
				continue
			}
			v := newM(2, R*C)
			copy(v.v, c.v.v)
			copy(v.v[R*C:], o.v.v)
			add(c.m.NewStack(c.m, o.m), v)
		case 22:
			op = "NewConcatV"
			if !c.v.isVec() {
				continue
			}
			add(c.m.NewConcatV(c.m, o.m), col(append(append([]float64{}, c.v.v...), o.v.v...)...))
		case 23:
			op = "SplitV"
			if !c.v.isVec() || R*C < 2 {
				continue
			}
			n := t.R.Range(1, R*C-1)
			ps := c.m.SplitV(n, R*C-n)
			add(ps[0], col(c.v.v[:n]...))
			add(ps[1], col(c.v.v[n:]...))
		case 24:
			op = "ZerosInPlace"
			if t.R.P(0.8) {
				continue
			}
			c.m.Zeros()
			c.v = newM(R, C)
		case 25:
			op = "AccGrad" // the gradient is a copy
			g := o.m.Clone()
			c.m.ZeroGrad()
			c.m.AccGrad(g)
			scribble(t.R, g, 33)
			if !t.Check(sameM2(toM(c.m.Grad()), o.v), "history:AccGrad", "%s: the gradient changed with its source", log) {
				return
			}
			c.m.ZeroGrad()
		}
		log += fmt.Sprintf("%s(#%d) ", op, k)
		if len(log) > 1500 {
			log = log[len(log)-1000:]
		}
		for i, q := range pool {
			if !t.Check(sameZ(toM(q.m), q.v), "history:"+op, "%s\nafter %s on #%d, matrix #%d is %v, want %v", log, op, k, i, toM(q.m), q.v) {
				return
			}
		}
		t.Event("history_steps", 1)
		t.Seen("history", op, R, C, len(pool), o == c)
	}
	t.Sample("history: %s", log)
}

// sameZ compares exactly, zeros of both signs being equal.
func sameZ(a, b *M) bool {
	if !a.same(b) || len(a.v) != len(b.v) {
		return false
	}
	for i := range a.v {
		if a.v[i] != b.v[i] {
			return false
		}
	}
	return true
}

func init() {
	register(&Property{
		ID:    "P09",
		Boost: 20,
		Rule: "a case calls a matrix method or graph operator on generated operands (also with the same matrix as receiver and argument, and with operands of the other type), compares the operands with their snapshots, overwrites the elements and shape of each operand and result in turn and checks that nothing else changes; in-place methods are compared bit by bit with their out-of-place counterparts; histories drive a pool of matrices through random in-place and copying operations and check the whole pool after each step; " +
			"distinct = method × type × parameters × shapes × argument identity",
		Phases: []Phase{
			{Name: "methods", Shards: 4, MinEvents: map[string]int64{"scribbles": 10000, "self_argument_calls": 100}, Run: func(c *C) {
				for _, op := range append(append([]matOp{}, matOps...), structOps...) {
					for _, dt := range []dtype{f32, f64} {
						c.Case(fmt.Sprintf("%s/%s", op.name, dt), func(t *T) {
							for i := 0; i < c.N(200, 4000) && !t.Failed(); i++ {
								aliasCase(t, op, dt)
							}
						})
					}
				}
				for _, p := range inplacePairs {
					for _, dt := range []dtype{f32, f64} {
						c.Case(fmt.Sprintf("pair/%s/%s", p.name, dt), func(t *T) {
							for i := 0; i < c.N(300, 5000) && !t.Failed(); i++ {
								pairCase(t, p, dt)
							}
						})
					}
				}
			}},
			{Name: "operators", Shards: 2, MinEvents: map[string]int64{"scribbles": 1000}, Run: func(c *C) {
				for _, spec := range opSpecs {
					for _, dt := range []dtype{f32, f64} {
						c.Case(fmt.Sprintf("%s/%s", spec.name, dt), func(t *T) {
							for i := 0; i < c.N(60, 1000) && !t.Failed(); i++ {
								operatorAlias(t, spec, dt)
							}
						})
					}
				}
			}},
			{Name: "histories", Shards: 4, MinEvents: map[string]int64{"history_steps": 10000}, Run: func(c *C) {
				for i := 0; i < c.N(300, 8000); i++ {
					c.Case(fmt.Sprintf("history/%d", i), func(t *T) { historyCase(t, []dtype{f32, f64}[i%2], 120) })
				}
			}},
		},
	})
}

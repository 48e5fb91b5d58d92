package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn/attention"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
)

// attRef: scaled dot-product attention of column vectors q over the rows of k
// and v; query i sees the first visible(i) rows.
func attRef(q []*M, k, v *M, scale float64, visible func(i int) int) (ys, ws []*M) {
	for i, x := range q {
		n := visible(i)
		s := make([]float64, n)
		for r := range s {
			for j := 0; j < k.c; j++ {
				s[r] += k.at(r, j) * x.v[j]
			}
			s[r] *= scale
		}
		w := newM(k.r, 1)
		copy(w.v, softmaxRef(s))
		y := newM(v.c, 1)
		for r := 0; r < k.r; r++ {
			for j := range y.v {
				y.v[j] += w.v[r] * v.at(r, j)
			}
		}
		ys, ws = append(ys, y), append(ws, w)
	}
	return
}

func everything(n int) func(int) int { return func(int) int { return n } }
func upTo(past int) func(int) int    { return func(i int) int { return past + i + 1 } }

func newSelf(dt dtype, cfg selfattention.Config) *selfattention.Model {
	if dt == f32 {
		return selfattention.New[float32](cfg)
	}
	return selfattention.New[float64](cfg)
}

func newMulti(dt dtype, size, heads int, causal, cross bool) *multiheadattention.Model {
	if dt == f32 {
		return multiheadattention.New[float32](size, heads, causal, cross)
	}
	return multiheadattention.New[float64](size, heads, causal, cross)
}

// headRef is self-attention with parameters p (query, key, value: weight, bias).
func headRef(p, q, x []*M, scale float64, causal bool, past int) (ys, ws []*M) {
	qs := mapMs(q, func(v *M) *M { return affine(p[1], p[0], v) })
	k := refStack(mapMs(x, func(v *M) *M { return affine(p[3], p[2], v) }))
	v := refStack(mapMs(x, func(v *M) *M { return affine(p[5], p[4], v) }))
	vis := everything(len(x))
	if causal {
		vis = upTo(past)
	}
	return attRef(qs, k, v, scale, vis)
}

var attSpecs = []netSpec{
	{"scaled-dot-product", func(t *T, dt dtype) *netInst {
		d, dv, nq, nk := t.dim(), t.dim(), t.long(t.R.Range(1, 5), 70, 100), t.long(t.R.Range(1, 6), 70, 100)
		causal := t.R.Bool()
		if causal {
			nk = nq
		}
		scale := dt.quant(t.R.Uni(0.1, 1.5))
		n := &netInst{desc: fmt.Sprintf("attention d=%d dv=%d q=%d k=%d causal=%v", d, dv, nq, nk, causal), tol: 5}
		n.xs = append(t.seq(nq, d), t.randM(nk, d, -2, 2), t.randM(nk, dv, -2, 2))
		sc := dt.mkScalar(scale, false)
		n.fwd = func(ts ...mat.Tensor) []mat.Tensor {
			ys, ws := attention.ScaledDotProductAttention(ts[:nq], ts[nq], ts[nq+1], sc, causal)
			return append(append([]mat.Tensor{}, ys...), ws...)
		}
		n.ref = func(_, xs, _, _ []*M) []*M {
			vis := everything(nk)
			if causal {
				vis = upTo(0)
			}
			ys, ws := attRef(xs[:nq], xs[nq], xs[nq+1], scale, vis)
			return append(ys, ws...)
		}
		return n
	}},
	{"self", func(t *T, dt dtype) *netInst {
		cfg := selfattention.Config{InputSize: t.dim(), KeySize: t.dim(), ValueSize: t.dim(), ScaleFactor: dt.quant(t.R.Uni(0.1, 1.5)), UseCausalMask: t.R.Bool()}
		cfg.QuerySize = cfg.KeySize
		cfg.IsCrossAttention = !cfg.UseCausalMask && t.R.Bool()
		m := newSelf(dt, cfg)
		nq := t.long(t.R.Range(1, 5), 70, 100)
		nx := nq
		if !cfg.UseCausalMask {
			nx = t.long(t.R.Range(1, 5), 70, 100)
		}
		same := nx == nq && t.R.Bool()
		n := &netInst{model: m, desc: fmt.Sprintf("self %+v q=%d x=%d same=%v", cfg, nq, nx, same), tol: 8}
		n.add(m.Query.W, m.Query.B, m.Key.W, m.Key.B, m.Value.W, m.Value.B)
		n.xs = t.seq(nq, cfg.InputSize)
		if !same {
			n.xs = append(n.xs, t.seq(nx, cfg.InputSize)...)
		}
		split := func(k int) (a, b int) {
			if same {
				return 0, nq
			}
			return nq, nq + nx
		}
		n.fwd = func(ts ...mat.Tensor) []mat.Tensor {
			a, b := split(0)
			ys, ws, _ := m.Forward(selfattention.Cache{}, ts[:nq], ts[a:b])
			return append(append([]mat.Tensor{}, ys...), ws...)
		}
		n.ref = func(p, xs, _, _ []*M) []*M {
			a, b := split(0)
			ys, ws := headRef(p, xs[:nq], xs[a:b], cfg.ScaleFactor, cfg.UseCausalMask, 0)
			return append(ys, ws...)
		}
		return n
	}},
	{"self-cached", func(t *T, dt dtype) *netInst {
		// two consecutive calls, gradients through the cache
		cfg := selfattention.Config{InputSize: t.dim(), KeySize: t.dim(), ValueSize: t.dim(), ScaleFactor: dt.quant(t.R.Uni(0.1, 1.5)), UseCausalMask: t.R.Bool()}
		cfg.QuerySize = cfg.KeySize
		m := newSelf(dt, cfg)
		n1, n2 := t.long(t.R.Range(1, 3), 40, 100), t.long(t.R.Range(1, 3), 40, 100)
		parts := []int{n1, n2}
		for t.R.P(0.5) && len(parts) < 6 {
			parts = append(parts, t.R.Pick(1, 1, 1, 2, 3))
		}
		if len(parts) > 2 {
			t.Event("chained caches", 1)
		}
		total := 0
		for _, k := range parts {
			total += k
		}
		n := &netInst{model: m, desc: fmt.Sprintf("cached self %+v %v", cfg, parts), tol: 8, xs: t.seq(total, cfg.InputSize)}
		n.add(m.Query.W, m.Query.B, m.Key.W, m.Key.B, m.Value.W, m.Value.B)
		n.fwd = func(ts ...mat.Tensor) []mat.Tensor {
			var out, ws []mat.Tensor
			c := selfattention.Cache{}
			i := 0
			for _, k := range parts {
				var ys []mat.Tensor
				ys, ws, c = m.Forward(c, ts[i:i+k], ts[i:i+k])
				out = append(out, ys...)
				i += k
			}
			return append(out, ws...)
		}
		n.ref = func(p, xs, _, _ []*M) []*M {
			var out, ws []*M
			i := 0
			for _, k := range parts {
				var ys []*M
				ys, ws = headRef(p, xs[i:i+k], xs[:i+k], cfg.ScaleFactor, cfg.UseCausalMask, i)
				out = append(out, ys...)
				i += k
			}
			return append(out, ws...)
		}
		return n
	}},
	{"cross-cached", func(t *T, dt dtype) *netInst {
		cfg := selfattention.Config{InputSize: t.dim(), KeySize: t.dim(), ValueSize: t.dim(), ScaleFactor: dt.quant(t.R.Uni(0.1, 1.5)), IsCrossAttention: true}
		cfg.QuerySize = cfg.KeySize
		m := newSelf(dt, cfg)
		n1, n2, nx := t.long(t.R.Range(1, 3), 40, 100), t.long(t.R.Range(1, 3), 40, 100), t.long(t.R.Range(1, 4), 40, 100)
		// the cached projections are the context: what is passed along with them is not used
		how := t.R.Intn(3)
		n := &netInst{model: m, desc: fmt.Sprintf("cached cross %+v %d+%d over %d (%d)", cfg, n1, n2, nx, how), tol: 8, xs: t.seq(n1+n2+nx, cfg.InputSize)}
		var other []mat.Tensor
		for _, x := range t.seq(t.R.Range(1, 4), cfg.InputSize) {
			other = append(other, dt.mk(x, false))
		}
		n.add(m.Query.W, m.Query.B, m.Key.W, m.Key.B, m.Value.W, m.Value.B)
		n.fwd = func(ts ...mat.Tensor) []mat.Tensor {
			y1, _, c := m.Forward(selfattention.Cache{}, ts[:n1], ts[n1+n2:])
			ctx := ts[n1+n2:]
			switch how {
			case 1:
				ctx = other
			case 2:
				ctx = ts[n1 : n1+n2]
			}
			y2, _, c := m.Forward(c, ts[n1:n1+n2], ctx)
			if how > 0 { // and the cache it returns is still that of the context
				m.Forward(c, ts[:1], other)
			}
			return append(append([]mat.Tensor{}, y1...), y2...)
		}
		n.ref = func(p, xs, _, _ []*M) []*M {
			ys, _ := headRef(p, xs[:n1+n2], xs[n1+n2:], cfg.ScaleFactor, false, 0)
			return ys
		}
		return n
	}},
	{"multihead", func(t *T, dt dtype) *netInst {
		heads := t.up(t.R.Range(1, 3), 16)
		size := heads * t.up(t.R.Range(1, 3), 10)
		causal := t.R.Bool()
		m := newMulti(dt, size, heads, causal, false)
		n1 := t.long(t.R.Range(1, 4), 33, 100)
		parts := []int{n1}
		if n2 := t.long(t.R.Range(0, 3), 33, 100); n2 > 0 {
			parts = append(parts, n2)
			for t.R.P(0.5) && len(parts) < 6 {
				parts = append(parts, t.R.Pick(1, 1, 1, 2, 3))
			}
		}
		total := 0
		for _, k := range parts {
			total += k
		}
		n := &netInst{model: m, desc: fmt.Sprintf("multihead size=%d heads=%d causal=%v %v", size, heads, causal, parts), tol: 10, xs: t.seq(total, size)}
		n.add(m.OutputMerge.W, m.OutputMerge.B)
		for _, h := range m.Heads {
			n.add(h.Query.W, h.Query.B, h.Key.W, h.Key.B, h.Value.W, h.Value.B)
		}
		n.fwd = func(ts ...mat.Tensor) []mat.Tensor {
			var out []mat.Tensor
			var c multiheadattention.Cache
			i := 0
			for _, k := range parts {
				ys, _, next := m.Forward(c, ts[i:i+k], ts[i:i+k])
				out, c, i = append(out, ys...), next, i+k
			}
			return out
		}
		n.ref = func(p, xs, _, _ []*M) []*M {
			scale := dt.quant(1 / math.Sqrt(float64(size/heads)))
			part := func(q, x []*M, past int) []*M {
				outs := make([][]*M, heads)
				for h := range outs {
					outs[h], _ = headRef(p[2+6*h:8+6*h], q, x, scale, causal, past)
				}
				ys := make([]*M, len(q))
				for i := range ys {
					var cat []*M
					for h := range outs {
						cat = append(cat, outs[h][i])
					}
					ys[i] = affine(p[1], p[0], refConcat(cat))
				}
				return ys
			}
			var out []*M
			i := 0
			for _, k := range parts {
				out = append(out, part(xs[i:i+k], xs[:i+k], i)...)
				i += k
			}
			return out
		}
		return n
	}},
}

// attHistory: outputs of causal attention do not depend on later positions
// (perturbing them changes nothing, bit by bit), and feeding the sequence in
// chunks of any size with the cache gives the outputs of feeding it at once.
func attHistory(t *T, dt dtype) {
	heads := t.R.Range(1, 4)
	size := heads * t.R.Range(1, 4)
	m := newMulti(dt, size, heads, true, false)
	big := t.R.P(0.2)
	lim := 1.0
	if big {
		lim = 4
	}
	set := func(p interface {
		Value() mat.Tensor
	}) {
		s := p.Value().Shape()
		copyInto(p.Value(), dt.quantM(t.randM(s[0], s[1], -lim, lim)))
	}
	set(m.OutputMerge.W)
	set(m.OutputMerge.B)
	for _, h := range m.Heads {
		set(h.Query.W)
		set(h.Query.B)
		set(h.Key.W)
		set(h.Key.B)
		set(h.Value.W)
		set(h.Value.B)
	}
	n := t.R.Range(1, 12)
	seq := t.seq(n, size)
	mk := func(s []*M) []mat.Tensor {
		ts := make([]mat.Tensor, len(s))
		for i := range s {
			ts[i] = dt.mk(s[i], false)
		}
		return ts
	}
	xs := mk(seq)
	full, ws, _ := m.Forward(nil, xs, xs)
	tol := 1e-9
	if dt == f32 {
		tol = 1e-3
	}
	for h := range ws {
		for i, w := range ws[h] {
			v := toM(w.Value())
			s := 0.0
			for r, x := range v.v {
				s += x
				if r > i {
					t.Check(x == 0, "att:masked-weight", "head %d query %d gives weight %v to the later position %d", h, i, x, r)
				}
				t.Check(x >= 0 && x <= 1+1e-5, "att:weight-range", "head %d query %d: weight %v", h, i, x)
			}
			if !t.Check(math.Abs(s-1) < 1e-4, "att:weight-sum", "head %d query %d: the weights sum to %v", h, i, s) {
				return
			}
		}
	}
	// non-interference
	k := t.R.Intn(n)
	seq2 := cloneAll(seq)
	for i := k + 1; i < n; i++ {
		seq2[i] = t.randM(size, 1, -50, 50)
	}
	ys2 := mk(seq2)
	pert, _, _ := m.Forward(nil, ys2, ys2)
	for i := 0; i <= k; i++ {
		if d := diffM(toM(pert[i].Value()), toM(full[i].Value()), tol*1e-3, 1e-3); !t.Check(d == "", "att:looks-ahead", "%s n=%d heads=%d: output %d changes with the inputs after %d: %s", dt, n, heads, i, k, d) {
			return
		}
	}
	t.Event("perturbed", n-1-k)
	// a prefix gives the same outputs
	pre, _, _ := m.Forward(nil, xs[:k+1], xs[:k+1])
	for i := range pre {
		if d := diffM(toM(pre[i].Value()), toM(full[i].Value()), tol, 1e-3); !t.Check(d == "", "att:prefix", "%s n=%d: output %d of the prefix of length %d: %s", dt, n, i, k+1, d) {
			return
		}
	}
	// chunks
	var cache multiheadattention.Cache
	var caches []multiheadattention.Cache
	var outs []mat.Tensor
	desc := ""
	for at := 0; at < n; {
		c := t.R.Range(1, n-at)
		desc += fmt.Sprint(c, " ")
		y, w, next := m.Forward(cache, xs[at:at+c], xs[at:at+c])
		for h := range w {
			for i := range w[h] {
				t.Check(len(toM(w[h][i].Value()).v) == at+c, "att:cache-length", "chunks %s: %d weights, want %d", desc, len(toM(w[h][i].Value()).v), at+c)
			}
		}
		outs = append(outs, y...)
		caches = append(caches, cache)
		cache = next
		at += c
	}
	for i := range outs {
		if d := diffM(toM(outs[i].Value()), toM(full[i].Value()), tol, 1e-2); !t.Check(d == "", "att:chunks", "%s n=%d heads=%d in chunks %s: output %d: %s", dt, n, heads, desc, i, d) {
			return
		}
	}
	// an earlier cache is still valid (branching, as in beam search)
	if len(caches) > 1 {
		b := t.R.Range(1, len(caches)-1)
		var at int
		fmt.Sscan(desc, &at)
		at = 0
		rest := desc
		for i := 0; i < b; i++ {
			var c int
			fmt.Sscan(rest, &c)
			at += c
			rest = rest[len(fmt.Sprint(c, " ")):]
		}
		other := mk(t.seq(1, size))
		m.Forward(caches[b], other, other)
		y, _, _ := m.Forward(caches[b], xs[at:at+1], xs[at:at+1])
		d := diffM(toM(y[0].Value()), toM(full[at].Value()), tol, 1e-2)
		t.Check(d == "", "att:branch", "%s n=%d: continuing from the cache at %d after another continuation: %s", dt, n, at, d)
		t.Event("branches", 1)
	}
	t.Event("chunked", n)
	t.Seen(string(dt), size, heads, desc, k)
	t.Sample("%s multihead size %d heads %d, %d positions in chunks %s, perturbed after %d", dt, size, heads, n, desc, k)
}

// attHuge: masked positions get no weight whatever the scores, and a position
// whose score towers above the others gets all of it.
func attHuge(t *T, dt dtype) {
	n, d := t.R.Range(1, 9), t.R.Range(1, 4)
	mag := pickF(t, 1e2, 1e4, 1e6, 1e8)
	dv := t.R.Range(1, 3)
	q := make([]*M, n)
	for i := range q {
		q[i] = dt.quantM(t.randM(d, 1, -mag, mag))
	}
	k := dt.quantM(t.randM(n, d, -mag, mag))
	if t.R.Bool() { // every visible score is far below the masked ones
		for i := range k.v {
			k.v[i] = -math.Abs(k.v[i]) * pickF(t, 1, 1, 1e-3)
		}
		for i := range q {
			q[i] = q[i].mapf(math.Abs)
		}
		for j := 0; j < d; j++ {
			k.v[(n-1)*d+j] *= -1
		}
	}
	k = dt.quantM(k)
	v := dt.quantM(t.randM(n, dv, -2, 2))
	scale := dt.quant(pickF(t, 1, 0.1, 1e-3))
	causal := t.R.P(0.8)
	ts := make([]mat.Tensor, n)
	for i := range q {
		ts[i] = dt.mk(q[i], true)
	}
	kt, vt := dt.mk(k, true), dt.mk(v, true)
	ys, ws := attention.ScaledDotProductAttention(ts, kt, vt, dt.mkScalar(scale, false), causal)
	what := fmt.Sprintf("%s d=%d n=%d magnitude %g scale %g causal=%v", dt, d, n, mag, scale, causal)
	for i := range ys {
		vis := n
		if causal {
			vis = i + 1
		}
		// the exact scores and their rounding error
		s, e := make([]float64, vis), 0.0
		for r := range s {
			a := 0.0
			for j := 0; j < d; j++ {
				p := k.at(r, j) * q[i].v[j]
				s[r] += p
				a += math.Abs(p)
			}
			s[r] *= scale
			e = math.Max(e, a*scale)
		}
		e *= 16 * dt.tol()
		w, y := toM(ws[i].Value()), toM(ys[i].Value())
		sum := 0.0
		for r, x := range w.v {
			if r >= vis {
				if !t.Check(x == 0, "att:masked-weight", "%s: query %d gives weight %v to the later position %d", what, i, x, r) {
					return
				}
				continue
			}
			if !t.Check(x >= 0 && x <= 1+1e-5, "att:weight-range", "%s: query %d: weight %v of position %d (scores %v)", what, i, x, r, s) {
				return
			}
			sum += x
			top := math.Inf(-1)
			for o, so := range s {
				if o != r {
					top = math.Max(top, so)
				}
			}
			switch {
			case s[r]-top > 40+2*e:
				t.Check(x >= 1-1e-5, "att:dominant", "%s: query %d: position %d has weight %v, scores %v", what, i, r, x, s)
				d := diffM(y.reshape(1, dv), &M{1, dv, v.v[r*dv : (r+1)*dv]}, dt.tol()*4, 1)
				t.Check(d == "", "att:dominant", "%s: query %d attends to position %d only: %s", what, i, r, d)
				t.Event("dominant positions", 1)
			case top-s[r] > 40+2*e:
				t.Check(x <= 1e-10, "att:dominated", "%s: query %d: position %d has weight %v, scores %v", what, i, r, x, s)
			}
		}
		if !t.Check(math.Abs(sum-1) < 1e-4, "att:weight-sum", "%s: query %d: the weights sum to %v (scores %v)", what, i, sum, s) {
			return
		}
		// the output is the average of the visible values
		for j := range y.v {
			lo, hi := math.Inf(1), math.Inf(-1)
			for r := 0; r < vis; r++ {
				lo, hi = math.Min(lo, v.at(r, j)), math.Max(hi, v.at(r, j))
			}
			t.Check(y.v[j] >= lo-1e-4 && y.v[j] <= hi+1e-4, "att:average", "%s: query %d: output %v outside of the visible values [%v, %v]", what, i, y.v[j], lo, hi)
		}
		if vis == 1 {
			t.Event("single positions", 1)
		}
	}
	for _, y := range ys {
		y.AccGrad(dt.mk(dt.quantM(t.randM(dv, 1, -1, 1)), false))
	}
	if err := ag.Backward(ys...); !t.Check(err == nil, "att:backward", "%s: %v", what, err) {
		return
	}
	for i, x := range append(append([]mat.Tensor{}, ts...), kt, vt) {
		if g := gradOf(x); g != nil {
			for _, gx := range g.v {
				if !t.Check(!math.IsNaN(gx) && !math.IsInf(gx, 0), "att:finite-gradient", "%s: gradient of operand %d is %v", what, i, g) {
					return
				}
			}
		}
	}
	// what no query may see gets no gradient
	t.Event("huge scores", n)
	t.Seen(string(dt), n, d, mag, scale, causal)
}

func init() {
	register(&Property{
		ID:    "P20",
		Boost: 5,
		Rule: "attention equals a float64 reference (outputs, weights, gradients of parameters, queries, keys and values by finite differences), single and multi-head, cross, causal, with and without caches; " +
			"causal outputs are unchanged when later positions are perturbed; masked weights are exactly zero and weights sum to one; any chunking with the cache reproduces the outputs of one call; earlier caches stay valid",
		Phases: []Phase{
			netPhase("layers", 80, 3000, attSpecs...),
			bigPhase(6, 200, attSpecs...),
			{Name: "history", Shards: 4, Run: func(c *C) {
				for _, dt := range []dtype{f32, f64} {
					for i := 0; i < c.N(150, 8000); i++ {
						c.Case(fmt.Sprintf("%s/%d", dt, i), func(t *T) { attHistory(t, dt) })
					}
				}
			}, MinEvents: map[string]int64{"chunked": 500, "perturbed": 300, "branches": 50}},
			{Name: "huge", Shards: 4, Run: func(c *C) {
				for _, dt := range []dtype{f32, f64} {
					for i := 0; i < c.N(1500, 60000); i++ {
						c.Case(fmt.Sprintf("%s/%d", dt, i), func(t *T) { attHuge(t, dt) })
					}
				}
			}, MinEvents: map[string]int64{"huge scores": 5000, "dominant positions": 1000, "single positions": 1000}},
		},
	})
}

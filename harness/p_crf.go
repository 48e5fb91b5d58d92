package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn/crf"
)

// paths calls f with every tag sequence and its score.
func crfPaths(tr *M, em []*M, f func(tags []int, score float64)) {
	size := tr.r - 1
	tags := make([]int, len(em))
	var rec func(i int, s float64)
	rec = func(i int, s float64) {
		if i == len(em) {
			f(tags, s+tr.at(tags[i-1]+1, 0))
			return
		}
		prev := 0
		if i > 0 {
			prev = tags[i-1] + 1
		}
		for k := 0; k < size; k++ {
			tags[i] = k
			rec(i+1, s+tr.at(prev, k+1)+em[i].v[k])
		}
	}
	rec(0, 0)
}

func crfScore(tr *M, em []*M, tags []int) float64 {
	s, prev := 0.0, 0
	for i, k := range tags {
		s += tr.at(prev, k+1) + em[i].v[k]
		prev = k + 1
	}
	return s + tr.at(prev, 0)
}

func newCRF(dt dtype, size int) *crf.Model {
	if dt == f32 {
		return crf.New[float32](size)
	}
	return crf.New[float64](size)
}

// lattice sums over all tag sequences by dynamic programming, for sequences too
// long to enumerate. On short ones it is compared with the enumeration.
type lattice struct {
	tr   *M
	em   []*M
	a, b [][]float64 // log-sums over the prefixes and suffixes at each tag
	z    float64
	best float64
}

func newLattice(tr *M, em []*M) *lattice {
	size, n := tr.r-1, len(em)
	l := &lattice{tr: tr, em: em, a: make([][]float64, n), b: make([][]float64, n)}
	best := make([]float64, size)
	for i := range em {
		l.a[i] = make([]float64, size)
		next := make([]float64, size)
		for k := range l.a[i] {
			if i == 0 {
				l.a[i][k] = tr.at(0, k+1) + em[i].v[k]
				next[k] = l.a[i][k]
				continue
			}
			s := make([]float64, size)
			next[k] = math.Inf(-1)
			for h := range s {
				s[h] = l.a[i-1][h] + tr.at(h+1, k+1)
				next[k] = math.Max(next[k], best[h]+tr.at(h+1, k+1)+em[i].v[k])
			}
			l.a[i][k] = lseRef(s) + em[i].v[k]
		}
		best = next
	}
	l.best = math.Inf(-1)
	end := make([]float64, size)
	for k := range end {
		end[k] = l.a[n-1][k] + tr.at(k+1, 0)
		l.best = math.Max(l.best, best[k]+tr.at(k+1, 0))
	}
	l.z = lseRef(end)
	for i := n - 1; i >= 0; i-- {
		l.b[i] = make([]float64, size)
		for k := range l.b[i] {
			if i == n-1 {
				l.b[i][k] = tr.at(k+1, 0)
				continue
			}
			s := make([]float64, size)
			for h := range s {
				s[h] = tr.at(k+1, h+1) + em[i+1].v[h] + l.b[i+1][h]
			}
			l.b[i][k] = lseRef(s)
		}
	}
	return l
}

// counts adds the expected number of uses of every transition and emission.
func (l *lattice) counts(gt *M, ge []*M) {
	size, n := l.tr.r-1, len(l.em)
	for i := range l.em {
		for k := 0; k < size; k++ {
			p := math.Exp(l.a[i][k] + l.b[i][k] - l.z)
			ge[i].v[k] += p
			if i == 0 {
				gt.v[k+1] += p
			}
			if i == n-1 {
				gt.v[(k+1)*(size+1)] += p
				continue
			}
			for h := 0; h < size; h++ {
				gt.v[(k+1)*(size+1)+h+1] += math.Exp(l.a[i][k] + l.tr.at(k+1, h+1) + l.em[i+1].v[h] + l.b[i+1][h] - l.z)
			}
		}
	}
}

var crfSpec = netSpec{"nll", func(t *T, dt dtype) *netInst {
	size, ls := t.R.Range(1, 4), t.R.Range(1, 4)
	if t.R.P(0.3) {
		size, ls = t.R.Range(1, 3), t.R.Range(5, 14)
	}
	size, ls = t.up(size, 24), t.long(ls, 65, 129)
	m := newCRF(dt, size)
	target := make([]int, ls)
	for i := range target {
		target[i] = t.R.Intn(size)
	}
	n := &netInst{model: m, desc: fmt.Sprintf("crf(%d) target %v", size, target), xs: t.seq(ls, size), tol: 3, pscale: 2}
	n.add(m.TransitionScores)
	n.fwd = func(ts ...mat.Tensor) []mat.Tensor { return []mat.Tensor{m.NegativeLogLoss(ts, target)} }
	n.ref = func(p, xs, _, _ []*M) []*M { return []*M{scalarM(newLattice(p[0], xs).z - crfScore(p[0], xs, target))} }
	return n
}}

func crfHostile(t *T, dt dtype) {
	size, ls := t.R.Range(1, 4), t.R.Range(1, 5)
	long := t.R.P(0.35)
	if long {
		size, ls = t.R.Range(1, 8), t.R.Range(6, 40)
		switch t.R.Intn(100) {
		case 0, 1: // many tags
			size, ls = t.R.Pick(65, 129, 200, 257, 300), t.R.Range(1, 4)
		case 2, 3: // many steps
			size, ls = t.R.Range(1, 3), t.R.Pick(65, 129, 200, 257)
		}
	}
	lim := []float64{1, 30, 200, 3000, 1e5}[t.R.Intn(5)]
	off := 0.0
	if t.R.Bool() {
		off = t.R.Uni(-lim, lim) * 3
	}
	m := newCRF(dt, size)
	tr := dt.quantM(t.randM(size+1, size+1, -lim, lim))
	ties := t.R.P(0.2)
	em := make([]*M, ls)
	for i := range em {
		em[i] = dt.quantM(t.randM(size, 1, -lim, lim).mapf(func(x float64) float64 { return x + off }))
		if ties {
			em[i] = em[i].mapf(math.Round)
		}
	}
	slack := 1e-12
	if ties {
		tr = tr.mapf(math.Round)
		if dt == f64 { // sums of integers are exact, however large
			slack = 0
			if t.R.Bool() {
				base := math.Exp2(float64(t.R.Range(20, 42)))
				for i := range em {
					em[i] = em[i].mapf(func(x float64) float64 { return math.Round(math.Mod(x, 4)) + base })
				}
				tr = tr.mapf(func(x float64) float64 { return math.Mod(x, 3) })
				t.Event("exact scores", 1)
			}
		}
	}
	setParam(m.TransitionScores, tr, dt)
	leaves := make([]*leaf, ls)
	ts := make([]mat.Tensor, ls)
	for i := range em {
		leaves[i] = &leaf{v: em[i], grad: true, t: dt.mk(em[i], true)}
		ts[i] = leaves[i].t
	}
	scale := 0.0
	for i := range em {
		scale += em[i].maxAbs()
	}
	scale += float64(ls+1) * tr.maxAbs()
	eps := 1e-12
	if dt == f32 {
		eps = 4e-6
	}
	// decoding
	lat := newLattice(tr, em)
	best, n := lat.best, ls
	if !long {
		best, n = math.Inf(-1), 0
		crfPaths(tr, em, func(_ []int, s float64) { best = math.Max(best, s); n++ })
		if math.Abs(best-lat.best) > 1e-11*scale {
			panic("harness: the dynamic programme disagrees with the enumeration")
		}
	}
	got := m.Decode(ts)
	desc := fmt.Sprintf("%s crf(%d) transitions %v emissions %v", dt, size, tr, em)
	if !t.Check(len(got) == ls, "crf:decode-length", "%s: decoded %v", desc, got) {
		return
	}
	for _, k := range got {
		if !t.Check(k >= 0 && k < size, "crf:decode-range", "%s: decoded %v", desc, got) {
			return
		}
	}
	if s := crfScore(tr, em, got); !t.Check(s >= best-slack*scale, "crf:decode", "%s: decoded %v with score %v, the best is %v", desc, got, s, best) {
		return
	}
	t.Event("tag sequences", n)
	if size > 60 {
		return
	}
	// loss
	target := make([]int, ls)
	for i := range target {
		target[i] = t.R.Intn(size)
	}
	if t.R.P(0.4) {
		copy(target, got)
	}
	loss := m.NegativeLogLoss(ts, target)
	want := lat.z - crfScore(tr, em, target)
	v := loss.Value().Item().F64()
	if !t.Check(!math.IsNaN(v) && !math.IsInf(v, 0), "crf:loss-finite", "%s: loss of %v is %v, want %v", desc, target, v, want) {
		return
	}
	if !t.Check(math.Abs(v-want) <= eps*scale*4+eps, "crf:loss", "%s: loss of %v is %v, want %v", desc, target, v, want) {
		return
	}
	t.Check(v >= -eps*scale*4-eps, "crf:loss-negative", "%s: loss of %v is %v", desc, target, v)
	loss.AccGrad(dt.mkScalar(1, false))
	if err := ag.Backward(loss); err != nil {
		t.Fail("crf:backward", "%v", err)
		return
	}
	// expected minus observed counts
	gt := newM(size+1, size+1)
	ge := make([]*M, ls)
	for i := range ge {
		ge[i] = newM(size, 1)
	}
	z := lat.z
	if !long {
		var scores []float64
		crfPaths(tr, em, func(_ []int, s float64) { scores = append(scores, s) })
		z = lseRef(scores)
		if math.Abs(z-lat.z) > 1e-11*scale {
			panic("harness: the dynamic programme disagrees with the enumeration")
		}
	}
	count := func(tags []int, w float64) {
		prev := 0
		for i, k := range tags {
			gt.v[prev*(size+1)+k+1] += w
			ge[i].v[k] += w
			prev = k + 1
		}
		gt.v[prev*(size+1)] += w
	}
	if long {
		lat.counts(gt, ge)
		t.Event("long sequences", 1)
	} else {
		crfPaths(tr, em, func(tags []int, s float64) { count(tags, math.Exp(s-z)) })
	}
	count(target, -1)
	// probabilities carry the rounding error of the scores
	tol := math.Min(1e-6+20*eps*scale, 1.5) * math.Max(1, float64(ls)/4)
	check := func(what string, g mat.Tensor, want *M) bool {
		if isNilT(g) {
			return t.Check(want.maxAbs() <= tol, "crf:gradient", "%s target %v: no gradient of %s, want %v", desc, target, what, want)
		}
		d := diffM(toM(g), want, tol, 1)
		return t.Check(d == "", "crf:gradient", "%s target %v: gradient of %s: %s", desc, target, what, d)
	}
	if !check("the transitions", m.TransitionScores.Grad(), gt) {
		return
	}
	for i := range ge {
		if !check(fmt.Sprintf("emission %d", i), ts[i].Grad(), ge[i]) {
			return
		}
	}
	t.Event("gradients", 1)
	t.Seen(string(dt), size, ls, lim, fmt.Sprint(target))
	t.Sample("%s crf size %d length %d magnitude %g: %d sequences, loss %.6g", dt, size, ls, lim, n, v)
}

func init() {
	register(&Property{
		ID:    "P23",
		Boost: 5,
		Rule: "CRF against the enumeration of all tag sequences: the decoded sequence has the maximal score; the loss is log-sum-exp of all scores minus the target's, finite and non-negative at any magnitude; " +
			"gradients equal expected minus observed counts (and finite differences)",
		Phases: []Phase{
			netPhase("nll", 100, 5000, crfSpec),
			bigPhase(15, 300, crfSpec),
			{Name: "enumeration", Shards: 8, Run: func(c *C) {
				for _, dt := range []dtype{f32, f64} {
					for i := 0; i < c.N(400, 30000); i++ {
						c.Case(fmt.Sprintf("%s/%d", dt, i), func(t *T) { crfHostile(t, dt) })
					}
				}
			}, MinEvents: map[string]int64{"tag sequences": 1000, "gradients": 100, "long sequences": 100}},
		},
	})
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/optimizers"
)

// embHolder is a model that shares one table of embeddings.
type embHolder struct {
	nn.Module
	W      *nn.Param
	Emb    *embedding.Model
	Tied   embedding.Shared
	Others []*embedding.Model
}

// addRows is a strategy with exact arithmetic: it subtracts the gradient.
type addRows struct {
	mu    sync.Mutex
	calls map[*nn.Param]int
}

func (s *addRows) OptimizeParams(p *nn.Param) error {
	s.mu.Lock()
	s.calls[p]++
	s.mu.Unlock()
	p.SubInPlace(p.Grad().(mat.Matrix))
	p.ZeroGrad()
	return nil
}

// embHist is one history on a table and its reference.
type embHist struct {
	t    *T
	dt   dtype
	key  string
	dim  int
	val  []*M
	grad map[int]*M
	h    *embHolder
	m    *embedding.Model
	log  []string
	held []heldEmb // look-ups kept across operations
}

type heldEmb struct {
	x   mat.Tensor
	idx int
}

func (e *embHist) logf(f string, args ...any) { e.log = append(e.log, fmt.Sprintf(f, args...)) }

func (e *embHist) story() string {
	s := fmt.Sprintf("%d embeddings of %d, %s:", len(e.val), e.dim, e.dt)
	for _, l := range e.log {
		s += "\n  " + l
	}
	return s
}

func (e *embHist) ints(lo, hi int) *M {
	m := newM(e.dim, 1)
	for i := range m.v {
		m.v[i] = float64(e.t.R.Range(lo, hi))
	}
	return m
}

func newEmbModel(dt dtype, size, dim int) *embedding.Model {
	if dt == f32 {
		return embedding.New[float32](size, dim)
	}
	return embedding.New[float64](size, dim)
}

func newEmbHist(t *T, key string) *embHist {
	e := &embHist{t: t, dt: []dtype{f32, f64}[t.R.Intn(2)], key: key, dim: t.up(t.R.Range(1, 5), 65), grad: map[int]*M{}}
	size := t.up(t.R.Range(1, 12), 257)
	e.m = newEmbModel(e.dt, size, e.dim)
	t.Check(e.m.Size == size && e.m.Dim == e.dim && len(e.m.Weights) == size, key+":new", "a table of %d×%d has Size %d, Dim %d, %d rows", size, e.dim, e.m.Size, e.m.Dim, len(e.m.Weights))
	for i := 0; i < size; i++ {
		e.val = append(e.val, newM(e.dim, 1))
	}
	e.check("a new table")
	for i := range e.val {
		v := e.ints(-8, 8)
		e.val[i] = v
		for k, x := range v.v {
			e.m.Weights[i].SetScalar(f64.mkScalar(x, false).Item(), k)
		}
	}
	e.h = &embHolder{W: nn.NewParam(e.dt.mk(newM(1, 1), false)), Emb: e.m, Tied: embedding.Shared{Model: e.m}}
	return e
}

// addGrad accumulates on the reference.
func (e *embHist) addGrad(idx int, g *M) {
	if e.grad[idx] == nil {
		e.grad[idx] = newM(e.dim, 1)
	}
	for k := range g.v {
		e.grad[idx].v[k] += g.v[k]
	}
}

// check compares the whole table with the reference.
func (e *embHist) check(when string) bool {
	t := e.t
	if t.Failed() {
		return false
	}
	fail := func(what, f string, args ...any) bool {
		t.Fail(e.key+":"+what, "%s\n%s: %s", e.story(), when, fmt.Sprintf(f, args...))
		return false
	}
	want := map[*nn.Param]int{}
	for i, w := range e.m.Weights {
		if d := diffM(toM(w), e.val[i], 0, 0); d != "" {
			return fail("value", "row %d: %s", i, d)
		}
		if !w.RequiresGrad() {
			return fail("flag", "row %d does not require gradients", i)
		}
		g := e.grad[i]
		switch {
		case g == nil && w.HasGrad():
			return fail("gradient", "row %d has the gradient %v, want none", i, toM(w.Grad()).v)
		case g != nil && !w.HasGrad():
			return fail("gradient", "row %d has no gradient, want %v", i, g.v)
		case g != nil:
			if d := diffM(toM(w.Grad()), g, 0, 0); d != "" {
				return fail("gradient", "gradient of row %d: %s", i, d)
			}
			want[w] = i
		}
		t.Event("rows compared", 1)
	}
	// the order of look at the table and at its count is random: either may
	// have to notice the change first
	count := func() bool {
		if n := e.m.CountEmbedWithGrad(); n != len(want) {
			return fail("count", "%d embeddings with gradients are counted, want %d", n, len(want))
		}
		return true
	}
	visit := func(name string, each func(func(*nn.Param)), extra *nn.Param) bool {
		got := map[*nn.Param]int{}
		each(func(p *nn.Param) { got[p]++ })
		for p, n := range got {
			if n != 1 {
				return fail("traversal", "%s visits a parameter %d times", name, n)
			}
			if _, ok := want[p]; !ok && p != extra {
				return fail("traversal", "%s visits a row without gradient", name)
			}
		}
		for p, i := range want {
			if got[p] == 0 {
				return fail("traversal", "%s misses row %d, which has a gradient", name, i)
			}
		}
		if extra != nil && got[extra] == 0 {
			return fail("traversal", "%s misses the other parameter", name)
		}
		t.Event("traversals", 1)
		return true
	}
	first := t.R.Bool()
	if first && !count() {
		return false
	}
	if !visit("TraverseParams", e.m.TraverseParams, nil) {
		return false
	}
	if !visit("ForEachParam", func(f func(*nn.Param)) { nn.ForEachParam(e.m, f) }, nil) {
		return false
	}
	if e.h != nil && !visit("ForEachParam of the model around", func(f func(*nn.Param)) { nn.ForEachParam(e.h, f) }, e.h.W) {
		return false
	}
	if !count() {
		return false
	}
	for _, h := range e.held {
		if d := diffM(toM(h.x), e.val[h.idx], 0, 0); d != "" {
			return fail("look-up", "an earlier look-up of row %d: %s", h.idx, d)
		}
		if h.x.HasGrad() != (e.grad[h.idx] != nil) {
			return fail("look-up", "an earlier look-up of row %d: HasGrad %v", h.idx, h.x.HasGrad())
		}
	}
	return true
}

// encode looks a random sequence up and checks what it gets.
func (e *embHist) encode(r *Rng, seq []int) []mat.Tensor {
	var xs []mat.Tensor
	var err error
	switch r.Intn(3) {
	case 0:
		xs, err = e.m.Encode(seq)
	case 1:
		xs = e.m.MustEncode(seq)
	default:
		for _, i := range seq {
			var x *embedding.Embedding
			if x, err = e.m.Embedding(i); err != nil {
				break
			}
			xs = append(xs, x)
		}
	}
	if !e.t.Check(err == nil && len(xs) == len(seq), e.key+":encode", "%s\nencoding %v: %d embeddings, error %v", e.story(), seq, len(xs), err) {
		return nil
	}
	return xs
}

func (e *embHist) checkRows(seq []int, xs []mat.Tensor) bool {
	for k, i := range seq {
		if d := diffM(toM(xs[k]), e.val[i], 0, 0); d != "" {
			e.t.Fail(e.key+":encode", "%s\nencoding %v: element %d: %s", e.story(), seq, k, d)
			return false
		}
		e.t.Event("embeddings looked up", 1)
	}
	return true
}

func (e *embHist) seq(r *Rng, n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = r.Intn(len(e.val))
		if i > 0 && r.P(0.3) {
			s[i] = s[r.Intn(i)]
		}
	}
	return s
}

// backward back-propagates a function of a sequence; grads receives the
// expected gradient of each occurrence. All values are small integers, so
// that sums are exact in any order.
func (e *embHist) backward(r *Rng, seq []int, xs []mat.Tensor, grads func(i int, g *M)) error {
	var outs []mat.Tensor
	unit := newM(e.dim, 1)
	for k := 0; k < len(seq); k++ {
		switch c := r.Intn(5); {
		case c == 0 && k+1 < len(seq): // a product of two embeddings
			i, j := seq[k], seq[k+1]
			outs = append(outs, ag.Dot(xs[k], xs[k+1]))
			grads(i, e.val[j])
			grads(j, e.val[i])
			k++
		case c == 1: // the same look-up used twice
			f := float64(r.Range(-3, 3))
			outs = append(outs, ag.ReduceSum(ag.Add(ag.ProdScalar(xs[k], e.dt.mkScalar(f, false)), xs[k])))
			g := unit.clone()
			for n := range g.v {
				g.v[n] = f + 1
			}
			grads(seq[k], g)
		case c == 2: // an element
			n := r.Intn(e.dim)
			outs = append(outs, ag.At(xs[k], n))
			g := unit.clone()
			g.v[n] = 1
			grads(seq[k], g)
		default: // a dot product with a constant
			g := unit.clone()
			for n := range g.v {
				g.v[n] = float64(r.Range(-4, 4))
			}
			outs = append(outs, ag.Dot(xs[k], e.dt.mk(g, false)))
			grads(seq[k], g)
		}
	}
	if r.Bool() {
		return ag.Backward(ag.Sum(outs...))
	}
	return ag.Backward(outs...)
}

func (e *embHist) step() {
	t := e.t
	n := len(e.val)
	switch op := t.R.Intn(15); op {
	case 0, 1, 2, 3: // one pass
		seq := e.seq(t.R, t.up(t.R.Range(1, 10), 100))
		e.logf("pass over %v", seq)
		xs := e.encode(t.R, seq)
		if xs == nil || !e.checkRows(seq, xs) {
			return
		}
		if t.R.P(0.3) {
			k := t.R.Intn(len(seq))
			e.held = append(e.held, heldEmb{xs[k], seq[k]})
		}
		if err := e.backward(t.R, seq, xs, e.addGrad); err != nil {
			t.Fail(e.key+":backward", "%s\nBackward: %v", e.story(), err)
		}
	case 4: // two graphs over the same table at the same time
		k := t.R.Range(2, 6)
		e.logf("%d concurrent passes", k)
		var wg sync.WaitGroup
		var mu sync.Mutex
		var sum []func()
		var errs []error
		type job struct {
			r   *Rng
			seq []int
		}
		jobs := make([]job, k)
		for i := range jobs {
			r := t.R.Fork()
			jobs[i] = job{r, e.seq(r, r.Range(1, 6))}
		}
		for _, j := range jobs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				xs, err := e.m.Encode(j.seq)
				if err == nil {
					err = e.backward(j.r, j.seq, xs, func(i int, g *M) {
						mu.Lock()
						sum = append(sum, func() { e.addGrad(i, g) })
						mu.Unlock()
					})
				}
				// the count may be asked for at any time
				if c := e.m.CountEmbedWithGrad(); c > n {
					err = fmt.Errorf("count %d of %d", c, n)
				}
				mu.Lock()
				errs = append(errs, err)
				mu.Unlock()
			}()
		}
		wg.Wait()
		for _, f := range sum {
			f()
		}
		for _, err := range errs {
			t.Check(err == nil, e.key+":concurrent", "%s\nconcurrent pass: %v", e.story(), err)
		}
		t.Event("concurrent passes", k)
	case 5: // gradient given by hand
		i := t.R.Intn(n)
		g := e.ints(-5, 5)
		e.logf("AccGrad of row %d", i)
		x := e.encode(t.R, []int{i})
		if x == nil {
			return
		}
		x[0].AccGrad(e.dt.mk(g, false))
		e.addGrad(i, g)
	case 6: // clear everything
		k := t.R.Intn(4)
		e.logf("zero all gradients (way %d)", k)
		switch k {
		case 0:
			e.m.ZeroGrad()
		case 1:
			nn.ZeroGrad(e.m)
		case 2:
			nn.ZeroGrad(e.h)
		case 3:
			e.m.TraverseParams(func(p *nn.Param) { p.ZeroGrad() })
		}
		clear(e.grad)
	case 7: // clear one
		i := t.R.Intn(n)
		if t.R.Bool() {
			e.logf("zero the gradient of row %d", i)
			if x := e.encode(t.R, []int{i}); x != nil {
				x[0].ZeroGrad()
			}
		} else {
			e.logf("zero the gradient of the parameter of row %d", i)
			e.m.Weights[i].ZeroGrad()
		}
		delete(e.grad, i)
	case 8, 9: // optimise
		e.logf("optimisation step")
		s := &addRows{calls: map[*nn.Param]int{}}
		var root nn.Model = e.m
		if t.R.Bool() {
			root = e.h
		}
		if err := optimizers.New(nn.Parameters(root), s).Optimize(); err != nil {
			t.Fail(e.key+":optimise", "%s\nOptimize: %v", e.story(), err)
			return
		}
		for i, w := range e.m.Weights {
			c := 0
			if e.grad[i] != nil {
				c = 1
			}
			if !t.Check(s.calls[w] == c, e.key+":optimise", "%s\nrow %d is updated %d times, want %d", e.story(), i, s.calls[w], c) {
				return
			}
			if c == 1 {
				for k := range e.val[i].v {
					e.val[i].v[k] -= e.grad[i].v[k]
				}
			}
		}
		clear(e.grad)
		t.Event("optimisation steps", 1)
	case 10: // out of range
		seq := e.seq(t.R, t.R.Range(0, 5))
		bad := t.R.Pick(-1, n, n+1, -n, 1<<40, -1<<62)
		k := t.R.Intn(len(seq) + 1)
		seq = append(seq[:k], append([]int{bad}, seq[k:]...)...)
		e.logf("encode %v", seq)
		xs, err := e.m.Encode(seq)
		t.Check(errors.Is(err, nn.ErrInvalidIndex) && xs == nil, e.key+":range", "%s\nencoding %v: %v, %v", e.story(), seq, xs, err)
		x, err := e.m.Embedding(bad)
		t.Check(errors.Is(err, nn.ErrInvalidIndex) && x == nil, e.key+":range", "%s\nembedding %d: %v, %v", e.story(), bad, x, err)
		none, err := e.m.Encode(nil)
		t.Check(err == nil && len(none) == 0, e.key+":range", "encoding nothing: %v, %v", none, err)
	case 11, 12: // save and load
		e.saveLoad()
	case 13: // new value
		i := t.R.Intn(n)
		v := e.ints(-8, 8)
		e.logf("replace the value of row %d", i)
		given := e.dt.mk(v, false)
		x, err := e.m.Embedding(i)
		if err != nil {
			t.Fail(e.key+":encode", "Embedding(%d): %v", i, err)
			return
		}
		x.ReplaceValue(given)
		e.val[i] = v
		delete(e.grad, i)
		// the given matrix is not the row
		e.t.Event("values replaced", 1)
		defer func() {
			given.SetScalar(f64.mkScalar(99, false).Item(), 0)
		}()
	case 14: // values stay small, so that arithmetic stays exact
		e.logf("reset values")
		for i := range e.val {
			v := e.ints(-8, 8)
			e.val[i] = v
			for k, x := range v.v {
				e.m.Weights[i].SetScalar(f64.mkScalar(x, false).Item(), k)
			}
		}
	}
	big := false
	for _, v := range e.val {
		big = big || v.maxAbs() > 1000
	}
	for _, g := range e.grad {
		big = big || g.maxAbs() > 1000
	}
	if big {
		e.m.ZeroGrad()
		clear(e.grad)
		for i := range e.val {
			v := e.ints(-8, 8)
			e.val[i] = v
			for k, x := range v.v {
				e.m.Weights[i].SetScalar(f64.mkScalar(x, false).Item(), k)
			}
		}
		e.logf("values and gradients reset")
	}
}

// saveLoad replaces the table with what is loaded back; gradients are not saved.
func (e *embHist) saveLoad() {
	t := e.t
	bare := t.R.Bool()
	e.logf("save and load (alone: %v)", bare)
	var buf bytes.Buffer
	var err error
	fail := func(err error) bool {
		if err != nil {
			t.Fail(e.key+":save", "%s\nsave and load: %v", e.story(), err)
		}
		return err != nil
	}
	file := ""
	if t.R.P(0.2) {
		d, err := os.MkdirTemp("", "emb")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		file = filepath.Join(d, "m")
	}
	before := map[int]bool{}
	for i := range e.grad {
		before[i] = true
	}
	if bare {
		var m *embedding.Model
		if file != "" {
			if fail(nn.DumpToFile(e.m, file)) {
				return
			}
			m, err = nn.LoadFromFile[*embedding.Model](file)
		} else {
			if fail(nn.Dump(e.m, &buf)) {
				return
			}
			m, err = nn.Load[*embedding.Model](&buf)
		}
		if fail(err) || !e.check("after saving") {
			return
		}
		e.m = m
		e.h.Emb, e.h.Tied = m, embedding.Shared{Model: m}
	} else {
		var h *embHolder
		if file != "" {
			if fail(nn.DumpToFile(e.h, file)) {
				return
			}
			h, err = nn.LoadFromFile[*embHolder](file)
		} else {
			if fail(nn.Dump(e.h, &buf)) {
				return
			}
			h, err = nn.Load[*embHolder](&buf)
		}
		if fail(err) || !e.check("after saving") {
			return
		}
		if h.Emb == nil || h.W == nil {
			t.Fail(e.key+":save", "%s\nparts of the model are lost", e.story())
			return
		}
		// before the shared table is connected again, the model is usable
		n := 0
		nn.ForEachParam(h, func(*nn.Param) { n++ })
		t.Check(n == 1, e.key+":save", "%s\nthe loaded model lists %d parameters with gradients, want its only other parameter", e.story(), n)
		if h.Tied.Model != nil {
			t.Fail(e.key+":shared", "%s\nthe shared table was saved with the model", e.story())
			return
		}
		h.Tied = embedding.Shared{Model: h.Emb}
		e.h, e.m = h, h.Emb
	}
	t.Check(e.m.Size == len(e.val) && e.m.Dim == e.dim && len(e.m.Weights) == len(e.val), e.key+":save", "%s\nthe loaded table has Size %d, Dim %d, %d rows", e.story(), e.m.Size, e.m.Dim, len(e.m.Weights))
	clear(e.grad)
	e.held = nil
	t.Event("saved and loaded", 1)
}

func embCase(t *T, steps int) {
	e := newEmbHist(t, "embedding")
	for i := t.R.Range(1, steps); i > 0 && !t.Failed(); i-- {
		e.step()
		t.Checked(1)
		if t.R.P(0.7) || i == 1 {
			e.check("after the last operation")
		}
	}
	sig := []string{}
	for i := range e.grad {
		sig = append(sig, fmt.Sprint(i))
	}
	sort.Strings(sig)
	t.Seen(e.story(), sig)
	if t.R.P(0.001) {
		t.Sample("%s", e.story())
	}
}

// embStress: passes, counts, traversals and look-ups from many goroutines.
func embStress(t *T) {
	e := newEmbHist(t, "stress")
	workers, rounds := t.R.Range(2, 6), t.R.Range(1, 4)
	var mu sync.Mutex
	var sum []func()
	var errs []error
	var wg sync.WaitGroup
	known := map[*nn.Param]bool{}
	for _, w := range e.m.Weights {
		known[w] = true
	}
	for w := 0; w < workers; w++ {
		r := t.R.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < rounds; k++ {
				seq := e.seq(r, r.Range(1, 8))
				xs, err := e.m.Encode(seq)
				if err == nil {
					err = e.backward(r, seq, xs, func(i int, g *M) {
						mu.Lock()
						sum = append(sum, func() { e.addGrad(i, g) })
						mu.Unlock()
					})
				}
				if err != nil {
					mu.Lock()
					errs = append(errs, err)
					mu.Unlock()
				}
				pause(r.Intn(3))
			}
		}()
	}
	for w := 0; w < 2; w++ { // observers
		r := t.R.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < rounds*2; k++ {
				c := 0
				seen := map[*nn.Param]bool{}
				var err error
				visit := func(p *nn.Param) {
					c++
					if seen[p] || !known[p] || !p.HasGrad() {
						err = fmt.Errorf("a traversal during back-propagation visits a row twice, a foreign one or one without gradient")
					}
					seen[p] = true
				}
				switch r.Intn(3) {
				case 0:
					nn.ForEachParam(e.m, visit)
				case 1:
					e.m.TraverseParams(visit)
				case 2:
					c = e.m.CountEmbedWithGrad()
				}
				if c > len(e.val) {
					err = fmt.Errorf("count %d of %d", c, len(e.val))
				}
				if err != nil {
					mu.Lock()
					errs = append(errs, err)
					mu.Unlock()
				}
				pause(r.Intn(3))
			}
		}()
	}
	wg.Wait()
	for _, f := range sum {
		f()
	}
	for _, err := range errs {
		t.Check(err == nil, "stress:pass", "%v", err)
	}
	e.check("after concurrent passes and traversals")
	// concurrent clearing of single rows
	for _, i := range t.R.Perm(len(e.val)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if x, err := e.m.Embedding(i); err == nil {
				x.ZeroGrad()
			}
		}()
	}
	wg.Wait()
	clear(e.grad)
	e.check("after all rows were cleared concurrently")
	t.Event("concurrent workers", workers+2)
	t.Checked(1)
	t.Seen(workers, rounds, len(sum))
}

func init() {
	register(&Property{
		ID: "P17", Boost: 2, Rule: "after every operation of a random history (look-ups with repetitions, passes alone and concurrent, gradients by hand, clearing in every way, optimisation steps, replaced values, save and load, out-of-range indices) all rows, gradients, counts and traversals equal a reference table with exact integer arithmetic",
		Level: "real code under monitors, plus race detector",
		Phases: []Phase{
			{Name: "histories", Shards: 8, Run: func(c *C) {
				for i := 0; i < c.N(4000, 120000); i++ {
					c.Case(fmt.Sprintf("history/%d", i), func(t *T) {
						t.big = i%20 == 7
						embCase(t, 30)
					})
				}
			}, MinEvents: map[string]int64{"rows compared": 10000, "saved and loaded": 100, "optimisation steps": 100, "values replaced": 100, "concurrent passes": 100, "embeddings looked up": 1000, "traversals": 1000}},
			{Name: "stress", Variant: "race", Shards: 4, Run: func(c *C) {
				for i := 0; i < c.N(400, 12000); i++ {
					c.Case(fmt.Sprintf("stress/%d", i), embStress)
				}
				for i := 0; i < c.N(100, 3000); i++ {
					c.Case(fmt.Sprintf("history/%d", i), func(t *T) { embCase(t, 20) })
				}
			}, MinEvents: map[string]int64{"concurrent workers": 100}},
		},
	})
}

package main

import (
	"bytes"
	"context"
	"fmt"
	"math"
	"strings"
	"sync"
	"time"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/embedding"
)

// slowFn is a function of its operands (their weighted sum) that takes its time.
type slowFn struct {
	xs   []mat.Tensor
	wait time.Duration
	dt   dtype
	mu   sync.Mutex
	runs int
	asks int
}

func (f *slowFn) Operands() []mat.Tensor {
	f.mu.Lock()
	f.asks++
	f.mu.Unlock()
	return f.xs
}

func (f *slowFn) Forward() (mat.Tensor, error) {
	f.mu.Lock()
	f.runs++
	f.mu.Unlock()
	if f.wait > 0 {
		time.Sleep(f.wait)
	} else {
		pause(20)
	}
	var o *M
	for _, x := range f.xs {
		v := toM(x.Value())
		if o == nil {
			o = v.clone()
		} else {
			o = addM(o, v)
		}
	}
	return f.dt.mk(o, false), nil
}

func (f *slowFn) Backward(gy mat.Tensor) error {
	pause(5)
	for _, x := range f.xs {
		if x.RequiresGrad() {
			x.AccGrad(gy)
		}
	}
	return nil
}

func intM(t *T, r, c int) *M {
	return newM(r, c).mapf(func(float64) float64 { return float64(t.R.Range(-9, 9)) })
}

// nodeCase: whatever is asked first of an operator whose evaluation is still
// under way, by whomever, the answer is the one of its finished value.
func nodeCase(t *T) {
	dt := []dtype{f32, f64}[t.R.Intn(2)]
	r, c := t.R.Range(1, 4), t.R.Range(1, 4)
	if t.R.P(0.3) {
		r, c = 1, 1
	}
	k := t.R.Range(1, 3)
	var xs []mat.Tensor
	want := newM(r, c)
	grads := make([]bool, k)
	req := false
	for i := 0; i < k; i++ {
		m := intM(t, r, c)
		want = addM(want, m)
		grads[i] = t.R.P(0.6)
		req = req || grads[i]
		xs = append(xs, dt.mk(m, grads[i]))
	}
	f := &slowFn{xs: xs, dt: dt}
	if t.R.P(0.1) {
		f.wait = time.Duration(t.R.Range(1, 300)) * time.Microsecond
	}
	mode := t.R.Intn(3)
	op := ag.NewOperator(f)
	switch mode {
	case 0:
		op.Run()
	case 1:
		op.Run(true)
	case 2:
		op.Run(false)
	}
	key := "node"
	n := t.R.Range(1, 5)
	asks := make([][]int, n)
	for g := range asks {
		for i := t.R.Range(1, 4); i > 0; i-- {
			asks[g] = append(asks[g], t.R.Intn(12))
		}
	}
	pi, pj := t.R.Intn(r), t.R.Intn(c)
	bad := make([]string, n)
	var wg sync.WaitGroup
	var node mat.Tensor = op
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			fail := func(f string, args ...any) {
				if bad[g] == "" {
					bad[g] = fmt.Sprintf(f, args...)
				}
			}
			for _, a := range asks[g] {
				switch a {
				case 0:
					if s := node.Shape(); len(s) != 2 || s[0] != r || s[1] != c {
						fail("Shape %v", s)
					}
				case 1:
					if node.Dims() != 2 {
						fail("Dims %d", node.Dims())
					}
				case 2:
					if node.Size() != r*c {
						fail("Size %d", node.Size())
					}
				case 3:
					d := node.Data().F64()
					if len(d) != r*c || d[pi*c+pj] != want.at(pi, pj) {
						fail("Data %v", d)
					}
				case 4:
					if r*c == 1 {
						if node.Item().F64() != want.v[0] {
							fail("Item %v", node.Item())
						}
					} else if panics(func() { node.Item() }) == nil {
						fail("Item of %d elements", r*c)
					}
				case 5:
					if v := node.At(pi, pj).Item().F64(); v != want.at(pi, pj) {
						fail("At(%d, %d) %v", pi, pj, v)
					}
				case 6:
					if panics(func() { node.At(r, 0) }) == nil || panics(func() { node.At(0, c) }) == nil || panics(func() { node.At(-1, 0) }) == nil {
						fail("At out of range")
					}
				case 7:
					if v := toM(node.Value()); !sameM2(v, want) {
						fail("Value %v", v)
					}
				case 8:
					if node.RequiresGrad() != req {
						fail("RequiresGrad %v", node.RequiresGrad())
					}
				case 9:
					if node.HasGrad() || !isNilT(node.Grad()) {
						fail("a gradient")
					}
				case 10:
					if len(op.Operands()) != k || op.Operands()[0] != xs[0] {
						fail("Operands %v", op.Operands())
					}
				case 11:
					if dtypeOf(node.Value()) != dt {
						fail("type %v", dtypeOf(node.Value()))
					}
				}
			}
		}()
	}
	wg.Wait()
	for g, b := range bad {
		t.Check(b == "", key, "operator %d×%d (run %d), asked %v concurrently: %s, want %v", r, c, mode, asks[g], b, want)
	}
	op.Value() // waits
	t.Check(f.runs == 1, key, "the function was evaluated %d times", f.runs)
	t.Check(op.RequiresGrad() == req && op.Value().RequiresGrad() == req, key, "operands require gradients %v, the operator %v, its value %v", grads, op.RequiresGrad(), op.Value().RequiresGrad())
	// gradients, through the node and through its value
	if t.R.Bool() {
		acc := newM(r, c)
		for i := t.R.Range(1, 3); i > 0; i-- {
			g := intM(t, r, c)
			gt := dt.mk(g, false)
			node.AccGrad(gt)
			acc = addM(acc, g)
			t.Check(sameM2(toM(gt), g), key, "AccGrad changes its argument")
			gt.SetAt(dt.mkScalar(99, false), 0, 0) // nor does it keep it
		}
		t.Check(node.HasGrad() && equalG(gradOf(node), acc) == "" && equalG(gradOf(node.Value()), acc) == "", key, "gradient %v, want %v", gradOf(node), acc)
		switch t.R.Intn(3) {
		case 0:
			node.ZeroGrad()
			node.ZeroGrad()
			t.Check(!node.HasGrad() && isNilT(node.Grad()) && !node.Value().HasGrad(), key, "ZeroGrad leaves %v", gradOf(node))
			acc = newM(r, c)
		case 1:
			if req {
				err := ag.Backward(op)
				t.Check(err == nil, key, "Backward: %v", err)
				for i, x := range xs {
					w := acc
					if !grads[i] {
						w = nil
					}
					t.Check(equalG(gradOf(x), w) == "", key, "operand %d receives %v, want %v", i, gradOf(x), w)
				}
				t.Check(equalG(gradOf(node), acc) == "", key, "gradient %v after Backward, want %v", gradOf(node), acc)
			}
		}
	}
	// an element set through the node is set in its value
	node.SetAt(dt.mkScalar(77, false), pi, pj)
	want.set(pi, pj, 77)
	t.Check(sameM2(toM(node.Value()), want) && node.At(pi, pj).Item().F64() == 77, key, "SetAt(%d, %d): %v", pi, pj, toM(node.Value()))
	t.Event("questions", n)
	t.Sample("%s %d×%d, run %d, asked %v", dt, r, c, mode, asks)
	t.Checked(1)
	t.Seen(dt, r, c, k, mode, fmt.Sprint(asks))
}

// wrapCase: blockers, buffers, parameters and embeddings show the values of
// what they wrap and treat gradients as declared.
func wrapCase(t *T) {
	dt := []dtype{f32, f64}[t.R.Intn(2)]
	r, c := t.R.Range(1, 4), t.R.Range(1, 4)
	v := intM(t, r, c)
	d := dt.mk(v, t.R.P(0.7))
	var inner mat.Tensor = d
	what := "Dense"
	if t.R.P(0.3) {
		inner, what = ag.Copy(d), "Operator"
	}
	blocked := false
	if t.R.P(0.7) {
		blocked = true
		if t.R.Bool() {
			what, inner = "StopGrad("+what+")", ag.StopGrad(inner)
		} else {
			what, inner = "Buf("+what+")", nn.Buf(inner)
		}
	} else if what == "Dense" {
		m := d
		p := nn.NewParam(m)
		what, inner = "Param", p
		t.Check(p.RequiresGrad(), "wrap", "a new Param requires no gradients")
		if t.R.Bool() {
			on := t.R.Bool()
			t.Check(p.WithGrad(on) == p && p.RequiresGrad() == on, "wrap", "WithGrad(%v)", on)
		}
		d = m
		m.SetAt(dt.mkScalar(55, false), 0, 0) // a Param has its own copy
	}
	if t.R.P(0.2) && blocked {
		what, inner = "StopGrad("+what+")", ag.StopGrad(inner)
	}
	x := inner
	key := "wrap"
	same := func(when string) {
		got := toM(x.Value())
		ok := sameM2(got, v) && len(x.Shape()) == 2 && x.Shape()[0] == r && x.Shape()[1] == c && x.Size() == r*c && x.Dims() == 2 && dtypeOf(x.Value()) == dt
		i, j := t.R.Intn(r), t.R.Intn(c)
		ok = ok && x.At(i, j).Item().F64() == v.at(i, j) && len(x.Data().F64()) == r*c && x.Data().F64()[i*c+j] == v.at(i, j)
		if r*c == 1 {
			ok = ok && x.Item().F64() == v.v[0]
		}
		t.Check(ok, key, "%s %s %s: %v, want %v", dt, what, when, got, v)
	}
	same("fresh")
	i, j := t.R.Intn(r), t.R.Intn(c)
	x.SetAt(dt.mkScalar(33, false), i, j)
	v.set(i, j, 33)
	same("after SetAt")
	g := intM(t, r, c)
	if blocked {
		had := t.R.Bool() && d.RequiresGrad()
		if had {
			d.AccGrad(dt.mk(g, false))
		}
		x.AccGrad(dt.mk(intM(t, r, c), false))
		t.Check(!x.RequiresGrad() && !x.HasGrad() && isNilT(x.Grad()), key, "%s: RequiresGrad %v, HasGrad %v", what, x.RequiresGrad(), x.HasGrad())
		x.ZeroGrad()
		t.Check(d.HasGrad() == had && (!had || equalG(gradOf(d), g) == ""), key, "%s: gradients of the wrapped tensor are %v", what, gradOf(d))
		y := ag.ReduceSum(ag.Prod(x, x))
		t.Check(!y.RequiresGrad(), key, "a function of a %s requires gradients", what)
		z := ag.ReduceSum(ag.Add(ag.Prod(x, d), x))
		if d.RequiresGrad() {
			d.ZeroGrad()
			err := ag.Backward(z)
			t.Check(err == nil, key, "Backward: %v", err)
			t.Check(equalG(gradOf(d), v) == "", key, "%s: the gradient of x·d is %v, want %v", what, gradOf(d), v)
		}
	} else {
		x.AccGrad(dt.mk(g, false))
		x.AccGrad(dt.mk(g, false))
		t.Check(x.HasGrad() && equalG(gradOf(x), g.scale(2)) == "", key, "%s: gradient %v, want twice %v", what, gradOf(x), g)
		x.ZeroGrad()
		t.Check(!x.HasGrad() && isNilT(x.Grad()), key, "%s: gradient %v after ZeroGrad", what, gradOf(x))
		if p, ok := x.(*nn.Param); ok {
			t.Check(!d.HasGrad(), key, "gradients of a Param reach the matrix it was made from")
			p.AccGrad(dt.mk(g, false))
			p.State = "something"
			n := dt.mk(intM(t, r+1, c), false)
			was := p.RequiresGrad()
			p.ReplaceValue(n)
			v = toM(n)
			r++
			n.SetAt(dt.mkScalar(55, false), 0, 0)
			same("replaced")
			t.Check(!p.HasGrad() && p.State == nil && p.RequiresGrad() == was, key, "a replaced value: gradient %v, state %v, requires gradients %v", gradOf(p), p.State, p.RequiresGrad())
		}
	}
	t.Event("wrappers", 1)
	t.Checked(1)
	t.Seen(what, dt, r, c)
}

// wrapAny puts a value into a random kind of node; blocked tells whether
// gradients reach the leaf behind it.
func wrapAny(t *T, dt dtype, v *M, grad bool) (x, leaf mat.Tensor, kind string) {
	d := dt.mk(v, grad)
	if grad {
		switch t.R.Intn(5) {
		case 0:
			return ag.Copy(d), d, "operator"
		case 1:
			p := nn.NewParam(d)
			return p, p, "param"
		case 2:
			if v.c == 1 {
				var m *embedding.Model
				if dt == f32 {
					m = embedding.New[float32](3, v.r)
				} else {
					m = embedding.New[float64](3, v.r)
				}
				m.Weights[1].ReplaceValue(d)
				e := m.MustEncode([]int{1})[0]
				return e, m.Weights[1], "embedding"
			}
		case 3:
			var y mat.Tensor = d
			for i := 0; i < 3; i++ {
				y = ag.Copy(y)
			}
			return y, d, "operators"
		}
		return d, d, "dense"
	}
	switch t.R.Intn(6) {
	case 0:
		return ag.StopGrad(dt.mk(v, true)), nil, "blocked dense"
	case 1:
		return nn.Buf(d), nil, "buffer"
	case 2:
		return ag.StopGrad(ag.Copy(dt.mk(v, true))), nil, "blocked operator"
	case 3:
		return nn.NewParam(d).WithGrad(false), nil, "frozen param"
	case 4:
		return ag.Copy(d), nil, "constant operator"
	}
	return d, nil, "constant"
}

// sameRun compares outputs and gradients of the same computation over plain
// matrices and over other nodes with the same values.
func sameRun(t *T, key, what string, dt dtype, vals []*M, run func(xs []mat.Tensor) []mat.Tensor) {
	t.Checked(1)
	plain, other, leaves := make([]mat.Tensor, len(vals)), make([]mat.Tensor, len(vals)), make([]mat.Tensor, len(vals))
	kinds := ""
	for i, v := range vals {
		grad := t.R.P(0.6)
		plain[i] = dt.mk(v, grad)
		var k string
		other[i], leaves[i], k = wrapAny(t, dt, v, grad)
		kinds += k + ", "
		t.Event(k, 1)
	}
	a := run(plain)
	var b []mat.Tensor
	if p := panics(func() { b = run(other) }); !t.Check(p == nil, key, "%s over %s: %v", what, kinds, p) {
		return
	}
	if !t.Check(len(a) == len(b), key, "%s over %s: %d outputs, %d over plain matrices", what, kinds, len(b), len(a)) {
		return
	}
	var ra, rb []mat.Tensor
	for i := range a {
		va, vb := a[i].Value(), b[i].Value()
		d := diffM(toM(vb), toM(va), 0, 0)
		if !t.Check(d == "" && dtypeOf(va) == dtypeOf(vb), key, "%s over %s: output %d differs from the one over plain matrices: %s", what, kinds, i, d) {
			return
		}
		if !t.Check(a[i].RequiresGrad() == b[i].RequiresGrad(), key, "%s over %s: output %d requires gradients: %v", what, kinds, i, b[i].RequiresGrad()) {
			return
		}
		if !a[i].RequiresGrad() || !isOperator(a[i]) || !isOperator(b[i]) {
			continue
		}
		twice := false
		for j := 0; j < i; j++ {
			twice = twice || a[j] == a[i]
		}
		if twice {
			continue
		}
		g := dt.mk(dt.quantM(t.randM(va.Shape()[0], va.Shape()[1], -1, 1)), false)
		a[i].AccGrad(g)
		b[i].AccGrad(g)
		ra, rb = append(ra, a[i]), append(rb, b[i])
	}
	ea, eb := ag.Backward(ra...), ag.Backward(rb...)
	if !t.Check(ea == nil && eb == nil, key, "%s over %s: Backward: %v, %v", what, kinds, ea, eb) {
		return
	}
	for i := range vals {
		if leaves[i] == nil {
			continue
		}
		ga, gb := gradOf(plain[i]), gradOf(leaves[i])
		if ga == nil || gb == nil {
			d := equalG(gb, ga)
			t.Check(d == "", key, "%s over %s: input %d: %s", what, kinds, i, d)
			continue
		}
		d := diffM(gb, ga, 100*dt.tol(), math.Max(1, ga.maxAbs())) // sums in another order
		if !t.Check(d == "", key, "%s over %s: gradient of input %d differs from the one over plain matrices: %s", what, kinds, i, d) {
			return
		}
		t.Event("gradients compared", 1)
	}
	t.Seen(what, dt, kinds)
	t.Sample("%s %s over %s", what, dt, kinds)
}

func gradOrZero(x mat.Tensor) *M {
	if g := gradOf(x); g != nil {
		return g
	}
	return newM(x.Shape()[0], x.Shape()[1])
}

func mapTs(xs []mat.Tensor, f func(mat.Tensor) *M) []*M {
	var out []*M
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}

// modelStress: several goroutines use a model that nobody has used before.
func modelStress(t *T, spec netSpec, dt dtype) {
	n := spec.gen(t, dt)
	if n == nil || n.model == nil || n.noRepeat {
		return
	}
	if n.pscale == 0 {
		n.pscale = 1
	}
	key := "concurrent:" + spec.name
	if !n.keepParams {
		for _, p := range n.params {
			s := p.Value().Shape()
			setParam(p, dt.quantM(t.randM(s[0], s[1], -n.pscale, n.pscale)), dt)
		}
	}
	for i := range n.xs {
		n.xs[i] = dt.quantM(n.xs[i])
	}
	var gys []*M
	var common []mat.Tensor // inputs shared by all
	if t.R.P(0.3) {
		common = make([]mat.Tensor, len(n.xs))
		for i, x := range n.xs {
			common[i] = dt.mk(x, !n.noGrad[i])
		}
	}
	type result struct {
		out, grad []*M
		err       any
	}
	workers := t.R.Range(2, 6)
	if t.R.P(0.1) {
		workers = 16
	}
	// inputs of each goroutine: its own values in most cases, so that anything
	// that leaks from one to another shows
	inputs := make([][]*M, workers)
	for w := range inputs {
		inputs[w] = n.xs
		if w > 0 && common == nil && t.R.P(0.8) {
			inputs[w] = make([]*M, len(n.xs))
			for i, x := range n.xs {
				inputs[w][i] = x
				if !n.noGrad[i] {
					inputs[w][i] = dt.quantM(x.mapf(func(v float64) float64 { return v * t.R.Uni(0.5, 1) }))
				}
			}
		}
	}
	run := func(w int, backward bool) (res result) {
		defer func() {
			if p := recover(); p != nil {
				res.err = p
			}
		}()
		ts := common
		if ts == nil {
			ts = make([]mat.Tensor, len(n.xs))
			for i, x := range inputs[w] {
				ts[i] = dt.mk(x, !n.noGrad[i])
			}
		}
		ys := n.fwd(append([]mat.Tensor(nil), ts...)...)
		var roots []mat.Tensor
		seen := map[mat.Tensor]bool{}
		for i, y := range ys {
			res.out = append(res.out, toM(y.Value()))
			if backward && isOperator(y) && y.RequiresGrad() && !seen[y] {
				seen[y] = true
				y.AccGrad(dt.mk(gys[i], false))
				roots = append(roots, y)
			}
		}
		if backward {
			if err := ag.Backward(roots...); err != nil {
				res.err = err
			}
			for _, x := range ts {
				if common == nil {
					res.grad = append(res.grad, gradOrZero(x))
				}
			}
		}
		return
	}
	// shapes of the outputs, from a twin with the same structure
	ref := n.ref
	p0 := make([]*M, len(n.params))
	for i, p := range n.params {
		p0[i] = toM(p.Value())
	}
	want := ref(p0, n.xs, p0, n.xs)
	for _, w := range want {
		gys = append(gys, dt.quantM(t.randM(w.r, w.c, -1, 1)))
	}
	back := make([]bool, workers)
	passes := 0
	for i := range back {
		back[i] = t.R.P(0.7) && !n.skipGrad
		if back[i] {
			passes++
		}
	}
	results := make([]result, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			results[w] = run(w, back[w])
		}()
	}
	close(start)
	wg.Wait()
	xsums := mapTs(common, gradOrZero)
	common = nil
	sums := make([]*M, len(n.params))
	for i, p := range n.params {
		sums[i] = gradOf(p)
		p.ZeroGrad()
	}
	// each of them alone
	alones := make([]result, workers)
	psums := make([]*M, len(n.params))
	for w := range alones {
		alones[w] = run(w, !n.skipGrad)
		if !t.Check(alones[w].err == nil, key, "%s: %v", n.desc, alones[w].err) {
			return
		}
		for i, p := range n.params {
			g := gradOf(p)
			p.ZeroGrad()
			switch {
			case !back[w] || g == nil:
			case psums[i] == nil:
				psums[i] = g
			default:
				psums[i] = zip(psums[i], g, func(a, b float64) float64 { return a + b })
			}
		}
	}
	tol := 100 * dt.tol()
	if n.tol > 1 {
		tol *= n.tol
	}
	for w, res := range results {
		alone := alones[w]
		if !t.Check(res.err == nil, key, "%s: one of %d concurrent uses fails: %v", n.desc, workers, res.err) {
			return
		}
		for i, o := range res.out {
			if d := diffM(o, alone.out[i], 0, 0); !t.Check(d == "", key, "%s %s: output %d of concurrent use %d of %d differs from that of a use alone: %s", dt, n.desc, i, w, workers, d) {
				return
			}
		}
		for i, g := range res.grad {
			if d := diffM(g, alone.grad[i], tol, math.Max(1, alone.grad[i].maxAbs())); !t.Check(d == "", key, "%s %s: gradient of input %d, concurrent use %d of %d: %s", dt, n.desc, i, w, workers, d) {
				return
			}
		}
	}
	for i, g := range xsums {
		if n.skipGrad {
			break
		}
		w := alones[0].grad[i].scale(float64(passes))
		if d := diffM(g, w, tol*float64(workers), math.Max(1, w.maxAbs())); !t.Check(d == "", key, "%s %s: gradient of input %d shared by %d passes: %s", dt, n.desc, i, passes, d) {
			return
		}
		t.Event("shared inputs", 1)
	}
	for i, p := range n.params {
		if !t.Check(sameM2(toM(p.Value()), p0[i]), key, "%s: parameter %d changes", n.desc, i) {
			return
		}
		g := psums[i]
		if g == nil {
			g = newM(p0[i].r, p0[i].c)
		}
		s := sums[i]
		if s == nil {
			s = newM(p0[i].r, p0[i].c)
		}
		d := diffM(s, g, tol*float64(workers), math.Max(1, g.maxAbs()))
		if !t.Check(n.skipGrad || d == "", key, "%s %s: gradient of parameter %d accumulated by %d concurrent passes of %d is not the sum of theirs: %s", dt, n.desc, i, passes, workers, d) {
			return
		}
	}
	t.Sample("%s %s %s: %d uses, %d passes", spec.name, dt, n.desc, workers, passes)
	t.Event("concurrent uses", workers)
	t.Event("concurrent passes", passes)
	t.Checked(1)
	t.Seen(spec.name, dt, n.desc, shapeOf(n.xs), workers)
}

// modelReaders: everything that only reads a model may be done at the same time
// by several goroutines: inference, saving, traversing, printing, encoding,
// copying and, for a CRF, decoding.
func modelReaders(t *T, spec netSpec, dt dtype) {
	n := spec.gen(t, dt)
	if n == nil || n.model == nil || n.noRepeat {
		return
	}
	k := n.pscale
	if k == 0 {
		k = 1
	}
	if !n.keepParams {
		for _, p := range n.params {
			s := p.Value().Shape()
			setParam(p, dt.quantM(t.randM(s[0], s[1], -k, k)), dt)
		}
	}
	key := "readers:" + spec.name
	type act struct {
		name string
		do   func() string
	}
	vals := func(ts []mat.Tensor) string {
		s := ""
		for _, x := range ts {
			v := x.Value()
			s += fmt.Sprintf("%v%x ", v.Shape(), v.Data().F64())
		}
		return s
	}
	acts := []act{
		{"inference", func() string {
			xs := make([]mat.Tensor, len(n.xs))
			for i, x := range n.xs {
				xs[i] = dt.mk(dt.quantM(x), !n.noGrad[i])
			}
			return vals(n.fwd(xs...))
		}},
		{"saving", func() string {
			var b bytes.Buffer
			if err := nn.Dump(n.model, &b); err != nil {
				return "error " + err.Error()
			}
			return b.String()
		}},
		{"traversal", func() string {
			s := ""
			nn.ForEachParam(n.model, func(p *nn.Param) { s += fmt.Sprintf("%p ", p) })
			for p := range nn.Parameters(n.model)(context.Background()) {
				s += fmt.Sprintf("%p ", p)
			}
			nn.Apply(n.model, func(m nn.Model) { s += fmt.Sprintf("%T ", m) })
			return s
		}},
		{"printing", func() string {
			s := ""
			for _, p := range n.params {
				s += fmt.Sprintf("%v %.3f %v %v ", p.Value(), p.Value(), p.Shape(), p.Data().F64())
			}
			return s
		}},
		{"encoding", func() string {
			s := ""
			for _, p := range n.params {
				b, err := p.Value().(interface{ MarshalBinary() ([]byte, error) }).MarshalBinary()
				s += fmt.Sprint(b, err)
			}
			return s
		}},
		{"copying", func() string {
			var ts []mat.Tensor
			for _, p := range n.params {
				q := nn.NewParam(p.Value().(mat.Matrix))
				ts = append(ts, q, p.Value().(mat.Matrix).T(), p.Value().(mat.Matrix).Clone())
			}
			return vals(ts)
		}},
		{"questions", func() string {
			s := ""
			for _, p := range n.params {
				s += fmt.Sprint(p.RequiresGrad(), p.HasGrad(), p.Size(), p.Dims(), p.Value().(mat.Matrix).Sum().Item().F64(), p.Value().(mat.Matrix).Max().Item().F64())
			}
			return s
		}},
	}
	for i, a := range acts {
		if x := a.do(); x != a.do() || strings.HasPrefix(x, "error ") { // not a function of the model (map order)
			acts = append(acts[:i:i], acts[i+1:]...)
			break
		}
	}
	if m, ok := n.model.(*crf.Model); ok {
		for i := 0; i < 6; i++ {
			length, scale := t.R.Range(1, 30), 3.0
			xs := make([]mat.Tensor, length)
			for j := range xs {
				xs[j] = dt.mk(dt.quantM(t.randM(m.Size, 1, -scale, scale)), false)
			}
			acts = append(acts, act{"decoding", func() string { return fmt.Sprint(m.Decode(xs)) }})
		}
	}
	want := make([]string, len(acts))
	for i, a := range acts {
		want[i] = a.do()
	}
	workers := t.R.Range(2, 8)
	bad := make([]string, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		r := t.R.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					bad[w] = fmt.Sprint("panic: ", p)
				}
			}()
			<-start
			for i := 0; i < 8; i++ {
				k := r.Intn(len(acts))
				if got := acts[k].do(); got != want[k] {
					bad[w] = fmt.Sprintf("%s gives %s, alone %s", acts[k].name, limit(got, 300), limit(want[k], 300))
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for w, b := range bad {
		t.Check(b == "", key, "%s %s, goroutine %d of %d: %s", dt, n.desc, w, workers, b)
	}
	t.Event("concurrent reads", 8*workers)
	t.Seen("read", spec.name, dt, n.desc, workers)
}

func init() {
	readers := func(variant string, quick, thorough int) Phase {
		return Phase{Name: "readers-" + variant, Variant: variant, Shards: 8, Run: func(c *C) {
			for _, s := range allSpecs() {
				for _, dt := range []dtype{f32, f64} {
					m := 1
					if s.name == crfSpec.name {
						m = 10
					}
					for i := 0; i < m*c.N(quick, thorough); i++ {
						c.Case(fmt.Sprintf("read/%s/%s/%d", s.name, dt, i), func(t *T) { modelReaders(t, s, dt) })
					}
				}
			}
		}, MinEvents: map[string]int64{"concurrent reads": 5000}}
	}
	stress := func(variant string, quick, thorough int) Phase {
		return Phase{Name: variant, Variant: variant, Shards: 8, Run: func(c *C) {
			for _, s := range allSpecs() {
				for _, dt := range []dtype{f32, f64} {
					for i := 0; i < c.N(quick, thorough); i++ {
						c.Case(fmt.Sprintf("%s/%s/%d", s.name, dt, i), func(t *T) { modelStress(t, s, dt) })
					}
				}
			}
		}, MinEvents: map[string]int64{"concurrent passes": 1000}}
	}
	register(&Property{
		ID: "P29", Rule: "2 to 6 goroutines use a fresh model of every kind of layer at once, forward and backward; outputs bit for bit equal to a use alone, input gradients equal, parameter gradients equal to the sum over the passes, parameters unchanged; plain build and race detector",
		Level:  "real code under monitors, plus race detector",
		Phases: []Phase{stress("plain", 200, 6000), stress("race", 50, 1200), readers("plain", 60, 2000), readers("race", 20, 500)},
	})

	nodes := func(variant string, quick, thorough int) Phase {
		return Phase{Name: "nodes-" + variant, Variant: variant, Shards: 4, Run: func(c *C) {
			for i := 0; i < c.N(quick, thorough); i++ {
				c.Case(fmt.Sprintf("node/%d", i), nodeCase)
			}
			for i := 0; i < c.N(quick, thorough/4); i++ {
				c.Case(fmt.Sprintf("wrap/%d", i), wrapCase)
			}
		}, MinEvents: map[string]int64{"questions": 1000, "wrappers": 1000}}
	}
	register(&Property{
		ID: "P28", Boost: 5, Rule: "every accessor of operators still being evaluated, asked first and from several goroutines, answers for the finished value; wrappers show the values of what they wrap and treat gradients as declared; every operator and every layer gives bit-identical outputs and equal gradients whatever kind of node holds each input",
		Level: "real code under monitors, plus race detector",
		Phases: []Phase{
			nodes("plain", 20000, 1000000),
			nodes("race", 3000, 60000),
			{Name: "operators", Shards: 8, Run: func(c *C) {
				for _, spec := range opSpecs {
					for _, dt := range []dtype{f32, f64} {
						for i := 0; i < c.N(200, 8000); i++ {
							c.Case(fmt.Sprintf("%s/%s/%d", spec.name, dt, i), func(t *T) {
								s := &single{t: t, dt: dt, dup: 0.1}
								in := spec.gen(s.G())
								var vals []*M
								for _, l := range s.leaves {
									vals = append(vals, l.v)
								}
								sameRun(t, "kinds:"+in.op, instDesc(in, nil), dt, vals, func(xs []mat.Tensor) []mat.Tensor {
									ts := make([]mat.Tensor, len(in.args))
									for i, a := range in.args {
										ts[i] = xs[a]
									}
									return []mat.Tensor{in.build(ts)}
								})
							})
						}
					}
				}
			}, MinEvents: map[string]int64{"gradients compared": 2000}},
			{Name: "layers", Shards: 8, Run: func(c *C) {
				for _, spec := range allSpecs() {
					for _, dt := range []dtype{f32, f64} {
						for i := 0; i < c.N(150, 6000); i++ {
							c.Case(fmt.Sprintf("%s/%s/%d", spec.name, dt, i), func(t *T) {
								n := spec.gen(t, dt)
								if n == nil || n.noRepeat {
									return
								}
								if !n.keepParams {
									k := n.pscale
									if k == 0 {
										k = 1
									}
									for _, p := range n.params {
										s := p.Value().Shape()
										setParam(p, dt.quantM(t.randM(s[0], s[1], -k, k)), dt)
									}
								}
								sameRun(t, "kinds:"+spec.name, n.desc, dt, mapMs(n.xs, dt.quantM), func(xs []mat.Tensor) []mat.Tensor {
									for i := range n.noGrad {
										if n.noGrad[i] {
											xs[i] = ag.StopGrad(xs[i])
										}
									}
									return n.fwd(xs...)
								})
							})
						}
					}
				}
			}, MinEvents: map[string]int64{"gradients compared": 1000}},
		},
	})
}

package main

import (
	"fmt"
	"math"
	"sort"
	"sync"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/initializers"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/mat/gradfn"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/sgu"
)

// initKind is an initialiser with random arguments and the distribution its
// values must follow: cdf over the standardised values, and their bounds.
type initKind struct {
	name string
	make func(t *T, r, c int) (f func(m mat.Matrix, g *rand.LockedRand) mat.Matrix, std func(float64) float64, args string)
	kind string // uniform (0..1), normal, achlioptas, const
}

var initKinds = []initKind{
	{"Uniform", func(t *T, r, c int) (func(mat.Matrix, *rand.LockedRand) mat.Matrix, func(float64) float64, string) {
		lo := t.R.Uni(-4, 4)
		hi := lo + pickF(t, 0.001, 1, t.R.Uni(0.1, 8))
		if t.R.P(0.15) {
			lo = t.R.Uni(-300, 300)
			hi = lo + pickF(t, 150, 1000, 30000)
		}
		return func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Uniform(m, lo, hi, g) },
			func(v float64) float64 { return (v - lo) / (hi - lo) }, fmt.Sprintf("%g, %g", lo, hi)
	}, "uniform"},
	{"XavierUniform", func(t *T, r, c int) (func(mat.Matrix, *rand.LockedRand) mat.Matrix, func(float64) float64, string) {
		gain := pickF(t, 1, math.Sqrt2, 5.0/3, t.R.Uni(0.1, 3))
		a := gain * math.Sqrt(6/float64(r+c))
		return func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.XavierUniform(m, gain, g) },
			func(v float64) float64 { return (v + a) / (2 * a) }, fmt.Sprintf("gain %g", gain)
	}, "uniform"},
	{"Normal", func(t *T, r, c int) (func(mat.Matrix, *rand.LockedRand) mat.Matrix, func(float64) float64, string) {
		mean, std := pickF(t, 0, t.R.Uni(-3, 3)), pickF(t, 1, t.R.Uni(0.05, 5))
		if t.R.P(0.15) {
			mean, std = t.R.Uni(-100, 100), t.R.Uni(20, 500)
		}
		return func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Normal(m, mean, std, g) },
			func(v float64) float64 { return (v - mean) / std }, fmt.Sprintf("mean %g, std %g", mean, std)
	}, "normal"},
	{"XavierNormal", func(t *T, r, c int) (func(mat.Matrix, *rand.LockedRand) mat.Matrix, func(float64) float64, string) {
		gain := pickF(t, 1, math.Sqrt2, 5.0/3, t.R.Uni(0.1, 3))
		std := gain * math.Sqrt(2/float64(r+c))
		return func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.XavierNormal(m, gain, g) },
			func(v float64) float64 { return v / std }, fmt.Sprintf("gain %g", gain)
	}, "normal"},
	{"Achlioptas", func(t *T, r, c int) (func(mat.Matrix, *rand.LockedRand) mat.Matrix, func(float64) float64, string) {
		return func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Achlioptas(m, g) },
			func(v float64) float64 { return v / math.Sqrt(3) }, ""
	}, "achlioptas"},
	{"Constant", func(t *T, r, c int) (func(mat.Matrix, *rand.LockedRand) mat.Matrix, func(float64) float64, string) {
		k := pickF(t, 0, -1, t.R.Uni(-1e6, 1e6))
		return func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Constant(m, k) },
			func(v float64) float64 { return v - k }, fmt.Sprint(k)
	}, "const"},
	{"Ones", func(t *T, r, c int) (func(mat.Matrix, *rand.LockedRand) mat.Matrix, func(float64) float64, string) {
		return func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Ones(m) },
			func(v float64) float64 { return v - 1 }, ""
	}, "const"},
	{"Zeros", func(t *T, r, c int) (func(mat.Matrix, *rand.LockedRand) mat.Matrix, func(float64) float64, string) {
		return func(m mat.Matrix, g *rand.LockedRand) mat.Matrix { return initializers.Zeros(m) },
			func(v float64) float64 { return v }, ""
	}, "const"},
}

// initCase fills matrices of one shape and watches all of their elements.
func initCase(t *T, k initKind, n int) {
	key := "init:" + k.name
	dt := []dtype{f32, f64}[t.R.Intn(2)]
	r, c := t.R.Range(1, 30), t.R.Range(1, 30)
	switch t.R.Intn(6) {
	case 0:
		r = 1
	case 1:
		c = 1
	case 2:
		r, c = t.R.Range(1, 4), t.R.Range(40, 200)
	case 3:
		r, c = t.R.Range(40, 200), t.R.Range(1, 4)
	}
	f, std, args := k.make(t, r, c)
	what := fmt.Sprintf("%s(%s) of %s %d×%d", k.name, args, dt, r, c)
	seed := randSeed(t.R)
	g, g2 := rand.NewLockedRand(seed), rand.NewLockedRand(seed)
	if k.kind == "const" {
		n = 3 * r * c
	}

	eps := 1e-12
	if dt == f32 {
		eps = 1e-5 * (1 + math.Abs(std(0))) // of the standardised values
	}
	const bins = 40
	edges := []float64{}
	prob := flat(bins)
	switch k.kind {
	case "uniform":
		for i := 1; i < bins; i++ {
			edges = append(edges, float64(i)/bins)
		}
	case "normal":
		for x := -4.0; x < 4.05; x += 0.2 {
			edges = append(edges, x)
		}
		prob = make([]float64, len(edges)+1)
		last := 0.0
		for i, e := range edges {
			prob[i] = normCDF(e) - last
			last = normCDF(e)
		}
		prob[len(edges)] = 1 - last
	case "achlioptas":
		edges = []float64{-0.5, 0.5}
		prob = []float64{1.0 / 6, 2.0 / 3, 1.0 / 6}
	}
	counts := make([]int, len(prob))
	pairs := make([]int, 9) // thirds of consecutive elements, of a row and of a column
	colPairs := make([]int, 9)
	rounds := make([]int, 9) // the same element in consecutive matrices
	third := func(v float64) int {
		switch k.kind {
		case "uniform":
			return max(0, min(2, int(v*3)))
		case "normal":
			return sort.SearchFloat64s([]float64{-0.430727, 0.430727}, v)
		}
		return int(math.Round(v)) + 1
	}
	sum, sum2 := 0.0, 0.0
	total := 0
	var prev *M
	for total < n {
		m := dt.mk(newM(r, c), false)
		for i := 0; i < r; i++ { // whatever it was, it is overwritten
			for j := 0; j < c; j++ {
				m.SetScalar(dt.mkScalar(math.NaN(), false).Item(), i, j)
			}
		}
		out := f(m, g)
		if !t.Check(out == m, key, "%s: returns another matrix", what) {
			return
		}
		v := toM(m)
		if !t.Check(v.r == r && v.c == c && dtypeOf(m) == dt && isNilT(m.Grad()), key, "%s: a %s matrix of %v", what, dtypeOf(m), m.Shape()) {
			return
		}
		if total < 5*r*c { // reproducible, whatever the matrix contained
			m2 := dt.mk(t.randM(r, c, -1, 1), true)
			f(m2, g2)
			d := diffM(toM(m2), v, 0, 0)
			if !t.Check(d == "", "reproducible:"+k.name, "%s: another matrix filled from seed %d differs: %s", what, seed, d) {
				return
			}
		}
		s := v.mapf(std)
		for i, x := range s.v {
			ok := false
			switch k.kind {
			case "const":
				ok = math.Abs(x) <= eps*(1+math.Abs(v.v[i]))
			case "uniform":
				ok = x >= -eps && x <= 1+eps
			case "normal":
				ok = math.Abs(x) < 9
			case "achlioptas":
				ok = math.Abs(x-math.Round(x)) < 1e-6 && math.Abs(x) < 1.5
			}
			if !t.Check(ok, key, "%s: element (%d, %d) is %v", what, i/c, i%c, v.v[i]) {
				return
			}
			if k.kind == "const" {
				continue
			}
			counts[sort.SearchFloat64s(edges, x)]++
			sum, sum2 = sum+x, sum2+x*x
			if (i%c)%2 == 1 {
				pairs[3*third(s.v[i-1])+third(x)]++
			}
			if (i/c)%2 == 1 {
				colPairs[3*third(s.v[i-c])+third(x)]++
			}
			if prev != nil {
				rounds[3*third(prev.v[i])+third(x)]++
			}
		}
		if prev == nil {
			prev = s
		} else { // disjoint pairs of matrices
			prev = nil
		}
		total += r * c
	}
	t.Event("elements", total)
	t.Seen(k.name, dt, r, c, args)
	if k.kind == "const" {
		t.Checked(1)
		return
	}
	slack := eps * float64(len(edges)) // float32 values at the edges of bins
	if slack < 0.002 || k.kind == "achlioptas" {
		chi2(t, key, what, counts, prob)
		p9 := make([]float64, 9)
		p3 := flat(3)
		if k.kind == "achlioptas" {
			p3 = prob
		}
		for i := range p9 {
			p9[i] = p3[i/3] * p3[i%3]
		}
		chi2(t, key, what+": neighbours in a row", pairs, p9)
		chi2(t, key, what+": neighbours in a column", colPairs, p9)
		chi2(t, key, what+": consecutive matrices", rounds, p9)
	}
	N := float64(total)
	mean, vari := 0.0, 1.0
	switch k.kind {
	case "uniform":
		mean, vari = 0.5, 1.0/12
	case "achlioptas":
		vari = 1.0 / 3
	}
	t.Check(math.Abs(sum/N-mean) < 7*math.Sqrt(vari/N)+eps, key, "%s: the mean of %d standardised elements is %v", what, total, sum/N)
	got := sum2/N - mean*mean
	t.Check(math.Abs(got-vari) < 14*vari/math.Sqrt(N)+4*eps, key, "%s: the variance of %d standardised elements is %v, not %v", what, total, got, vari)
	t.Checked(1)
	t.Sample("%s: mean %.4f, variance %.4f of %d standardised elements", what, sum/N, got, total)
}

func gainCase(t *T) {
	for a := activation.Activation(0); a < 40; a++ {
		want := 1.0
		switch a {
		case activation.ReLU:
			want = math.Sqrt2
		case activation.Tanh:
			want = 5.0 / 3
		}
		got := initializers.Gain(a)
		t.Check(math.Abs(got-want) < 1e-12, "gain", "the gain of %v is %v, want %v", a, got, want)
		t.Checked(1)
	}
}

// dropNode builds dropout nodes over the tensors in one of the ways offered.
func dropNode(t *T, p float64, g *rand.LockedRand, xs []mat.Tensor) (ys []mat.Tensor, how string) {
	switch t.R.Intn(4) {
	case 0:
		for _, x := range xs {
			ys = append(ys, ag.Dropout(x, p))
		}
		return ys, "ag.Dropout"
	case 1:
		return ag.Map(ag.DropoutFunc(p), xs), "ag.DropoutFunc"
	case 2:
		var m nn.StandardModel = dropout.New(p)
		return m.Forward(xs...), "nn/dropout"
	}
	for _, x := range xs {
		ys = append(ys, ag.NewOperator(gradfn.NewDropout(x, p, g)).Run())
	}
	return ys, "gradfn.Dropout"
}

// dropCase: values and gradients of dropout nodes, and the masks behind them.
func dropCase(t *T, n int) {
	dt := []dtype{f32, f64}[t.R.Intn(2)]
	p := pickF(t, 0, 1, 0.5, 0.1, 0.9, 0.01, t.R.Uni(0, 1), t.R.Uni(0, 1))
	r, c := t.R.Range(1, 20), t.R.Range(1, 20)
	switch t.R.Intn(4) {
	case 0:
		c = 1
	case 1:
		r = 1
	}
	k := t.R.Range(1, 4)
	ag.ManualSeed(randSeed(t.R))
	own := rand.NewLockedRand(randSeed(t.R))
	what := fmt.Sprintf("rate %g, %d %s %d×%d", p, k, dt, r, c)
	vals := make([]*M, k)
	for i := range vals {
		vals[i] = t.randM(r, c, 0.5, 2)
		for j := range vals[i].v {
			if t.R.Bool() {
				vals[i].v[j] *= -1
			}
		}
		vals[i] = dt.quantM(vals[i])
	}
	scale := 0.0
	if p < 1 {
		scale = 1 / (1 - p)
	}
	tol := 4 * dt.tol()
	cells := make([]int, r*c) // times an element was kept
	var kept, forwards int
	pairs, colPairs, nodes, runs := make([]int, 4), make([]int, 4), make([]int, 4), make([]int, 4)
	prev := make([]*M, k)
	lags := make([][]int, r*c) // pairs of elements that many places apart
	for i := range lags {
		lags[i] = make([]int, 4)
	}
	grown := 0
	for total := 0; total < n; {
		xs := make([]mat.Tensor, k)
		for i := range xs {
			xs[i] = dt.mk(vals[i], true)
		}
		ys, how := dropNode(t, p, own, xs)
		if !t.Check(len(ys) == k, "drop:shape", "%s, %s: %d results", what, how, len(ys)) {
			return
		}
		masks := make([]*M, k)
		for i, y := range ys {
			v := toM(y.Value())
			if !t.Check(v.r == r && v.c == c && dtypeOf(y.Value()) == dt, "drop:shape", "%s, %s: result of shape %v, %s", what, how, y.Value().Shape(), dtypeOf(y.Value())) {
				return
			}
			masks[i] = newM(r, c)
			for j, got := range v.v {
				switch {
				case got == 0 && p > 0:
				case p < 1 && math.Abs(got-vals[i].v[j]*scale) <= tol*math.Abs(got):
					masks[i].v[j] = 1
				default:
					t.Fail("drop:value", "%s, %s: element %d is %v from %v (kept ones are scaled by %v)", what, how, j, got, vals[i].v[j], scale)
					return
				}
			}
		}
		// gradients, of one backward pass or two
		times := t.R.Range(1, 2)
		gy := make([]*M, k)
		for rep := 0; rep < times; rep++ {
			for i, y := range ys {
				g := dt.quantM(t.randM(r, c, 0.5, 1.5))
				if gy[i] == nil {
					gy[i] = newM(r, c)
				}
				y.AccGrad(dt.mk(g, false)) // at rate 0, y may be the input itself
				gy[i] = zip(gy[i], g, func(a, b float64) float64 { return a + b })
			}
			if p > 0 || how == "gradfn.Dropout" {
				if err := ag.Backward(ys...); !t.Check(err == nil, "drop:backward", "%s, %s: %v", what, how, err) {
					return
				}
			}
			if rep+1 < times {
				for _, y := range ys {
					if y != xs[0] && p > 0 {
						y.ZeroGrad()
					}
				}
				if p == 0 {
					break
				}
			}
		}
		for i := range ys {
			gx := gradOf(xs[i])
			if gx == nil {
				gx = newM(r, c)
			}
			for j := range gx.v {
				want := gy[i].v[j] * scale * masks[i].v[j]
				if !t.Check(math.Abs(gx.v[j]-want) <= 4*tol*math.Abs(want), "drop:gradient", "%s, %s: element %d (kept: %v) gets gradient %v from %v", what, how, j, masks[i].v[j] == 1, gx.v[j], gy[i].v[j]) {
					return
				}
			}
			// the value is as it was
			v := toM(ys[i].Value())
			for j := range v.v {
				if !t.Check(math.Abs(v.v[j]-vals[i].v[j]*scale*masks[i].v[j]) <= tol*math.Abs(v.v[j]), "drop:stable", "%s, %s: element %d changes after the backward pass", what, how, j) {
					return
				}
			}
			t.Check(diffM(toM(xs[i].Value()), vals[i], 0, 0) == "", "drop:input", "%s, %s: the input changes", what, how)
		}
		b2i := func(m *M, j int) int { return int(m.v[j]) }
		for i, m := range masks {
			for j := range m.v {
				cells[j] += b2i(m, j)
				kept += b2i(m, j)
				if (j%c)%2 == 1 {
					pairs[2*b2i(m, j-1)+b2i(m, j)]++
				}
				if (j/c)%2 == 1 {
					colPairs[2*b2i(m, j-c)+b2i(m, j)]++
				}
				if i%2 == 1 {
					nodes[2*b2i(masks[i-1], j)+b2i(m, j)]++
				}
				if prev[i] != nil {
					runs[2*b2i(prev[i], j)+b2i(m, j)]++
				}
			}
			for d := 1; d < r*c; d++ {
				for at := d; at < r*c; at += 2 * d {
					for j := at; j < min(at+d, r*c); j++ {
						lags[d][2*b2i(m, j-d)+b2i(m, j)]++
					}
				}
			}
			if prev[i] == nil {
				prev[i] = m
			} else {
				prev[i] = nil
			}
		}
		forwards += k
		total += k * r * c
		grown = total
		t.Event("via "+how, 1)
	}
	q := 1 - min(p, 1)
	chi2(t, "drop:rate", what, []int{grown - kept, kept}, []float64{1 - q, q})
	for j, n := range cells {
		if forwards >= 60 {
			chi2(t, "drop:rate", fmt.Sprintf("%s: element %d", what, j), []int{forwards - n, n}, []float64{1 - q, q})
		}
	}
	p4 := []float64{(1 - q) * (1 - q), q * (1 - q), q * (1 - q), q * q}
	chi2(t, "drop:independent", what+": neighbours in a row", pairs, p4)
	chi2(t, "drop:independent", what+": neighbours in a column", colPairs, p4)
	for d, n := range lags {
		if d > 0 && !chi2(t, "drop:independent", fmt.Sprintf("%s: %d elements apart", what, d), n, p4) {
			break
		}
	}
	chi2(t, "drop:independent", what+": different nodes", nodes, p4)
	chi2(t, "drop:independent", what+": consecutive runs", runs, p4)
	t.Event("dropout elements", grown)
	t.Checked(1)
	t.Seen(dt, p, r, c, k)
	t.Sample("%s: kept %.4f of %d", what, float64(kept)/float64(grown), grown)
}

// dropSeedCase: masks are reproducible from the seed of the generator.
func dropSeedCase(t *T) {
	dt := []dtype{f32, f64}[t.R.Intn(2)]
	p := pickF(t, 0.5, 0.2, t.R.Uni(0.05, 0.95))
	seed := randSeed(t.R)
	n := t.R.Range(1, 5)
	var shapes [][2]int
	for i := 0; i < n; i++ {
		shapes = append(shapes, [2]int{t.R.Range(1, 12), t.R.Range(1, 12)})
	}
	own := t.R.Bool()
	run := func(perturb bool) (out []*M) {
		g := rand.NewLockedRand(seed)
		if !own {
			if perturb {
				ag.Rand().Uint64()
			}
			h := ag.ManualSeed(seed)
			t.Check(h == ag.Rand(), "drop:generator", "ManualSeed returns another generator than Rand")
		}
		for _, s := range shapes {
			x := dt.mk(M1(s[0], s[1]), true)
			var y mat.Tensor
			if own {
				y = ag.NewOperator(gradfn.NewDropout[mat.Tensor](x, p, g)).Run()
			} else {
				y = ag.Dropout(x, p)
			}
			out = append(out, toM(y.Value())) // waits: one at a time
		}
		return
	}
	a, b := run(false), run(true)
	for i := range a {
		t.Check(diffM(a[i], b[i], 0, 0) == "", "drop:reproducible", "seed %d, rate %g, node %d of %v: %s", seed, p, i, shapes, diffM(a[i], b[i], 0, 0))
	}
	g := ag.Seed()
	t.Check(g == ag.Rand(), "drop:generator", "Seed returns another generator than Rand")
	t.Checked(1)
	t.Seen(seed, p, shapes, own)
	t.Event("seeded runs", 2)
}

// M1 is a matrix of ones.
func M1(r, c int) *M { return newM(r, c).mapf(func(float64) float64 { return 1 }) }

// dropStress: forward and backward passes through dropouts from several
// goroutines, on the shared generator.
func dropStress(t *T) {
	dt := []dtype{f32, f64}[t.R.Intn(2)]
	p := t.R.Uni(0.2, 0.8)
	x := dt.mk(M1(t.R.Range(1, 6), t.R.Range(1, 6)), true)
	workers := t.R.Range(2, 5)
	masks := make([]*M, workers)
	errs := make([]error, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ys := dropout.New(p).Forward(x)
			y := ys[0]
			masks[w] = toM(y.Value())
			y.AccGrad(y.Value().(mat.Matrix).OnesLike())
			errs[w] = ag.Backward(y)
		}()
	}
	wg.Wait()
	want := newM(x.Shape()[0], x.Shape()[1])
	for w := range masks {
		t.Check(errs[w] == nil, "drop:backward", "%v", errs[w])
		want = zip(want, masks[w], func(a, b float64) float64 { return a + b })
	}
	d := diffM(gradOf(x), want, 8*dt.tol(), want.maxAbs())
	t.Check(d == "", "drop:gradient", "%d dropouts of one input: the gradient is not the sum of the masks: %s", workers, d)
	t.Event("concurrent dropouts", workers)
	t.Checked(1)
	t.Seen(want.v)
}

// modelInit: the initialisers of whole models set every parameter they name.
func modelInit(t *T, dt dtype) {
	if dt == f32 {
		modelInitOf[float32](t, dt)
	} else {
		modelInitOf[float64](t, dt)
	}
}

func modelInitOf[F float.DType](t *T, dt dtype) {
	seed := randSeed(t.R)
	r, c := t.R.Range(1, 24), t.R.Range(1, 24)
	type slot struct {
		name string
		p    *nn.Param
		kind string // xavier, const, or untouched
		k    float64
	}
	params := func(m nn.Model) (out []*nn.Param) {
		nn.ForEachParam(m, func(p *nn.Param) { out = append(out, p) })
		return
	}
	build := func() (what string, m nn.Model, f func(seed uint64), slots []slot) {
		x := func(name string, p *nn.Param) slot { return slot{name, p, "xavier", 0} }
		k := func(name string, p *nn.Param, v float64) slot { return slot{name, p, "const", v} }
		keep := func(name string, p *nn.Param) slot { return slot{name, p, "untouched", 0} }
		heads := func(h *selfattention.Model) []slot {
			return []slot{x("Query.W", h.Query.W), x("Key.W", h.Key.W), x("Value.W", h.Value.W),
				keep("Query.B", h.Query.B), keep("Key.B", h.Key.B), keep("Value.B", h.Value.B)}
		}
		switch seed % 4 {
		case 0:
			l := lstm.New[F](r, c)
			return "lstm", l, func(seed uint64) {
				t.Check(l.Init(rand.NewLockedRand(seed)) == l, "model-init", "lstm.Init returns another model")
			}, []slot{x("WIn", l.WIn), x("WInRec", l.WInRec), x("BIn", l.BIn), x("WOut", l.WOut), x("WOutRec", l.WOutRec), x("BOut", l.BOut),
				x("WFor", l.WFor), x("WForRec", l.WForRec), k("BFor", l.BFor, 1), x("WCand", l.WCand), x("WCandRec", l.WCandRec), x("BCand", l.BCand)}
		case 1:
			a := selfattention.New[F](selfattention.Config{InputSize: r, QuerySize: c, KeySize: c, ValueSize: (r+c)/2 + 1, ScaleFactor: 0.5})
			return "selfattention", a, func(seed uint64) { a.Init(rand.NewLockedRand(seed)) }, heads(a)
		case 2:
			n := 1 + r%4
			a := multiheadattention.New[F](n*(1+c%8), n, r%2 == 0, c%2 == 0)
			slots := []slot{x("OutputMerge.W", a.OutputMerge.W), keep("OutputMerge.B", a.OutputMerge.B)}
			for _, h := range a.Heads {
				slots = append(slots, heads(h)...)
			}
			return "multiheadattention", a, func(seed uint64) { a.Init(rand.NewLockedRand(seed)) }, slots
		}
		eps := 0.001 * float64(1+r)
		s := sgu.New[F](sgu.Config{Dim: 2 * c, DimSeq: r, InitEps: eps, Activation: activation.Identity})
		return "sgu", s, s.Initialize, []slot{{"Proj.W", s.Proj.W, "uniform", eps / float64(r)}, k("Proj.B", s.Proj.B, 1)}
	}
	what, m, f, slots := build()
	what = fmt.Sprintf("%s (%s, %d, %d)", what, dt, r, c)
	named := map[*nn.Param]bool{}
	before := map[*nn.Param]*M{}
	for _, p := range params(m) {
		v := p.Value().(mat.Matrix)
		sh := v.Shape()
		setParam(p, t.randM(sh[0], sh[1], 90, 100), dt)
		before[p] = toM(p.Value())
	}
	f(seed)
	var all []float64
	for _, s := range slots {
		named[s.p] = true
		v := toM(s.p.Value())
		bound := math.Sqrt(6 / float64(v.r+v.c))
		for i, e := range v.v {
			ok := false
			switch s.kind {
			case "xavier":
				ok = math.Abs(e) <= bound*(1+1e-6)
				all = append(all, e/bound)
			case "uniform":
				ok = math.Abs(e) <= s.k*(1+1e-6)
				all = append(all, e/s.k)
			case "const":
				ok = e == s.k
			case "untouched":
				ok = e == before[s.p].v[i]
			}
			if !t.Check(ok, "model-init", "%s: element %d of %s (%d×%d, %s) is %v", what, i, s.name, v.r, v.c, s.kind, e) {
				return
			}
		}
	}
	for p, b := range before {
		if named[p] {
			continue
		}
		d := diffM(toM(p.Value()), b, 0, 0)
		t.Check(d == "", "model-init", "%s: a parameter that is not to be initialised changes: %s", what, d)
	}
	// no two values are equal by accident in float64, and they fill the range
	if dt == f64 {
		seen := map[float64]bool{}
		for _, e := range all {
			t.Check(!seen[e], "model-init", "%s: the value %v occurs twice", what, e)
			seen[e] = true
		}
	}
	if len(all) >= 200 {
		quart := make([]int, 4)
		for _, e := range all {
			quart[max(0, min(3, int((e+1)*2)))]++
		}
		chi2(t, "model-init", what, quart, flat(4))
	}
	// again, from an equal seed and from whatever values
	_, m2, f2, _ := build()
	f2(seed)
	a, b := params(m), params(m2)
	for i := range a {
		if named[a[i]] && before[a[i]] != nil {
			va, vb := toM(a[i].Value()), toM(b[i].Value())
			same := diffM(va, vb, 0, 0)
			isKept := diffM(va, before[a[i]], 0, 0) == ""
			t.Check(same == "" || isKept, "model-init", "%s: parameter %d differs in another model initialised from seed %d: %s", what, i, seed, same)
		}
	}
	t.Event("model values", len(all))
	t.Checked(1)
	t.Seen(what, seed)
}

func init() {
	register(&Property{
		ID: "P25", Rule: "every element of matrices pre-filled with NaN follows the documented distribution (bounds, chi² of values, of neighbours and of consecutive matrices, moments; fixed seeds, z < 6.5) and repeats exactly for an equal seed; every element of a dropout is 0 or x/(1-p), its gradient has the same pattern and factor, and the masks are Bernoulli and independent over positions, nodes and runs",
		Level: "real code under monitors, plus race detector",
		Phases: []Phase{
			{Name: "initialisers", Shards: 8, Run: func(c *C) {
				c.Case("gain", gainCase)
				for i := 0; i < c.N(800, 20000); i++ {
					c.Case(fmt.Sprintf("model/%d", i), func(t *T) { modelInit(t, []dtype{f32, f64}[i%2]) })
				}
				for _, k := range initKinds {
					for i := 0; i < c.N(24, 300); i++ {
						c.Case(fmt.Sprintf("%s/%d", k.name, i), func(t *T) { initCase(t, k, c.N(60000, 1000000)) })
					}
				}
			}, MinEvents: map[string]int64{"elements": 1000000, "model values": 100000}},
			{Name: "dropout", Shards: 8, Run: func(c *C) {
				for i := 0; i < c.N(240, 3000); i++ {
					c.Case(fmt.Sprintf("drop/%d", i), func(t *T) { dropCase(t, c.N(20000, 100000)) })
				}
				for i := 0; i < c.N(400, 20000); i++ {
					c.Case(fmt.Sprintf("seed/%d", i), dropSeedCase)
				}
			}, MinEvents: map[string]int64{"dropout elements": 1000000, "via ag.Dropout": 100, "via ag.DropoutFunc": 100, "via nn/dropout": 100, "via gradfn.Dropout": 100}},
			{Name: "race", Variant: "race", Shards: 4, Run: func(c *C) {
				for i := 0; i < c.N(400, 8000); i++ {
					c.Case(fmt.Sprintf("stress/%d", i), dropStress)
				}
			}, MinEvents: map[string]int64{"concurrent dropouts": 500}},
		},
	})
}

package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
)

// ceRef is the cross-entropy of the logits x with respect to class c. It keeps
// its relative precision when the class has nearly all the probability.
func ceRef(x []float64, c int) float64 {
	top := true
	for _, v := range x {
		top = top && v <= x[c]
	}
	if top {
		s := 0.0
		for i, v := range x {
			if i != c {
				s += math.Exp(v - x[c])
			}
		}
		return math.Log1p(s)
	}
	return lseRef(x) - x[c]
}

// focalRef is (1-p)^γ·ce.
func focalRef(x []float64, c int, gamma float64) float64 {
	ce := ceRef(x, c)
	if gamma == 0 {
		return ce
	}
	return math.Pow(-math.Expm1(-ce), gamma) * ce
}

func oneHot(n, k int) *M {
	m := newM(n, 1)
	m.v[k] = 1
	return m
}

// lossVec draws predictions: a column, a row or a matrix.
func (t *T) lossShape() (int, int) {
	n := t.up(t.R.Pick(1, 1, 2, 3, 4, 5, 8, 17), 513)
	switch t.R.Intn(4) {
	case 0:
		return 1, n
	case 1:
		return n, t.up(t.R.Pick(1, 2, 3, 4), 20)
	}
	return n, 1
}

// logits draws a vector of logits.
func (t *T) logits() *M {
	n := t.up(t.R.Pick(1, 2, 2, 3, 4, 5, 9, 33), 1025)
	m := t.randM(n, 1, -3, 3)
	if t.R.P(0.2) {
		m.r, m.c = 1, n
	}
	return m
}

func lossSpecs() []netSpec {
	scalarRef := func(f func(xs []*M) float64) func(p, xs, p0, x0 []*M) []*M {
		return func(_, xs, _, _ []*M) []*M { return []*M{scalarM(f(xs))} }
	}
	sumAbs := func(x, y *M) float64 {
		return subM(x, y).mapf(math.Abs).sum()
	}
	halfSq := func(x, y *M) float64 { return subM(x, y).sumsq() / 2 }
	elementwise := func(name string, loss func(x, y mat.Tensor, mean bool) mat.Tensor, ref func(x, y *M) float64) netSpec {
		return netSpec{name, func(t *T, dt dtype) *netInst {
			r, c := t.lossShape()
			mean := t.R.Bool()
			n := &netInst{xs: []*M{t.randM(r, c, -2, 2), t.randM(r, c, -2, 2)}, desc: fmt.Sprintf("%s %dx%d mean=%v", name, r, c, mean)}
			n.fwd = func(xs ...mat.Tensor) []mat.Tensor { return []mat.Tensor{loss(xs[0], xs[1], mean)} }
			n.ref = scalarRef(func(xs []*M) float64 {
				v := ref(xs[0], xs[1])
				if mean {
					v /= float64(r * c)
				}
				return v
			})
			return n
		}}
	}
	seq := func(name string, loss func(x, y []mat.Tensor, mean bool) mat.Tensor, ref func(x, y *M) float64) netSpec {
		return netSpec{name, func(t *T, dt dtype) *netInst {
			l := t.long(t.R.Range(1, 5), 40)
			mean := t.R.Bool()
			n := &netInst{desc: fmt.Sprintf("%s length %d mean=%v", name, l, mean)}
			r, c := t.lossShape()
			same := t.R.P(0.7)
			for i := 0; i < l; i++ {
				if !same {
					r, c = t.lossShape()
				}
				n.xs = append(n.xs, t.randM(r, c, -2, 2), t.randM(r, c, -2, 2))
			}
			n.fwd = func(xs ...mat.Tensor) []mat.Tensor {
				var p, y []mat.Tensor
				for i := 0; i < len(xs); i += 2 {
					p, y = append(p, xs[i]), append(y, xs[i+1])
				}
				return []mat.Tensor{loss(p, y, mean)}
			}
			n.ref = scalarRef(func(xs []*M) float64 {
				v := 0.0
				for i := 0; i < len(xs); i += 2 {
					v += ref(xs[i], xs[i+1])
				}
				if mean {
					v /= float64(l)
				}
				return v
			})
			return n
		}}
	}
	// logit losses: one vector of logits and a class
	logit := func(name string, gen func(t *T, dt dtype, n int) (desc string, loss func(x mat.Tensor, c int) mat.Tensor, ref func(x []float64, c int) float64)) netSpec {
		return netSpec{name, func(t *T, dt dtype) *netInst {
			x := t.logits()
			k := t.R.Intn(len(x.v))
			desc, loss, ref := gen(t, dt, len(x.v))
			n := &netInst{xs: []*M{x}, desc: fmt.Sprintf("%s %dx%d class %d %s", name, x.r, x.c, k, desc)}
			n.fwd = func(xs ...mat.Tensor) []mat.Tensor { return []mat.Tensor{loss(xs[0], k)} }
			n.ref = scalarRef(func(xs []*M) float64 { return ref(xs[0].v, k) })
			return n
		}}
	}
	weightsOf := func(t *T, dt dtype, n int) (*M, mat.Matrix) {
		w := dt.quantM(t.randM(n, 1, 0, 1))
		if t.R.P(0.2) {
			w.v[t.R.Intn(n)] = 0
		}
		if t.R.P(0.3) {
			w.r, w.c = 1, n
		}
		return w, dt.mk(w, false)
	}
	quantLoss := func(name string, loss func(x mat.Tensor) mat.Tensor, ref func(x *M) float64) netSpec {
		return netSpec{name, func(t *T, dt dtype) *netInst {
			r, c := t.lossShape()
			n := &netInst{xs: []*M{t.randM(r, c, -1.5, 1.5)}, desc: fmt.Sprintf("%s %dx%d", name, r, c)}
			n.fwd = func(xs ...mat.Tensor) []mat.Tensor { return []mat.Tensor{loss(xs[0])} }
			n.ref = scalarRef(func(xs []*M) float64 { return ref(xs[0]) })
			return n
		}}
	}
	zeroOne := func(x *M) float64 {
		return x.mapf(func(x float64) float64 { return x * x * (1 - x) * (1 - x) }).sum()
	}
	norm2 := func(x *M) float64 { s := x.sumsq() - 1; return s * s }
	gammas := func(t *T) float64 { return []float64{0, 0.5, 1, 1.5, 2, 3, 5}[t.R.Intn(7)] }
	return []netSpec{
		elementwise("MAE", losses.MAE, sumAbs),
		elementwise("MSE", losses.MSE, halfSq),
		seq("MAESeq", losses.MAESeq, sumAbs),
		seq("MSESeq", losses.MSESeq, halfSq),
		{"NLL", func(t *T, dt dtype) *netInst {
			r := t.up(t.R.Pick(1, 2, 3, 5, 12), 300)
			x := t.randM(r, 1, 0.05, 1)
			n := &netInst{xs: []*M{x}, desc: fmt.Sprintf("NLL %d", r)}
			y := oneHot(r, t.R.Intn(r))
			if t.R.P(0.2) {
				x.r, x.c, y.r, y.c = x.c, x.r, y.c, y.r
			}
			target := dt.mk(y, false)
			n.fwd = func(xs ...mat.Tensor) []mat.Tensor { return []mat.Tensor{losses.NLL(xs[0], target)} }
			n.ref = scalarRef(func(xs []*M) float64 { return -prodM(y, xs[0].mapf(math.Log)).sum() })
			return n
		}},
		{"CrossEntropySeq", func(t *T, dt dtype) *netInst {
			l := t.long(t.R.Range(1, 6), 65)
			mean := t.R.Bool()
			n := &netInst{desc: fmt.Sprintf("CrossEntropySeq length %d mean=%v", l, mean)}
			target := make([]int, l)
			x := t.logits()
			for i := 0; i < l; i++ {
				if t.R.P(0.2) {
					x = t.logits()
				}
				n.xs = append(n.xs, t.randM(x.r, x.c, -3, 3))
				target[i] = t.R.Intn(len(x.v))
			}
			n.fwd = func(xs ...mat.Tensor) []mat.Tensor {
				return []mat.Tensor{losses.CrossEntropySeq(xs, target, mean)}
			}
			n.ref = scalarRef(func(xs []*M) float64 {
				v := 0.0
				for i, x := range xs {
					v += ceRef(x.v, target[i])
				}
				if mean {
					v /= float64(l)
				}
				return v
			})
			return n
		}},
		logit("CrossEntropy", func(t *T, dt dtype, n int) (string, func(x mat.Tensor, c int) mat.Tensor, func(x []float64, c int) float64) {
			return "", losses.CrossEntropy, ceRef
		}),
		logit("Perplexity", func(t *T, dt dtype, n int) (string, func(x mat.Tensor, c int) mat.Tensor, func(x []float64, c int) float64) {
			return "", losses.Perplexity, func(x []float64, c int) float64 { return math.Exp(ceRef(x, c)) }
		}),
		logit("WeightedCrossEntropy", func(t *T, dt dtype, n int) (string, func(x mat.Tensor, c int) mat.Tensor, func(x []float64, c int) float64) {
			w, wm := weightsOf(t, dt, n)
			return fmt.Sprint(w), losses.WeightedCrossEntropy(wm), func(x []float64, c int) float64 { return w.v[c] * ceRef(x, c) }
		}),
		logit("FocalLoss", func(t *T, dt dtype, n int) (string, func(x mat.Tensor, c int) mat.Tensor, func(x []float64, c int) float64) {
			if n == 1 {
				return "", losses.CrossEntropy, ceRef
			}
			g := gammas(t)
			return fmt.Sprint("γ=", g), func(x mat.Tensor, c int) mat.Tensor { return losses.FocalLoss(x, c, g) },
				func(x []float64, c int) float64 { return focalRef(x, c, g) }
		}),
		logit("WeightedFocalLoss", func(t *T, dt dtype, n int) (string, func(x mat.Tensor, c int) mat.Tensor, func(x []float64, c int) float64) {
			if n == 1 {
				return "", losses.CrossEntropy, ceRef
			}
			g := gammas(t)
			w, wm := weightsOf(t, dt, n)
			f := losses.WeightedFocalLoss(wm)
			return fmt.Sprint("γ=", g, " ", w), func(x mat.Tensor, c int) mat.Tensor { return f(x, c, g) },
				func(x []float64, c int) float64 { return w.v[c] * focalRef(x, c, g) }
		}),
		quantLoss("ZeroOneQuantization", losses.ZeroOneQuantization, zeroOne),
		quantLoss("Norm2Quantization", losses.Norm2Quantization, norm2),
		{"OneHotQuantization", func(t *T, dt dtype) *netInst {
			r, c := t.lossShape()
			q := t.R.Uni(0.001, 1)
			n := &netInst{xs: []*M{t.randM(r, c, -1.5, 1.5)}, desc: fmt.Sprintf("OneHotQuantization %dx%d q=%g", r, c, q)}
			n.fwd = func(xs ...mat.Tensor) []mat.Tensor { return []mat.Tensor{losses.OneHotQuantization(xs[0], q)} }
			n.ref = scalarRef(func(xs []*M) float64 { return q * (zeroOne(xs[0]) + norm2(xs[0])) })
			return n
		}},
		{"Distance", func(t *T, dt dtype) *netInst {
			target := dt.quant(t.R.Uni(-2, 2))
			n := &netInst{xs: []*M{t.randM(1, 1, -2, 2)}, desc: fmt.Sprintf("Distance %g", target)}
			n.fwd = func(xs ...mat.Tensor) []mat.Tensor { return []mat.Tensor{losses.Distance(xs[0], target)} }
			n.ref = scalarRef(func(xs []*M) float64 { return math.Abs(target - xs[0].v[0]) })
			return n
		}},
		{"SPG", func(t *T, dt dtype) *netInst {
			l := t.long(t.R.Range(1, 6), 65)
			n := &netInst{desc: fmt.Sprintf("SPG %d", l), vscale: 10}
			for i := 0; i < 2*l; i++ {
				n.xs = append(n.xs, t.randM(1, 1, -3, 3))
			}
			n.fwd = func(xs ...mat.Tensor) []mat.Tensor { return []mat.Tensor{losses.SPG(xs[:l:l], xs[l:])} }
			n.ref = scalarRef(func(xs []*M) float64 {
				v := 0.0
				for i := 0; i < l; i++ {
					v -= xs[i].v[0] * xs[l+i].v[0]
				}
				return v
			})
			return n
		}},
	}
}

// lossHostile drives the classification losses to extreme and degenerate
// logits: values and gradients must stay finite, exact and non-negative.
func lossHostile(t *T, dt dtype) {
	n := t.R.Pick(2, 2, 3, 4, 7, 40)
	k := t.R.Intn(n)
	mag := []float64{1, 30, 90, 200, 800, 1e4, 1e8, 1e18, 1e30}[t.R.Intn(9)]
	x := t.randM(n, 1, -mag, mag)
	kind := t.R.Intn(6)
	switch kind {
	case 0: // confident and right
		for i := range x.v {
			x.v[i] = -mag
		}
		x.v[k] = mag
	case 1: // confident and wrong
		for i := range x.v {
			x.v[i] = -mag
		}
		x.v[(k+1)%n] = mag
	case 2: // ties
		for i := range x.v {
			x.v[i] = mag
		}
	case 3: // confident, by a small multiple of the precision
		x = t.randM(n, 1, -1, 1)
		x.v[k] += t.R.Uni(5, 50)
	case 4: // far from the origin
		for i := range x.v {
			x.v[i] += mag * 10
		}
	}
	x = dt.quantM(x)
	eps, big := 2.3e-16, math.MaxFloat64
	if dt == f32 {
		eps, big = 1.2e-7, math.MaxFloat32
	}
	scale := x.maxAbs() + 1
	p := softmaxRef(x.v)
	type loss struct {
		name  string
		f     func(x mat.Tensor) mat.Tensor
		want  float64
		tol   float64
		grad  func(i int) float64 // nil: only finiteness
		isInf bool
	}
	ce := ceRef(x.v, k)
	ceTol := 8 * eps * scale
	ceGrad := func(i int) float64 {
		if i == k {
			s := 0.0
			for j, q := range p {
				if j != k {
					s -= q
				}
			}
			return s
		}
		return p[i]
	}
	w := dt.quantM(t.randM(n, 1, 0, 1))
	wm := dt.mk(w, false)
	all := []loss{
		{name: "CrossEntropy", f: func(x mat.Tensor) mat.Tensor { return losses.CrossEntropy(x, k) }, want: ce, tol: ceTol, grad: ceGrad},
		{name: "CrossEntropySeq", f: func(x mat.Tensor) mat.Tensor {
			return losses.CrossEntropySeq([]mat.Tensor{x, x}, []int{k, k}, true)
		}, want: ce, tol: 2 * ceTol, grad: ceGrad},
		{name: "WeightedCrossEntropy", f: func(x mat.Tensor) mat.Tensor { return losses.WeightedCrossEntropy(wm)(x, k) }, want: w.v[k] * ce, tol: 2 * ceTol,
			grad: func(i int) float64 { return w.v[k] * ceGrad(i) }},
	}
	if px := math.Exp(ce); px < big/100 && ceTol < 0.1 {
		all = append(all, loss{name: "Perplexity", f: func(x mat.Tensor) mat.Tensor { return losses.Perplexity(x, k) }, want: px, tol: 2 * px * (ceTol + eps),
			grad: func(i int) float64 { return px * ceGrad(i) }})
	}
	if ceTol < 0.01 {
		for _, g := range []float64{0, 0.5, 1, 2, 3.5} {
			g := g
			q := -math.Expm1(-ce) // 1-p
			f := math.Pow(q, g) * ce
			// the gradient with respect to the cross-entropy
			d := math.Pow(q, g)
			if g > 0 && q > 0 {
				d += g * math.Pow(q, g-1) * (1 - q) * ce
			}
			tol := ceTol * (1 + g) * (1 + ce) * 4
			if g > 0 && g < 1 { // a root is steep near zero
				tol = math.Max(tol, 4*math.Pow(4*ceTol, g)*(ce+4*ceTol))
			}
			fg := func(i int) float64 { return d * ceGrad(i) }
			name := fmt.Sprintf("FocalLoss γ=%g", g)
			all = append(all, loss{name: name, f: func(x mat.Tensor) mat.Tensor { return losses.FocalLoss(x, k, g) }, want: f, tol: tol, grad: fg})
			all = append(all, loss{name: "Weighted" + name, f: func(x mat.Tensor) mat.Tensor { return losses.WeightedFocalLoss(wm)(x, k, g) }, want: w.v[k] * f, tol: tol,
				grad: func(i int) float64 { return w.v[k] * fg(i) }})
		}
	}
	for _, l := range all {
		leaf := dt.mk(x, true)
		y := l.f(leaf)
		v := y.Value().Item().F64()
		desc := fmt.Sprintf("%s %s of class %d of %v", dt, l.name, k, x)
		if !t.Check(!math.IsNaN(v) && !math.IsInf(v, 0), "loss:"+l.name+":finite", "%s is %v, want %v", desc, v, l.want) {
			continue
		}
		if !t.Check(math.Abs(v-l.want) <= l.tol, "loss:"+l.name+":value", "%s is %.9g, want %.9g (tolerance %.3g)", desc, v, l.want, l.tol) {
			continue
		}
		t.Check(v >= 0, "loss:"+l.name+":negative", "%s is %.9g", desc, v)
		if err := ag.Backward(y); err != nil {
			t.Fail("loss:backward", "%s: %v", desc, err)
			continue
		}
		g := gradOf(leaf)
		if g == nil {
			t.Fail("loss:no-gradient", "%s: no gradient", desc)
			continue
		}
		for i, gv := range g.v {
			key := "loss:" + l.name + ":grad-finite"
			if v == 0 {
				key = "loss:" + l.name + ":grad-finite-at-zero"
			}
			if !t.Check(!math.IsNaN(gv) && !math.IsInf(gv, 0), key, "%s: gradient %v, want %.6g at %d", desc, g, l.grad(i), i) {
				break
			}
			// probabilities and powers carry the rounding error of the logits
			want := l.grad(i)
			gtol := 40*(ceTol+eps)*(1+math.Abs(want)) + l.tol*8
			if !t.Check(math.Abs(gv-want) <= gtol, "loss:"+l.name+":grad", "%s: gradient %v, want %.9g at %d (tolerance %.3g)", desc, g, want, i, gtol) {
				break
			}
		}
		t.Event("extreme losses", 1)
	}
	t.Seen(string(dt), n, kind, mag, k)
	t.Sample("%s logits %v class %d: cross-entropy %.6g", dt, x, k, ce)
}

// lossZero: predictions and targets that coincide, and probabilities of zero.
func lossZero(t *T, dt dtype) {
	n := t.R.Pick(1, 2, 3, 8)
	x := dt.quantM(t.randM(n, 1, -2, 2))
	for _, mean := range []bool{false, true} {
		for name, v := range map[string]mat.Tensor{
			"MSE": losses.MSE(dt.mk(x, true), dt.mk(x, false), mean), "MAE": losses.MAE(dt.mk(x, true), dt.mk(x, false), mean),
			"MSESeq": losses.MSESeq([]mat.Tensor{dt.mk(x, true)}, []mat.Tensor{dt.mk(x, false)}, mean),
		} {
			t.Check(v.Value().Item().F64() == 0, "loss:"+name+":zero", "%s of equal vectors is %v", name, v.Value())
		}
	}
	for _, name := range []string{"MSE", "ZeroOne", "Norm2"} {
		leaf := dt.mk(oneHot(n, t.R.Intn(n)), true)
		var y mat.Tensor
		switch name {
		case "MSE":
			y = losses.MSE(leaf, dt.mk(toM(leaf), false), t.R.Bool())
		case "ZeroOne":
			y = losses.ZeroOneQuantization(leaf)
		default:
			y = losses.Norm2Quantization(leaf)
		}
		t.Check(y.Value().Item().F64() == 0, "loss:"+name+":zero", "%s of a one-hot vector is %v", name, y.Value())
		if err := ag.Backward(y); err != nil {
			t.Fail("loss:backward", "%v", err)
			continue
		}
		t.Check(gradOf(leaf).maxAbs() == 0, "loss:"+name+":zero-grad", "%s of a one-hot vector has gradient %v", name, gradOf(leaf))
	}
	// a softmax that underflows to zero off the target
	if n > 1 {
		k := t.R.Intn(n)
		x := newM(n, 1)
		x.v[(k+1)%n] = -2000
		leaf := dt.mk(x, true)
		y := losses.NLL(ag.Softmax(leaf), dt.mk(oneHot(n, k), false))
		v := y.Value().Item().F64()
		want := ceRef(x.v, k)
		t.Check(math.Abs(v-want) < 1e-5, "loss:NLL:zero-probability", "%s NLL of softmax(%v) with target %d is %v, want %v: the logarithm of a zero probability is multiplied by a zero target", dt, x, k, v, want)
	}
	t.Event("zero losses", 1)
	t.Seen(string(dt), n)
}

func init() {
	register(&Property{
		ID:    "P18",
		Boost: 6,
		Rule: "every loss against its definition in float64 for random shapes, reductions, classes and weights (values, finite-difference gradients, untouched operands); " +
			"classification losses at extreme, tied and saturated logits: finite, non-negative, exact value and gradient",
		Phases: []Phase{
			netPhase("losses", 150, 8000, lossSpecs()...),
			bigPhase(20, 400, lossSpecs()...),
			{Name: "extreme", Shards: 8, Run: func(c *C) {
				for _, dt := range []dtype{f32, f64} {
					for i := 0; i < c.N(4000, 200000); i++ {
						c.Case(fmt.Sprintf("%s/%d", dt, i), func(t *T) { lossHostile(t, dt) })
					}
					for i := 0; i < c.N(200, 2000); i++ {
						c.Case(fmt.Sprintf("zero/%s/%d", dt, i), func(t *T) { lossZero(t, dt) })
					}
				}
			}, MinEvents: map[string]int64{"extreme losses": 1000, "zero losses": 100}},
		},
	})
}

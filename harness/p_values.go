package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
)

// relOps are computed element by element without cancellation, so that even
// tiny results are accurate relative to themselves.
var relOps = map[string]bool{"Exp": true, "Sigmoid": true, "Softmax": true, "Square": true, "Sqrt": true, "Prod": true, "Div": true,
	"ProdScalar": true, "DivScalar": true, "Reciprocal": true, "Neg": true, "Copy": true, "ReLU": true, "Abs": true, "Max": true, "Min": true,
	"Maximum": true, "Minimum": true, "ScalarMax": true, "ReduceMax": true, "MaxPooling": true, "LeakyReLU": true, "Threshold": true,
	"T": true, "Reshape": true, "Slice": true, "RowView": true, "ColView": true, "Concat": true, "Stack": true, "AppendRows": true, "At": true, "AtVec": true, "RotateR": true,
	"Flatten": true, "SeparateVec": true, "SeparateMatrix": true, "SplitVec": true, "RowViews": true, "ColViews": true, "AddNil": true}

// sumOps add products of many elements.
var sumOps = map[string]bool{"Mul": true, "MulT": true, "Affine": true, "BiLinear": true, "BiAffine": true, "Dot": true, "ReduceSum": true, "ReduceMean": true, "Sum": true, "Mean": true}

// valueCase checks the value of one application.
func valueCase(t *T, spec OpSpec, dt dtype, over *dom, big bool) {
	s := &single{t: t, dt: dt, dup: 0.1, over: over, big: big}
	in := spec.gen(s.G())
	for _, l := range s.leaves {
		l.t = dt.mk(l.v, t.R.Bool())
	}
	y := in.build(in.tensors(s.leaves))
	want := in.refOn(s.leaves)
	key := "value:" + in.op
	got := toM(y.Value())
	desc := instDesc(in, s.leaves)
	t.Sample("%s %s", dt, desc)
	if !t.Check(got.r == want.r && got.c == want.c && len(got.v) == len(want.v), key, "%s %s\nshape %d×%d, want %d×%d", dt, desc, got.r, got.c, want.r, want.c) {
		return
	}
	t.Check(dtypeOf(y.Value()) == dt, key, "%s: result type %s, operands %s", desc, dtypeOf(y.Value()), dt)
	// magnitude of the operands bounds the rounding errors of sums
	scale := math.Max(1, want.maxAbs())
	for _, a := range in.args {
		if m := s.leaves[a].v.maxAbs(); over != nil && m > scale {
			scale = m
		}
	}
	// sums over many elements: relative to the sum of magnitudes
	var mags *M
	if big && sumOps[in.op] {
		keep := make([]*M, len(s.leaves))
		for i, l := range s.leaves {
			keep[i], l.v = l.v, l.v.mapf(math.Abs)
		}
		mags = in.refOn(s.leaves)
		for i, l := range s.leaves {
			l.v = keep[i]
		}
	}
	if in.op == "ReduceSum" { // long sums: relative to the sum of magnitudes
		scale = math.Max(scale, s.leaves[in.args[0]].v.mapf(math.Abs).sum())
	}
	tol := 1e-11
	if dt == f32 {
		tol = 1e-5
		if in.op == "Mul" || in.op == "MulT" || in.op == "Affine" || in.op == "BiLinear" || in.op == "BiAffine" || in.op == "Dot" {
			tol = 4e-5
		}
	}
	for i, w := range want.v {
		x := got.v[i]
		ok := math.Abs(x-w) <= tol*scale
		if mags != nil {
			ok = math.Abs(x-w) <= tol*(1+mags.v[i])
		}
		if math.IsNaN(w) || math.IsInf(w, 0) {
			ok = true // outside the domain
			t.Event("outside_domain", 1)
		} else if ok && relOps[in.op] {
			r := 1e-11
			if dt == f32 {
				r = 1e-5
			}
			ok = math.Abs(x-w) <= r*math.Abs(w)+dt.tiny()
		}
		if !t.Check(ok, key, "%s %s\nelement %d = %.12g, want %.12g\ngot  %v\nwant %v", dt, desc, i, x, w, got, want) {
			return
		}
	}
	for i, l := range s.leaves {
		t.Check(sameM(toM(l.t), l.v), key, "%s\noperand #%d changed: %v", desc, i, toM(l.t))
	}
	t.Event("elements_compared", len(want.v))
	o := ""
	if over != nil {
		o = fmt.Sprint(over.hi)
	}
	t.Seen(in.op, dt, in.desc, shapeSig(in, s.leaves), o)
}

// tiny bounds the absolute error where results underflow.
func (dt dtype) tiny() float64 {
	if dt == f32 {
		return 1e-37
	}
	return 1e-300
}

// fixedCases: values at the ends of the domains, chosen by hand.
func fixedCases(t *T) {
	for _, dt := range []dtype{f32, f64} {
		big := 1e4
		v := dt.mk(col(big, 0, -big), false)
		eq := func(what string, got *M, want ...float64) {
			t.Check(diffM(got, col(want...), 1e-6, 0) == "", "fixed", "%s %s: %v, want %v", dt, what, got, want)
		}
		eq("Softmax", toM(ag.Softmax(v).Value()), 1, 0, 0)
		eq("LogSoftmax", toM(ag.LogSoftmax(v).Value()), 0, -big, -2*big)
		eq("LogSumExp", toM(ag.LogSumExp(v).Value()), big)
		eq("Sigmoid", toM(ag.Sigmoid(v).Value()), 1, 0.5, 0)
		eq("Tanh", toM(ag.Tanh(v).Value()), 1, 0, -1)
		eq("SoftPlus", toM(ag.SoftPlus(v, dt.mkScalar(1, false), dt.mkScalar(20, false)).Value()), big, math.Log(2), 0)
		eq("Mish", toM(ag.Mish(v).Value()), big, 0, 0)
		eq("GELU", toM(ag.GELU(v).Value()), big, 0, 0)
		eq("SiLU", toM(ag.SiLU(v).Value()), big, 0, 0)
		eq("SparseMax", toM(ag.SparseMax(v).Value()), 1, 0, 0)
		eq("ELU", toM(ag.ELU(v, dt.mkScalar(2, false)).Value()), big, 0, -2)
		eq("Softsign", toM(ag.Softsign(v).Value()), big/(1+big), 0, -big/(1+big))
		t.Event("elements_compared", 36)
	}
	t.Seen("fixed")
}

func init() {
	ph := func(name, variant string, env []string, shards, q, th int) Phase {
		return Phase{Name: name, Variant: variant, Env: env, Shards: shards, MinEvents: map[string]int64{"elements_compared": 20000, "steep": 10000, "wide operands": 10000}, Run: func(c *C) {
			for _, spec := range opSpecs {
				for _, dt := range []dtype{f64, f32} {
					for b := 0; b < c.N(1, 8); b++ {
						c.Case(fmt.Sprintf("%s/%s/%d", spec.name, dt, b), func(t *T) {
							for i := 0; i < c.N(q, th) && !t.Failed(); i++ {
								valueCase(t, spec, dt, nil, false)
							}
						})
					}
					c.Case(fmt.Sprintf("large/%s/%s", spec.name, dt), func(t *T) {
						for i := 0; i < c.N(max(2, q/8), th/4) && !t.Failed(); i++ {
							valueCase(t, spec, dt, nil, true)
						}
					})
				}
			}
			for _, name := range append([]string{"LogSoftmax", "Add", "Sub", "Neg", "Square", "ReverseSubOne", "Sum", "Mean", "ReduceSum", "ReduceMean", "SoftShrinkX"}, extremeOps...) {
				neg := false
				switch name {
				case "PositiveELUneg":
					name, neg = "PositiveELU", true
				case "SoftShrinkX":
					continue
				}
				spec := opSpec(name)
				for _, dt := range []dtype{f64, f32} {
					for _, hi := range []float64{20, 50, 80, 200, 700, 1e4} {
						if dt == f32 && hi > 80 && (name == "Mish" || name == "Swish" || name == "SiLU" || name == "Sigmoid") {
							continue // float32 exponentials saturate there: P08
						}
						c.Case(fmt.Sprintf("extreme/%s/%s/%g", name, dt, hi), func(t *T) {
							for i := 0; i < c.N(q, th) && !t.Failed(); i++ {
								d := dom{lo: -hi, hi: hi}
								if neg {
									d.hi = 3
								}
								valueCase(t, spec, dt, &d, false)
							}
						})
					}
				}
			}
			c.Case("fixed", fixedCases)
			steepCases(c, c.N(10, 300), false)
			rangeCases(c, c.N(10, 300), false)
		}}
	}
	register(&Property{
		ID:    "P05",
		Boost: 10,
		Rule:  "a case applies one operator (or composite helper) to generated operands (all shapes up to 40, both types, some operands repeated; also magnitudes up to 1e4 where the definition stays finite) and compares shape, type and every element with an independent float64 reference, in the AVX, SSE and portable builds; distinct = operator × type × parameters × shapes × magnitude",
		Phases: []Phase{
			ph("avx", "plain", nil, 4, 120, 4000),
			ph("sse", "plain", sseEnv, 2, 40, 1500),
			ph("portable", "purego", nil, 2, 40, 1500),
		},
	})
}

// steep functions: hyperparameters far from 1.
var steepOps = []struct {
	name  string
	hyper func(t *T) []float64
	f     func(x float64, h []float64) (y, dy float64)
	build func(x mat.Tensor, h []mat.Tensor) mat.Tensor
}{
	{"SoftPlus", func(t *T) []float64 {
		return []float64{pickF(t, 1e-3, 0.05, 1, 10, 50, 100, 1000) * t.R.Uni(0.5, 2), pickF(t, 0, 1, 20, 20, 100) * t.R.Uni(0.5, 1.5)}
	}, func(x float64, h []float64) (float64, float64) {
		if x > h[1] {
			return x, 1
		}
		return softplus1(h[0]*x) / h[0], sigmoid(h[0] * x)
	}, func(x mat.Tensor, h []mat.Tensor) mat.Tensor { return ag.SoftPlus(x, h[0], h[1]) }},
	{"SwishB", func(t *T) []float64 {
		return []float64{pickF(t, 1e-3, 0.05, 1, 10, -1, -50, 50, 1000) * t.R.Uni(0.5, 2)}
	}, func(x float64, h []float64) (float64, float64) {
		s := sigmoid(h[0] * x)
		return x * s, s + h[0]*x*s*sigmoid(-h[0]*x)
	}, func(x mat.Tensor, h []mat.Tensor) mat.Tensor { return ag.SwishB(x, h[0]) }},
	{"CELU", func(t *T) []float64 { return []float64{pickF(t, 1e-3, 0.02, 1, 40, 1000) * t.R.Uni(0.5, 2)} },
		func(x float64, h []float64) (float64, float64) {
			if x > 0 {
				return x, 1
			}
			return h[0] * math.Expm1(x/h[0]), math.Exp(x / h[0])
		}, func(x mat.Tensor, h []mat.Tensor) mat.Tensor { return ag.CELU(x, h[0]) }},
	{"ELU", func(t *T) []float64 { return []float64{pickF(t, 1e-3, 0.02, 1, 40, 1000) * t.R.Uni(0.5, 2)} },
		func(x float64, h []float64) (float64, float64) {
			if x > 0 {
				return x, 1
			}
			return h[0] * math.Expm1(x), h[0] * math.Exp(x)
		}, func(x mat.Tensor, h []mat.Tensor) mat.Tensor { return ag.ELU(x, h[0]) }},
	{"SELU", func(t *T) []float64 {
		return []float64{pickF(t, 1e-3, 1, 40, 1000) * t.R.Uni(0.5, 2), pickF(t, 1e-3, 1, 40, 1000) * t.R.Uni(0.5, 2)}
	}, func(x float64, h []float64) (float64, float64) {
		if x > 0 {
			return h[1] * x, h[1]
		}
		return h[1] * h[0] * math.Expm1(x), h[1] * h[0] * math.Exp(x)
	}, func(x mat.Tensor, h []mat.Tensor) mat.Tensor { return ag.SELU(x, h[0], h[1]) }},
	{"LeakyReLU", func(t *T) []float64 { return []float64{pickF(t, 0, 1e-6, 1, 50, -2) * t.R.Uni(0.5, 2)} },
		func(x float64, h []float64) (float64, float64) {
			if x > 0 {
				return x, 1
			}
			return h[0] * x, h[0]
		}, func(x mat.Tensor, h []mat.Tensor) mat.Tensor { return ag.LeakyReLU(x, h[0]) }},
	{"SoftShrink", func(t *T) []float64 { return []float64{pickF(t, 0, 1e-6, 1, 20, 50) * t.R.Uni(0.5, 2)} },
		func(x float64, h []float64) (float64, float64) {
			switch {
			case x > h[0]:
				return x - h[0], 1
			case x < -h[0]:
				return x + h[0], 1
			}
			return 0, 0
		}, func(x mat.Tensor, h []mat.Tensor) mat.Tensor { return ag.SoftShrink(x, h[0]) }},
	{"Threshold", func(t *T) []float64 {
		return []float64{pickF(t, 0, -20, -0.5, 1, 20) * t.R.Uni(0.5, 2), pickF(t, 0, -1000, 3, 50)}
	}, func(x float64, h []float64) (float64, float64) {
		if x > h[0] {
			return x, 1
		}
		return h[1], 0
	}, func(x mat.Tensor, h []mat.Tensor) mat.Tensor { return ag.Threshold(x, h[0], h[1]) }},
}

// steepCase compares such a function, or its derivative, with the closed form.
func steepCase(t *T, i int, dt dtype, grads bool) {
	op := steepOps[i]
	h := op.hyper(t)
	var hs []mat.Tensor
	for j := range h {
		h[j] = dt.quant(h[j])
		hs = append(hs, dt.mkScalar(h[j], false))
	}
	lim := pickF(t, 0.01, 1, 10, 30, 100, 800)
	xv := dt.quantM(t.randM(t.R.Range(1, 9), t.R.Range(1, 9), -lim, lim))
	for j, x := range xv.v {
		for _, k := range append([]float64{0}, h...) {
			if math.Abs(math.Abs(x)-math.Abs(k)) < 1e-3 { // a kink
				xv.v[j] = dt.quant(x + 0.01)
			}
		}
	}
	x := dt.mk(xv, grads)
	tol := 1e-9
	if dt == f32 {
		tol = 2e-6
	}
	desc := fmt.Sprintf("%s %s%v", dt, op.name, h)
	y := op.build(x, hs)
	got := toM(y.Value())
	g := newM(xv.r, xv.c)
	key := "steep:" + op.name
	if grads {
		g = dt.quantM(t.randM(xv.r, xv.c, -1, 1))
		if t.R.Bool() {
			g.v[t.R.Intn(len(g.v))] = 0
		}
		y.AccGrad(dt.mk(g, false))
		if err := ag.Backward(y); err != nil {
			t.Fail(key, "%s: %v", desc, err)
			return
		}
		got = gradOf(x)
		if !t.Check(got != nil, key, "%s: no gradient", desc) {
			return
		}
	}
	for j, v := range xv.v {
		want, dy := op.f(v, h)
		slack := 1e-12
		if grads {
			want = dy * g.v[j]
		}
		// the argument of the exponential is not exact
		slack += 1e-14*math.Abs(want)*math.Abs(v)*1e3 + dt.tiny()
		if !t.Check(math.Abs(got.v[j]-want) <= tol*math.Abs(want)+slack, key, "%s at %g: %g, want %g", desc, v, got.v[j], want) {
			return
		}
	}
	t.Event("steep", len(xv.v))
	t.Seen(op.name, dt, desc, lim)
}

// steepCases runs n cases of every function.
func steepCases(c *C, n int, grads bool) {
	for i, op := range steepOps {
		for _, dt := range []dtype{f64, f32} {
			for b := 0; b < n; b++ {
				c.Case(fmt.Sprintf("steep/%s/%s/%d", op.name, dt, b), func(t *T) {
					for k := 0; k < 20 && !t.Failed(); k++ {
						steepCase(t, i, dt, grads)
					}
				})
			}
		}
	}
}

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
)

func newLinear(dt dtype, in, out int) *linear.Model {
	if dt == f32 {
		return linear.New[float32](in, out)
	}
	return linear.New[float64](in, out)
}

// layerNormRef is (x-mean)/sqrt(var+eps)*w+b.
func layerNormRef(x, w, b *M, eps float64) *M {
	mu := x.mean()
	d := x.mapf(func(v float64) float64 { return v - mu })
	return addM(prodM(d.scale(1/math.Sqrt(d.sumsq()/float64(d.size())+eps)), w), b)
}

// sguRef: the gate half goes through layer norm and a projection over the
// sequence.
func sguRef(act string, w, b, pw, pb *M, xs []*M) []*M {
	n := len(xs)
	gate := make([]*M, n)
	res := make([]*M, n)
	for i, x := range xs {
		h := x.size() / 2
		res[i] = refSlice(x, 0, 0, h, 1)
		gate[i] = layerNormRef(refSlice(x, h, 0, x.size(), 1), w, b, 1e-12)
	}
	out := make([]*M, pw.r)
	for o := range out {
		y := newM(gate[0].size(), 1)
		for i := range gate {
			y = addM(y, gate[i].scale(pw.at(o, i)))
		}
		y = y.mapf(func(v float64) float64 { return v + pb.v[o] })
		if act != "Identity" {
			y = actRef(act, y)
		}
		out[o] = prodM(y, res[o])
	}
	return out
}

var ffSpecs = []netSpec{
	{"linear", func(t *T, dt dtype) *netInst {
		in, out := t.dim(), t.dim()
		if t.R.P(0.2) {
			in, out = t.up(t.R.Range(6, 40), 513), t.up(t.R.Range(1, 20), 200)
		}
		m := newLinear(dt, in, out)
		n := &netInst{model: m, xs: t.seq(t.long(t.R.Pick(0, 1, 1, 2, 3, 7), 65), in), desc: fmt.Sprintf("linear(%d,%d)", in, out), fwd: m.Forward}
		n.add(m.W, m.B)
		if t.R.P(0.2) {
			m.WithBiasGrad(false)
			n.frozen = map[int]bool{1: true}
		}
		n.ref = func(p, xs, _, _ []*M) []*M { return mapMs(xs, func(x *M) *M { return affine(p[1], p[0], x) }) }
		return n
	}},
	{"activation", func(t *T, dt dtype) *netInst {
		a := activation.Activation(t.R.Intn(len(actNames)))
		info := actNames[a]
		var ps []*nn.Param
		for i := 0; i < info.n; i++ {
			// hyperparameters (no gradients, except for the beta of SwishB)
			ps = append(ps, nn.NewParam(dt.mkScalar(t.R.Uni(0.3, 1.5), false)).WithGrad(info.name == "SwishB"))
		}
		m := activation.New(a, ps...)
		n := &netInst{model: m, desc: info.name, fwd: m.Forward, keepParams: true}
		k := t.long(t.R.Pick(0, 1, 2, 4), 40)
		for i := 0; i < k; i++ {
			lim := 3.0
			if info.name == "Tan" {
				lim = 1
			}
			n.xs = append(n.xs, t.randM(t.up(t.R.Range(1, 9), 300), 1, -lim, lim))
		}
		n.add(ps...)
		n.frozen = map[int]bool{}
		for i := range ps {
			n.frozen[i] = info.name != "SwishB"
		}
		n.tol = 2
		n.ref = func(p, xs, _, _ []*M) []*M {
			var h []float64
			for _, q := range p {
				h = append(h, q.v[0])
			}
			return mapMs(xs, func(x *M) *M { return actRef(info.name, x, h...) })
		}
		return n
	}},
	{"highway", func(t *T, dt dtype) *netInst {
		in := t.dim()
		a, name := t.act()
		var m *highway.Model
		if dt == f32 {
			m = highway.New[float32](in, a)
		} else {
			m = highway.New[float64](in, a)
		}
		n := &netInst{model: m, xs: t.seq(t.long(t.R.Pick(0, 1, 2, 5), 40), in), desc: fmt.Sprintf("highway(%d,%s)", in, name), fwd: m.Forward}
		n.add(m.WIn, m.BIn, m.WT, m.BT)
		n.ref = func(p, xs, _, _ []*M) []*M {
			return mapMs(xs, func(x *M) *M {
				tg := sigM(affine(p[3], p[2], x))
				h := actRef(name, affine(p[1], p[0], x))
				return addM(prodM(tg, h), prodM(tg.mapf(func(v float64) float64 { return 1 - v }), x))
			})
		}
		return n
	}},
	{"sgu", func(t *T, dt dtype) *netInst {
		dim, ls := 2*t.up(t.R.Range(2, 4), 20), t.up(t.R.Range(1, 5), 40)
		a, name := t.act()
		cfg := sgu.Config{Dim: dim, DimSeq: ls, InitEps: 1e-3, Activation: a}
		var m *sgu.Model
		if dt == f32 {
			m = sgu.New[float32](cfg)
		} else {
			m = sgu.New[float64](cfg)
		}
		n := &netInst{model: m, xs: t.seq(ls, dim), desc: fmt.Sprintf("sgu(%d,%d,%s)", dim, ls, name), fwd: m.Forward, tol: 20}
		n.add(m.Norm.W, m.Norm.B, m.Proj.W, m.Proj.B)
		n.ref = func(p, xs, _, _ []*M) []*M { return sguRef(name, p[0], p[1], p[2], p[3], xs) }
		return n
	}},
	{"gmlp", func(t *T, dt dtype) *netInst {
		dim, depth, ls, mult := t.up(t.R.Range(2, 4), 16), t.R.Range(0, 2), t.long(t.R.Range(1, 4), 33), 2*t.R.Range(1, 2)
		a, name := t.act()
		cfg := gmlp.Config{Dim: dim, Depth: depth, SeqLen: ls, FFMult: mult, Activation: a}
		var m *gmlp.Model
		if dt == f32 {
			m = gmlp.New[float32](cfg)
		} else {
			m = gmlp.New[float64](cfg)
		}
		k := t.R.Range(0, ls)
		n := &netInst{model: m, xs: t.seq(k, dim), desc: fmt.Sprintf("gmlp(%+v,%s)", cfg, name), fwd: m.Forward, tol: 100}
		for _, l := range m.Layers {
			pn := l.(*gmlp.Residual).PreNorm
			b := pn.Block.Layers
			l1, g, l2 := b[0].(*linear.Model), b[2].(*sgu.Model), b[3].(*linear.Model)
			n.add(pn.Norm.W, pn.Norm.B, l1.W, l1.B, g.Norm.W, g.Norm.B, g.Proj.W, g.Proj.B, l2.W, l2.B)
		}
		n.ref = func(p, xs, _, _ []*M) []*M {
			if len(xs) == 0 {
				return nil
			}
			cur := append([]*M(nil), xs...)
			for len(cur) < ls {
				cur = append(cur, newM(dim, 1))
			}
			for l := 0; l < depth; l++ {
				q := p[10*l:]
				h := mapMs(cur, func(x *M) *M {
					return actRef("GELU", affine(q[3], q[2], layerNormRef(x, q[0], q[1], 1e-12)))
				})
				h = sguRef(name, q[4], q[5], q[6], q[7], h)
				for i := range h {
					cur[i] = addM(affine(q[9], q[8], h[i]), cur[i])
				}
			}
			return cur
		}
		return n
	}},
	{"mlpmixer", func(t *T, dt dtype) *netInst {
		cfg := mlpmixer.Config{InputSize: t.up(t.R.Range(2, 4), 33), HiddenSizeTokenMixer: t.dim(), HiddenSizeChannelMixer: t.dim(), Channels: t.up(t.R.Range(1, 4), 33), Eps: 1e-5}
		var n1, n2 string
		cfg.ActFunctionTokenMixer, n1 = t.act()
		cfg.ActFunctionChannelMixer, n2 = t.act()
		var m *mlpmixer.MixerBlock
		if dt == f32 {
			m = mlpmixer.New[float32](cfg)
		} else {
			m = mlpmixer.New[float64](cfg)
		}
		n := &netInst{model: m, xs: t.seq(cfg.Channels, cfg.InputSize), desc: fmt.Sprintf("mlpmixer(%+v)", cfg), fwd: m.Forward, tol: 30}
		ff := func(f *mlpmixer.FeedForward) {
			l1, l2 := f.Layers[0].(*linear.Model), f.Layers[2].(*linear.Model)
			n.add(l1.W, l1.B, l2.W, l2.B)
		}
		n.add(m.TokenLayerNorm.W, m.TokenLayerNorm.B)
		ff(m.TokenMixerFF)
		n.add(m.ChannelLayerNorm.W, m.ChannelLayerNorm.B)
		ff(m.ChannelMixerFF)
		n.ref = func(p, xs, _, _ []*M) []*M {
			eps := dt.quant(1e-5)
			h := refStack(mapMs(xs, func(x *M) *M { return layerNormRef(x, p[0], p[1], eps) }))
			mixed := newM(len(xs), cfg.InputSize)
			for j := 0; j < cfg.InputSize; j++ {
				c := newM(len(xs), 1)
				for i := range xs {
					c.v[i] = h.at(i, j)
				}
				y := affine(p[5], p[4], actRef(n1, affine(p[3], p[2], c)))
				for i := range xs {
					mixed.set(i, j, y.v[i])
				}
			}
			out := make([]*M, len(xs))
			for i, x := range xs {
				y := x.clone()
				for j := range y.v {
					y.v[j] += mixed.at(i, j)
				}
				z := affine(p[11], p[10], actRef(n2, affine(p[9], p[8], layerNormRef(y, p[6], p[7], eps))))
				out[i] = addM(y, z)
			}
			return out
		}
		return n
	}},
	{"sqrdist", func(t *T, dt dtype) *netInst {
		in, rank := t.dim(), t.dim()
		var m *sqrdist.Model
		if dt == f32 {
			m = sqrdist.New[float32](in, rank)
		} else {
			m = sqrdist.New[float64](in, rank)
		}
		n := &netInst{model: m, xs: t.seq(t.long(t.R.Pick(0, 1, 2, 5), 40), in), desc: fmt.Sprintf("sqrdist(%d,%d)", in, rank), fwd: m.Forward}
		n.add(m.B)
		n.ref = func(p, xs, _, _ []*M) []*M {
			return mapMs(xs, func(x *M) *M { return scalarM(mul(p[0], x).sumsq()) })
		}
		return n
	}},
	{"flatten", func(t *T, dt dtype) *netInst {
		m := flatten.New()
		n := &netInst{model: m, desc: "flatten", fwd: m.Forward}
		for i := t.long(t.R.Range(1, 4), 70); i > 0; i-- {
			n.xs = append(n.xs, t.randM(t.up(t.R.Range(1, 4), 24), t.up(t.R.Range(1, 4), 24), -2, 2))
		}
		n.ref = func(p, xs, _, _ []*M) []*M { return []*M{refConcat(xs)} }
		return n
	}},
	{"stack", func(t *T, dt dtype) *netInst {
		// a module list of linear layers and activations
		var ml nn.ModuleList[nn.StandardModel]
		n := &netInst{tol: 3}
		size := t.dim()
		n.xs = t.seq(t.long(t.R.Pick(0, 1, 2, 5), 40), size)
		type layer struct {
			p   int
			act string
		}
		var ls []layer
		var d []string
		for i := t.up(t.R.Range(0, 5), 20); i > 0; i-- {
			if t.R.Bool() {
				out := t.dim()
				l := newLinear(dt, size, out)
				ls = append(ls, layer{p: n.add(l.W, l.B)})
				ml = append(ml, l)
				d = append(d, fmt.Sprintf("linear(%d,%d)", size, out))
				size = out
			} else {
				a, name := t.act()
				ls = append(ls, layer{p: -1, act: name})
				ml = append(ml, activation.New(a))
				d = append(d, name)
			}
		}
		n.desc = "stack of " + strings.Join(d, ", ")
		n.fwd = ml.Forward
		n.ref = func(p, xs, _, _ []*M) []*M {
			for _, l := range ls {
				xs = mapMs(xs, func(x *M) *M {
					if l.p < 0 {
						return actRef(l.act, x)
					}
					return affine(p[l.p+1], p[l.p], x)
				})
			}
			return xs
		}
		return n
	}},
}

func init() {
	register(&Property{
		ID:    "P26",
		Boost: 8,
		Rule: "each feed-forward block equals a float64 reference of the composition it declares (values, gradients of parameters and inputs by finite differences, nothing else changed), " +
			"on random sizes, depths, activations and sequence lengths; every activation name parses to the function of that name",
		Phases: []Phase{
			netPhase("blocks", 100, 4000, ffSpecs...),
			bigPhase(5, 100, ffSpecs...),
			{Name: "names", Run: func(c *C) {
				for a := activation.Activation(0); int(a) < len(actNames); a++ {
					info := actNames[a]
					c.Case("name/"+info.name, func(t *T) {
						for _, s := range []string{info.name, strings.ToLower(info.name)} {
							got, err := activation.ParseActivation(s)
							t.Check(err == nil && got == a, "act:parse", "%q parses to %v, %v; want %v", s, got, err, a)
							t.Check(panics(func() { activation.MustParseActivation(s) }) == nil, "act:parse", "MustParseActivation(%q) panics", s)
						}
						bad := info.name + "x"
						_, err := activation.ParseActivation(bad)
						t.Check(err != nil, "act:parse", "%q is accepted", bad)
						t.Check(panics(func() { activation.MustParseActivation(bad) }) != nil, "act:parse", "MustParseActivation(%q) does not panic", bad)
						t.Event("names", 1)
						t.Seen(info.name)
					})
				}
				c.Case("too-long", func(t *T) {
					g := gmlp.New[float32](gmlp.Config{Dim: 2, Depth: 1, SeqLen: 2, FFMult: 2, Activation: activation.Identity})
					mm := mlpmixer.New[float32](mlpmixer.Config{InputSize: 2, HiddenSizeTokenMixer: 2, HiddenSizeChannelMixer: 2, Channels: 2, Eps: 1e-5})
					xs := []mat.Tensor{f32.mk(newM(2, 1), false), f32.mk(newM(2, 1), false), f32.mk(newM(2, 1), false)}
					t.Check(panics(func() { g.Forward(xs...) }) != nil, "too-long", "gMLP accepts a sequence longer than its length")
					t.Check(panics(func() { mm.Forward(xs...) }) != nil, "too-long", "MLP mixer accepts a sequence longer than its channels")
				})
			}, MinEvents: map[string]int64{"names": 20}},
		},
	})
}

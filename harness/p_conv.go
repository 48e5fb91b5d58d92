package main

import (
	"fmt"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/convolution"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/pooling"
)

// conv2Ref slides w over x.
func conv2Ref(w, x *M, sx, sy int) *M {
	dx, dy := (x.r-w.r)/sx+1, (x.c-w.c)/sy+1
	o := newM(dx, dy)
	for i := 0; i < dx; i++ {
		for j := 0; j < dy; j++ {
			s := 0.0
			for a := 0; a < w.r; a++ {
				for b := 0; b < w.c; b++ {
					s += x.at(i*sx+a, j*sy+b) * w.at(a, b)
				}
			}
			o.set(i, j, s)
		}
	}
	return o
}

func conv1Ref(w, x *M, stride int) *M {
	o := conv2Ref(w, x, 1, stride)
	return o.reshape(o.size(), 1)
}

// fit draws a size such that windows of k at the given stride cover it exactly.
func (t *T) fit(k, stride, most int) int { return k + stride*t.up(t.R.Range(0, most), 4*most) }

func poolRef(x *M, r, c int) *M {
	o := newM(x.r/r, x.c/c)
	for i := 0; i < o.r; i++ {
		for j := 0; j < o.c; j++ {
			o.set(i, j, maxOf(refSlice(x, i*r, j*c, i*r+r, j*c+c).v))
		}
	}
	return o
}

func mask(t *T, n int) []int {
	if t.R.P(0.6) {
		return nil
	}
	m := make([]int, n)
	for i := range m {
		m[i] = t.R.Intn(2)
	}
	m[t.R.Intn(n)] = 1
	return m
}

// convModelRef sums the unmasked input channels, each with its own bias.
func convModelRef(p, xs []*M, k int, out int, depthwise bool, mask []int, act string, conv func(w, x *M) *M) []*M {
	ys := make([]*M, out)
	for o := range ys {
		var y *M
		if depthwise {
			y = conv(p[o], xs[o]).mapf(func(v float64) float64 { return v + p[k+o].v[0] })
		} else {
			for i, x := range xs {
				if mask != nil && mask[i] != 1 {
					continue
				}
				j := o*len(xs) + i
				y = addM(y, conv(p[j], x))
				y = y.mapf(func(v float64) float64 { return v + p[k+j].v[0] })
			}
		}
		ys[o] = actRef(act, y)
	}
	return ys
}

func channels(t *T) (in, out int, depthwise bool) {
	in, out = t.up(t.R.Range(1, 3), 10), t.up(t.R.Range(1, 3), 10)
	if t.R.P(0.3) {
		return in, in, true
	}
	return in, out, false
}

func frozenBy(m []int, k int) map[int]bool {
	f := map[int]bool{}
	for i := 0; m != nil && i < k; i++ {
		if m[i%len(m)] != 1 {
			f[i], f[k+i] = true, true
		}
	}
	return f
}

var convSpecs = []netSpec{
	{"Conv2D", func(t *T, dt dtype) *netInst {
		kr, kc, sx, sy := t.up(t.R.Range(1, 3), 12), t.up(t.R.Range(1, 3), 12), t.R.Range(1, 3), t.R.Range(1, 3)
		r, c := t.fit(kr, sx, 4), t.fit(kc, sy, 4)
		n := &netInst{desc: fmt.Sprintf("Conv2D %dx%d stride %d,%d on %dx%d", kr, kc, sx, sy, r, c), tol: 3}
		n.xs = []*M{t.randM(kr, kc, -1, 1), t.randM(r, c, -1, 1)}
		n.fwd = func(ts ...mat.Tensor) []mat.Tensor {
			return []mat.Tensor{convolution.Conv2D(ts[0], ts[1], sx, sy)}
		}
		n.ref = func(_, xs, _, _ []*M) []*M { return []*M{conv2Ref(xs[0], xs[1], sx, sy)} }
		return n
	}},
	{"Conv1D", func(t *T, dt dtype) *netInst {
		kr, kc, s := t.up(t.R.Range(1, 3), 33), t.up(t.R.Range(1, 4), 33), t.R.Range(1, 3)
		c := t.fit(kc, s, 5)
		n := &netInst{desc: fmt.Sprintf("Conv1D %dx%d stride %d on %dx%d", kr, kc, s, kr, c), tol: 3}
		n.xs = []*M{t.randM(kr, kc, -1, 1), t.randM(kr, c, -1, 1)}
		n.fwd = func(ts ...mat.Tensor) []mat.Tensor { return []mat.Tensor{convolution.Conv1D(ts[0], ts[1], s)} }
		n.ref = func(_, xs, _, _ []*M) []*M { return []*M{conv1Ref(xs[0], xs[1], s)} }
		return n
	}},
	{"convolution1d", func(t *T, dt dtype) *netInst {
		in, out, dw := channels(t)
		a, act := t.act()
		cfg := convolution1d.Config{KernelSizeX: t.R.Range(1, 3), KernelSizeY: t.R.Range(1, 3), YStride: t.R.Range(1, 3), InputChannels: in, OutputChannels: out, DepthWise: dw, Activation: a}
		if !dw {
			cfg.Mask = mask(t, in)
		}
		var m *convolution1d.Model
		if dt == f32 {
			m = convolution1d.New[float32](cfg)
		} else {
			m = convolution1d.New[float64](cfg)
		}
		n := &netInst{model: m, desc: fmt.Sprintf("conv1d %+v", cfg), fwd: m.Forward, tol: 5}
		n.add(m.K...)
		k := n.add(m.B...)
		n.frozen = frozenBy(cfg.Mask, k)
		c := t.fit(cfg.KernelSizeY, cfg.YStride, 4)
		for i := 0; i < in; i++ {
			n.xs = append(n.xs, t.randM(cfg.KernelSizeX, c, -1, 1))
		}
		n.ref = func(p, xs, _, _ []*M) []*M {
			return convModelRef(p, xs, k, out, dw, cfg.Mask, act, func(w, x *M) *M { return conv1Ref(w, x, cfg.YStride) })
		}
		return n
	}},
	{"convolution2d", func(t *T, dt dtype) *netInst {
		in, out, dw := channels(t)
		a, act := t.act()
		for act == "Softmax" { // of a vector
			a, act = t.act()
		}
		cfg := convolution2d.Config{KernelSizeX: t.R.Range(1, 3), KernelSizeY: t.R.Range(1, 3), XStride: t.R.Range(1, 3), YStride: t.R.Range(1, 3), InputChannels: in, OutputChannels: out, DepthWise: dw, Activation: a}
		if !dw {
			cfg.Mask = mask(t, in)
		}
		var m *convolution2d.Model
		if dt == f32 {
			m = convolution2d.New[float32](cfg)
		} else {
			m = convolution2d.New[float64](cfg)
		}
		n := &netInst{model: m, desc: fmt.Sprintf("conv2d %+v", cfg), fwd: m.Forward, tol: 5}
		n.add(m.K...)
		k := n.add(m.B...)
		n.frozen = frozenBy(cfg.Mask, k)
		r, c := t.fit(cfg.KernelSizeX, cfg.XStride, 3), t.fit(cfg.KernelSizeY, cfg.YStride, 3)
		for i := 0; i < in; i++ {
			n.xs = append(n.xs, t.randM(r, c, -1, 1))
		}
		n.ref = func(p, xs, _, _ []*M) []*M {
			return convModelRef(p, xs, k, out, dw, cfg.Mask, act, func(w, x *M) *M { return conv2Ref(w, x, cfg.XStride, cfg.YStride) })
		}
		return n
	}},
	{"conv1x1", func(t *T, dt dtype) *netInst {
		cfg := conv1x1.Config{InputChannels: t.up(t.R.Range(1, 4), 40), OutputChannels: t.up(t.R.Range(1, 4), 40)}
		var m *conv1x1.Model
		if dt == f32 {
			m = conv1x1.New[float32](cfg)
		} else {
			m = conv1x1.New[float64](cfg)
		}
		n := &netInst{model: m, desc: fmt.Sprintf("conv1x1 %+v", cfg), fwd: m.Forward, xs: t.seq(cfg.InputChannels, t.long(t.R.Range(1, 6), 40)), tol: 2}
		n.add(m.W, m.B)
		n.ref = func(p, xs, _, _ []*M) []*M {
			ys := make([]*M, cfg.OutputChannels)
			for o := range ys {
				y := newM(xs[0].size(), 1)
				for i, x := range xs {
					y = addM(y, x.scale(p[0].at(o, i)))
				}
				ys[o] = y.mapf(func(v float64) float64 { return v + p[1].v[o] })
			}
			return ys
		}
		return n
	}},
	{"maxpooling", func(t *T, dt dtype) *netInst {
		r, c := t.up(t.R.Range(1, 4), 12), t.up(t.R.Range(1, 4), 12)
		m := pooling.NewMax(r, c)
		n := &netInst{model: m, desc: fmt.Sprintf("maxpooling %dx%d", r, c), fwd: m.Forward}
		for i := t.R.Range(1, 3); i > 0; i-- {
			x := t.randM(r*t.up(t.R.Range(1, 3), 12), c*t.up(t.R.Range(1, 3), 12), -3, 3)
			if t.R.P(0.3) {
				x = x.mapf(func(v float64) float64 { return v - 4 })
			}
			n.xs = append(n.xs, x)
		}
		n.ref = func(_, xs, _, _ []*M) []*M { return mapMs(xs, func(x *M) *M { return poolRef(x, r, c) }) }
		return n
	}},
}

// convRefuse: strides that do not fit and bad configurations are refused.
func convRefuse(t *T, dt dtype) {
	k, s := t.R.Range(1, 3), t.R.Range(2, 4)
	bad := t.fit(k, s, 3) + t.R.Range(1, s-1)
	rows := t.R.Range(1, 3)
	w := dt.mk(t.randM(rows, k, -1, 1), false)
	x := dt.mk(t.randM(rows, bad, -1, 1), false)
	refused := func(what string, f func()) {
		t.Check(panics(f) != nil, "conv:not-refused", "%s is accepted", what)
		t.Event("refused", 1)
	}
	refused(fmt.Sprintf("Conv1D with kernel %d stride %d on %d columns", k, s, bad), func() { convolution.Conv1D(w, x, s) })
	refused(fmt.Sprintf("Conv2D with kernel %d stride %d on %d columns", k, s, bad), func() { convolution.Conv2D(w, x, 1, s) })
	refused("Conv2D with rows that do not fit", func() { convolution.Conv2D(w.T(), x.T(), s, 1) })
	refused("Conv1D with rows that differ", func() {
		convolution.Conv1D(w, dt.mk(t.randM(rows+1, t.fit(k, s, 3), -1, 1), false), s)
	})
	refused("a mask of another length", func() {
		convolution2d.New[float32](convolution2d.Config{KernelSizeX: 1, KernelSizeY: 1, XStride: 1, YStride: 1, InputChannels: 2, OutputChannels: 1, Mask: []int{1}})
	})
	refused("depthwise with different channels", func() {
		convolution1d.New[float32](convolution1d.Config{KernelSizeX: 1, KernelSizeY: 1, YStride: 1, InputChannels: 2, OutputChannels: 1, DepthWise: true})
	})
	refused("pooling that does not fit", func() { pooling.NewMax(2, 2).Forward(dt.mk(newM(3, 4), false)) })
	refused("pooling that does not fit", func() { pooling.NewMax(2, 2).Forward(dt.mk(newM(4, 3), false)) })
	t.Seen(k, s, bad, rows, string(dt))
}

var _ = nn.Apply

func init() {
	register(&Property{
		ID:    "P21",
		Boost: 15,
		Rule: "convolutions (1-D, 2-D, depthwise, masked, pointwise) and max-pooling equal the direct sliding-window sums of a float64 reference (values, gradients of kernels, biases and inputs by finite differences), " +
			"for random kernels, strides, channels, masks and sizes; what does not fit is refused",
		Phases: []Phase{
			netPhase("layers", 100, 4000, convSpecs...),
			bigPhase(8, 160, convSpecs...),
			{Name: "refused", Run: func(c *C) {
				for _, dt := range []dtype{f32, f64} {
					for i := 0; i < c.N(40, 500); i++ {
						c.Case(fmt.Sprintf("%s/%d", dt, i), func(t *T) { convRefuse(t, dt) })
					}
				}
			}, MinEvents: map[string]int64{"refused": 100}},
		},
	})
}

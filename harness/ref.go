package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/nlpodyssey/spago/mat"
)

// M is the reference matrix: row-major float64.
type M struct {
	r, c int
	v    []float64
}

func newM(r, c int) *M { return &M{r, c, make([]float64, r*c)} }
func mOf(r, c int, v ...float64) *M {
	if len(v) != r*c {
		panic("mOf")
	}
	return &M{r, c, v}
}
func (m *M) at(i, j int) float64     { return m.v[i*m.c+j] }
func (m *M) set(i, j int, x float64) { m.v[i*m.c+j] = x }
func (m *M) clone() *M               { return &M{m.r, m.c, append([]float64(nil), m.v...)} }
func (m *M) size() int               { return len(m.v) }
func (m *M) isVec() bool             { return m.r == 1 || m.c == 1 }
func (m *M) shape() []int            { return []int{m.r, m.c} }
func (m *M) same(o *M) bool          { return m.r == o.r && m.c == o.c }
func (m *M) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d×%d[", m.r, m.c)
	for i, x := range m.v {
		if i > 0 {
			b.WriteByte(' ')
		}
		if i >= 24 {
			b.WriteString("…")
			break
		}
		fmt.Fprintf(&b, "%.9g", x)
	}
	b.WriteByte(']')
	return b.String()
}
func (m *M) maxAbs() float64 {
	x := 0.0
	for _, v := range m.v {
		if a := math.Abs(v); a > x && !math.IsInf(v, 0) {
			x = a
		}
	}
	return x
}
func (m *M) mapf(f func(float64) float64) *M {
	o := newM(m.r, m.c)
	for i, v := range m.v {
		o.v[i] = f(v)
	}
	return o
}
func zip(a, b *M, f func(x, y float64) float64) *M {
	if !a.same(b) {
		panic("zip: shapes")
	}
	o := newM(a.r, a.c)
	for i := range a.v {
		o.v[i] = f(a.v[i], b.v[i])
	}
	return o
}
func (m *M) t() *M {
	o := newM(m.c, m.r)
	for i := 0; i < m.r; i++ {
		for j := 0; j < m.c; j++ {
			o.set(j, i, m.at(i, j))
		}
	}
	return o
}
func mul(a, b *M) *M {
	if a.c != b.r {
		panic("mul: shapes")
	}
	o := newM(a.r, b.c)
	for i := 0; i < a.r; i++ {
		for j := 0; j < b.c; j++ {
			s := 0.0
			for k := 0; k < a.c; k++ {
				s += a.at(i, k) * b.at(k, j)
			}
			o.set(i, j, s)
		}
	}
	return o
}
func (m *M) sum() float64 {
	s := 0.0
	for _, v := range m.v {
		s += v
	}
	return s
}
func (m *M) reshape(r, c int) *M { return &M{r, c, append([]float64(nil), m.v...)} }
func scalarM(x float64) *M       { return mOf(1, 1, x) }

func softmaxRef(v []float64) []float64 {
	mx := math.Inf(-1)
	for _, x := range v {
		mx = math.Max(mx, x)
	}
	o := make([]float64, len(v))
	s := 0.0
	for i, x := range v {
		o[i] = math.Exp(x - mx)
		s += o[i]
	}
	for i := range o {
		o[i] /= s
	}
	return o
}

func lseRef(v []float64) float64 {
	mx := math.Inf(-1)
	for _, x := range v {
		mx = math.Max(mx, x)
	}
	if math.IsInf(mx, 0) {
		return mx
	}
	s := 0.0
	for _, x := range v {
		s += math.Exp(x - mx)
	}
	return mx + math.Log(s)
}

// sparsemaxTau computes the sparsemax threshold by bisection: an algorithm
// unrelated to the sort-based one of the library.
func sparsemaxTau(v []float64) float64 {
	mx := math.Inf(-1)
	for _, x := range v {
		mx = math.Max(mx, x)
	}
	lo, hi := mx-1, mx
	for i := 0; i < 200; i++ {
		mid := (lo + hi) / 2
		s := 0.0
		for _, x := range v {
			s += math.Max(0, x-mid)
		}
		if s >= 1 {
			lo = mid
		} else {
			hi = mid
		}
	}
	// refine exactly on the support
	s, n := 0.0, 0.0
	for _, x := range v {
		if x > lo {
			s += x
			n++
		}
	}
	return (s - 1) / n
}

// ------------------------------------------------------------- real matrices

type dtype string

const (
	f32 dtype = "float32"
	f64 dtype = "float64"
)

func (dt dtype) quant(x float64) float64 {
	if dt == f32 {
		return float64(float32(x))
	}
	return x
}
func (dt dtype) quantM(m *M) *M { return m.mapf(dt.quant) }

// tol is the relative tolerance appropriate for one short chain of operations.
func (dt dtype) tol() float64 {
	if dt == f32 {
		return 2e-5
	}
	return 1e-10
}

// mk makes a real matrix out of a reference one.
func (dt dtype) mk(m *M, grad bool) mat.Matrix {
	if dt == f32 {
		d := make([]float32, len(m.v))
		for i, x := range m.v {
			d[i] = float32(x)
		}
		return mat.NewDense[float32](mat.WithShape(m.r, m.c), mat.WithBacking(d), mat.WithGrad(grad))
	}
	return mat.NewDense[float64](mat.WithShape(m.r, m.c), mat.WithBacking(append([]float64{}, m.v...)), mat.WithGrad(grad))
}

func (dt dtype) mkScalar(x float64, grad bool) mat.Matrix { return dt.mk(scalarM(x), grad) }

// toM reads a tensor back into a reference matrix.
func toM(t mat.Tensor) *M {
	s := t.Shape()
	d := t.Data().F64()
	return &M{s[0], s[1], append([]float64(nil), d...)}
}

func dtypeOf(t mat.Tensor) dtype {
	if t.Data().BitSize() == 32 {
		return f32
	}
	return f64
}

// diffM compares an observed matrix with the expected one; "" means equal
// within tol relative to max(scale, |want|max).
func diffM(got, want *M, tol, scale float64) string {
	if got.r != want.r || got.c != want.c {
		return fmt.Sprintf("shape %d×%d, want %d×%d", got.r, got.c, want.r, want.c)
	}
	if len(got.v) != len(want.v) {
		return fmt.Sprintf("%d elements, want %d", len(got.v), len(want.v))
	}
	s := math.Max(scale, want.maxAbs())
	for i := range want.v {
		if !closeScale(got.v[i], want.v[i], tol, s) {
			return fmt.Sprintf("element (%d,%d) = %.12g, want %.12g (got %v want %v)", i/max(1, got.c), i%max(1, got.c), got.v[i], want.v[i], got, want)
		}
	}
	return ""
}

// sameBits reports whether two reference matrices are identical (NaN==NaN).
func sameM(a, b *M) bool {
	if a.r != b.r || a.c != b.c || len(a.v) != len(b.v) {
		return false
	}
	for i := range a.v {
		if a.v[i] != b.v[i] && !(math.IsNaN(a.v[i]) && math.IsNaN(b.v[i])) {
			return false
		}
		if a.v[i] == 0 && math.Signbit(a.v[i]) != math.Signbit(b.v[i]) {
			return false
		}
	}
	return true
}

func (t *T) randM(r, c int, lo, hi float64) *M { return randM(t.R, r, c, lo, hi) }

func randM(g *Rng, r, c int, lo, hi float64) *M {
	m := newM(r, c)
	for i := range m.v {
		m.v[i] = g.Uni(lo, hi)
	}
	return m
}

// gradFD computes, by finite differences on a reference function, the gradient
// of sum(gy*f(x)) with respect to x, and the elements where f is not smooth
// enough for that (kinks, ties, jumps) as NaN.
func gradFD(f func(x *M) []float64, x0m *M, gy []float64) *M {
	return gradFDAt(f, x0m, gy, nil)
}

// gradFDElem is gradFD for an f that is computed element by element: all
// elements are moved at once.
func gradFDElem(f func(x *M) []float64, x0m *M, gy []float64) *M {
	g := newM(x0m.r, x0m.c)
	h := make([]float64, len(g.v))
	for i, c := range x0m.v {
		h[i] = 1e-5 * math.Max(1, math.Abs(c))
		h[i] = (c + h[i]) - c
	}
	at := func(k float64) []float64 {
		x := x0m.clone()
		for i := range x.v {
			x.v[i] += k * h[i]
		}
		return append([]float64(nil), f(x)...)
	}
	base, p1, m1, p2, m2 := at(0), at(1), at(-1), at(2), at(-2)
	for i := range g.v {
		g.v[i] = gy[i] * slope(base[i], p1[i], m1[i], p2[i], m2[i], h[i])
	}
	return g
}

// slope is the derivative from five values around a point, NaN at a kink.
func slope(base, p1, m1, p2, m2, h float64) float64 {
	d1 := (p1 - m1) / (2 * h)
	d5 := (8*(p1-m1) - (p2 - m2)) / (12 * h)
	fw, bw := (p1-base)/h, (base-m1)/h
	fw2, bw2 := (p2-base)/(2*h), (base-m2)/(2*h)
	s := 1 + math.Abs(d5)
	if math.Abs(fw-bw) > 1e-3*s || math.Abs(d5-d1) > 1e-6*s || math.Abs(fw2-bw2) > 2e-3*s {
		return math.NaN()
	}
	return d5
}

// gradFDAt computes the derivatives at the given elements, all of them by default.
func gradFDAt(f func(x *M) []float64, x0m *M, gy []float64, at []int) *M {
	g := newM(x0m.r, x0m.c)
	x := x0m.clone()
	f0 := f
	f = func(x *M) []float64 { return append([]float64(nil), f0(x)...) }
	base := f(x)
	diff := func(a, b []float64) float64 {
		s := 0.0
		for j := range gy {
			s += gy[j] * (a[j] - b[j])
		}
		return s
	}
	if at == nil {
		for i := range x.v {
			at = append(at, i)
		}
	}
	for _, i := range at {
		c := x.v[i]
		h := 1e-5 * math.Max(1, math.Abs(c))
		x.v[i] = c + h
		h = x.v[i] - c // exact step
		p1 := f(x)
		x.v[i] = c - h
		m1 := f(x)
		x.v[i] = c + 2*h
		p2 := f(x)
		x.v[i] = c - 2*h
		m2 := f(x)
		x.v[i] = c
		d1 := diff(p1, m1) / (2 * h)
		d5 := (8*diff(p1, m1) - diff(p2, m2)) / (12 * h)
		fw, bw := diff(p1, base)/h, diff(base, m1)/h
		fw2, bw2 := diff(p2, base)/(2*h), diff(base, m2)/(2*h)
		s := 1 + math.Abs(d5)
		if math.Abs(fw-bw) > 1e-3*s || math.Abs(d5-d1) > 1e-6*s || math.Abs(fw2-bw2) > 2e-3*s {
			g.v[i] = math.NaN()
			continue
		}
		g.v[i] = d5
	}
	return g
}

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
)

// rejections: requests that are out of range must be refused, and must not
// have changed anything.
type rejection struct {
	name string
	req  func(t *T, m mat.Matrix, r, c int) (string, func())
}

func mis(t *T, dt dtype, r, c int) mat.Matrix { // a matrix of another shape
	for {
		r2, c2 := max(0, r+t.R.Range(-2, 2)), max(0, c+t.R.Range(-2, 2))
		if t.R.P(0.3) {
			r2, c2 = c, r
		}
		if r2 != r || c2 != c {
			return dt.mk(t.randM(r2, c2, -2, 2), false)
		}
	}
}

func beyond(t *T, n int) int { return t.R.Pick(-1, -2, n, n+1, n+7, -1-n) }

// sameShapeOps require an argument of the receiver's shape.
var sameShapeOps = map[string]func(a, b mat.Matrix){
	"Add": func(a, b mat.Matrix) { a.Add(b) }, "AddInPlace": func(a, b mat.Matrix) { a.AddInPlace(b) },
	"Sub": func(a, b mat.Matrix) { a.Sub(b) }, "SubInPlace": func(a, b mat.Matrix) { a.SubInPlace(b) },
	"Prod": func(a, b mat.Matrix) { a.Prod(b) }, "ProdInPlace": func(a, b mat.Matrix) { a.ProdInPlace(b) },
	"Div": func(a, b mat.Matrix) { a.Div(b) }, "DivInPlace": func(a, b mat.Matrix) { a.DivInPlace(b) },
	"Maximum": func(a, b mat.Matrix) { a.Maximum(b) }, "Minimum": func(a, b mat.Matrix) { a.Minimum(b) },
	"Copy":         func(a, b mat.Matrix) { a.Copy(b) },
	"ApplyInPlace": func(a, b mat.Matrix) { a.ApplyInPlace(func(_, _ int, v float64) float64 { return v }, b) },
	"ApplyWithAlphaInPlace": func(a, b mat.Matrix) {
		a.ApplyWithAlphaInPlace(func(_, _ int, v float64, _ ...float64) float64 { return v }, b)
	},
}

func rejections() []rejection {
	var rs []rejection
	add := func(name string, f func(t *T, m mat.Matrix, r, c int) (string, func())) {
		rs = append(rs, rejection{name, f})
	}
	for name, f := range sameShapeOps {
		add(name, func(t *T, m mat.Matrix, r, c int) (string, func()) {
			o := mis(t, dtypeOf(m), r, c)
			return fmt.Sprint("other ", o.Shape()), func() { f(m, o) }
		})
	}
	add("Mul", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		k := c
		for k == c {
			k = t.R.Range(0, c+3)
		}
		o := dtypeOf(m).mk(t.randM(k, t.R.Range(1, 4), -1, 1), false)
		return fmt.Sprint("other ", o.Shape()), func() { m.Mul(o) }
	})
	add("MulT", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		k := r
		for k == r {
			k = t.R.Range(0, r+3)
		}
		o := dtypeOf(m).mk(t.randM(k, 1, -1, 1), false)
		return fmt.Sprint("other ", o.Shape()), func() { m.MulT(o) }
	})
	add("SetData", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		n := r * c
		for n == r*c {
			n = t.R.Range(0, r*c+3)
		}
		return fmt.Sprint(n), func() { m.SetData(float.Make(make([]float64, n)...)) }
	})
	idx := func(name string, f func(m mat.Matrix, ix ...int)) {
		add(name, func(t *T, m mat.Matrix, r, c int) (string, func()) {
			ix := []int{t.R.Intn(r), t.R.Intn(c)}
			switch t.R.Intn(4) {
			case 0:
				ix[0] = beyond(t, r)
			case 1:
				ix[1] = beyond(t, c)
			case 2:
				ix = []int{beyond(t, r*c)}
			case 3:
				ix = append(ix, 0)
			}
			return fmt.Sprint(ix), func() { f(m, ix...) }
		})
	}
	idx("At", func(m mat.Matrix, ix ...int) { m.At(ix...) })
	idx("ScalarAt", func(m mat.Matrix, ix ...int) { m.ScalarAt(ix...) })
	idx("SetScalar", func(m mat.Matrix, ix ...int) { m.SetScalar(float.Interface(5.0), ix...) })
	idx("SetAt", func(m mat.Matrix, ix ...int) { m.SetAt(mat.Scalar(5.0), ix...) })
	add("AtOneIndexOfMatrix", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		o := dtypeOf(m).mk(t.randM(r+1, c+1, -1, 1), false)
		if t.R.Bool() {
			return "", func() { o.At(0) }
		}
		return "", func() { o.SetScalar(float.Interface(1.0), 0) }
	})
	add("ExtractRow", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		i := beyond(t, r)
		return fmt.Sprint(i), func() { m.ExtractRow(i) }
	})
	add("ExtractColumn", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		i := beyond(t, c)
		return fmt.Sprint(i), func() { m.ExtractColumn(i) }
	})
	add("Slice", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		a := []int{t.R.Intn(r), t.R.Intn(c), r, c}
		switch t.R.Intn(6) {
		case 0:
			a[0] = -1
		case 1:
			a[1] = -1
		case 2:
			a[2] = r + t.R.Range(1, 3)
		case 3:
			a[3] = c + t.R.Range(1, 3)
		case 4:
			a[2] = a[0] - 1
		case 5:
			a[3] = a[1] - 1
		}
		return fmt.Sprint(a), func() { m.Slice(a[0], a[1], a[2], a[3]) }
	})
	for name, f := range map[string]func(m mat.Matrix, s ...int){
		"Reshape":        func(m mat.Matrix, s ...int) { m.Reshape(s...) },
		"ReshapeInPlace": func(m mat.Matrix, s ...int) { m.ReshapeInPlace(s...) },
	} {
		add(name, func(t *T, m mat.Matrix, r, c int) (string, func()) {
			s := []int{r + t.R.Range(1, 3), c}
			switch t.R.Intn(4) {
			case 0:
				s = []int{-r, -c}
			case 1:
				s = []int{r * c}
			case 2:
				s = []int{r, c, 1}
			}
			return fmt.Sprint(s), func() { f(m, s...) }
		})
	}
	vec := func(name string, f func(m mat.Matrix)) { // needs a vector
		add(name, func(t *T, m mat.Matrix, r, c int) (string, func()) {
			o := dtypeOf(m).mk(t.randM(r+1, c+1, -1, 1), false)
			return fmt.Sprint("on ", o.Shape()), func() { f(o) }
		})
	}
	vec("ResizeVector", func(m mat.Matrix) { m.ResizeVector(3) })
	vec("ArgMax", func(m mat.Matrix) { m.ArgMax() })
	vec("Softmax", func(m mat.Matrix) { m.Softmax() })
	vec("CumSum", func(m mat.Matrix) { m.CumSum() })
	vec("Range", func(m mat.Matrix) { m.Range(0, 1) })
	vec("SplitV", func(m mat.Matrix) { m.SplitV(1, 1) })
	vec("Norm", func(m mat.Matrix) { m.Norm(2) })
	vec("DoVecNonZero", func(m mat.Matrix) { m.DoVecNonZero(func(int, float64) {}) })
	vec("ConcatV", func(m mat.Matrix) { m.NewConcatV(m, m) })
	vec("Stack", func(m mat.Matrix) { m.NewStack(m) })
	vec("Item", func(m mat.Matrix) { m.Item() })
	add("Range", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		v := m.Flatten()
		n := r * c
		a := [][2]int{{-1, n}, {0, n + 1}, {1, 0}, {n + 1, n + 2}, {-2, -1}}[t.R.Intn(5)]
		return fmt.Sprint(a), func() { v.Range(a[0], a[1]) }
	})
	add("SplitV", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		v := m.Flatten()
		n := r * c
		a := [][]int{{n + 1}, {-1}, {n, 1}, {n, -1}, {1, n, n}}[t.R.Intn(5)]
		return fmt.Sprint(a), func() { v.SplitV(a...) }
	})
	add("ResizeVectorNegative", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		return "", func() { m.Flatten().ResizeVector(-1) }
	})
	add("PadNegative", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		if t.R.Bool() {
			return "rows", func() { m.PadRows(-1) }
		}
		return "columns", func() { m.PadColumns(-1) }
	})
	add("SwapInPlace", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		a, b := t.R.Intn(r), beyond(t, r)
		if t.R.Bool() {
			a, b = b, a
		}
		return fmt.Sprint(a, b), func() { m.SwapInPlace(a, b) }
	})
	add("Augment", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		o := dtypeOf(m).mk(t.randM(r, r+1, -1, 1), false)
		return "", func() { o.Augment() }
	})
	add("AppendRows", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		o := dtypeOf(m).mk(t.randM(1, c+1, -1, 1), false)
		if t.R.Bool() && c > 1 {
			o = dtypeOf(m).mk(t.randM(c-1, 1, -1, 1), false)
		}
		return fmt.Sprint(o.Shape()), func() { m.AppendRows(o) }
	})
	add("StackSizes", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		a, b := m.Flatten(), m.Flatten().ResizeVector(r*c+1)
		return "", func() { m.NewStack(a, b) }
	})
	add("ClipInPlace", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		return "", func() { m.ClipInPlace(1, 0.5) }
	})
	add("EmptyExtremes", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		e := m.NewMatrix(mat.WithShape(0, t.R.Range(0, 1)))
		switch t.R.Intn(2) {
		case 0:
			return "Max", func() { e.Max() }
		}
		return "Min", func() { e.Min() }
	})
	add("New", func(t *T, m mat.Matrix, r, c int) (string, func()) {
		switch t.R.Intn(5) {
		case 0:
			return "backing", func() { m.NewMatrix(mat.WithShape(r, c), mat.WithBacking(make([]float64, r*c+1))) }
		case 1:
			return "negative", func() { m.NewMatrix(mat.WithShape(-r, -c)) }
		case 2:
			return "nothing", func() { mat.NewDense[float32]() }
		case 3:
			return "three", func() { m.NewMatrix(mat.WithShape(r, c, 1)) }
		}
		return "short", func() { m.NewMatrix(mat.WithShape(r, c), mat.WithBacking(make([]float32, r*c-1))) }
	})
	sort.Slice(rs, func(i, j int) bool { return rs[i].name < rs[j].name })
	return rs
}

func rejectionCase(t *T, rj rejection, dt dtype) {
	r, c := t.R.Range(1, 6), t.R.Range(1, 6)
	v := dt.quantM(t.randM(r, c, -3, 3))
	m := dt.mk(v, false)
	desc, f := rj.req(t, m, r, c)
	t.Check(panics(f) != nil, "reject:"+rj.name, "%s on %d×%d %s: not refused", rj.name, r, c, desc)
	t.Check(sameM2(toM(m), v), "reject:"+rj.name, "%s on %d×%d %s: refused, but the matrix changed from %v to %v", rj.name, r, c, desc, v, toM(m))
	t.Event("requests_refused", 1)
	t.Seen(rj.name, dt, r, c, desc)
}

// algebra: structural operations that undo each other.
func algebraCase[D float.DType](t *T, dt dtype) {
	r, c := t.R.Range(1, 20), t.R.Range(1, 20)
	switch t.R.Intn(60) {
	case 0:
		r, c = t.R.Range(60, 300), t.R.Range(1, 4)
		if t.R.P(0.3) {
			r = t.R.Pick(1024, 1025, 1300)
		}
	case 1:
		r, c = t.R.Range(1, 4), t.R.Range(60, 1300)
	}
	v := dt.quantM(t.randM(r, c, -3, 3))
	m := dt.mk(v, false)
	key := "inverse"
	same := func(what string, got mat.Matrix) {
		msg := diffM(toM(got), v, 0, 0)
		t.Check(msg == "", key, "%s on %d×%d: %s", what, r, c, msg)
	}
	same("T.T", m.T().T())
	same("TransposeInPlace twice", m.Clone().TransposeInPlace().TransposeInPlace())
	same("T = TransposeInPlace", m.T().TransposeInPlace())
	same("Flatten.Reshape", m.Flatten().Reshape(r, c))
	k := t.R.Intn(r)
	j := t.R.Intn(r)
	same("SwapInPlace twice", m.Clone().SwapInPlace(k, j).SwapInPlace(k, j))
	same("PadRows.Slice", m.PadRows(3).Slice(0, 0, r, c))
	same("PadColumns.Slice", m.PadColumns(2).Slice(0, 0, r, c))
	var rows, cols []mat.Matrix
	for i := 0; i < r; i++ {
		rows = append(rows, m.ExtractRow(i))
	}
	for i := 0; i < c; i++ {
		cols = append(cols, m.ExtractColumn(i))
	}
	same("Stack of rows", m.NewStack(rows...))
	same("Stack of columns transposed", m.NewStack(cols...).T())
	same("rows appended one by one", rows[0].AppendRows(rows[1:]...))
	same("ConcatV of rows", m.NewConcatV(rows...).Reshape(r, c))
	if r > 1 {
		s := t.R.Range(1, r-1)
		top, bot := m.Slice(0, 0, s, c), m.Slice(s, 0, r, c)
		var bs []mat.Matrix
		for i := 0; i < bot.Shape()[0]; i++ {
			bs = append(bs, bot.ExtractRow(i))
		}
		same("split and append", top.AppendRows(bs...))
	}
	fl := m.Flatten()
	s := t.R.Range(0, r*c)
	same("SplitV.ConcatV", m.NewConcatV(fl.SplitV(s, r*c-s)...).Reshape(r, c))
	same("Range.ConcatV", m.NewConcatV(fl.Range(0, s), fl.Range(s, r*c)).Reshape(r, c))
	z := m.ZerosLike()
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			z.SetScalar(m.ScalarAt(i, j), i, j)
		}
	}
	same("element by element", z)

	// constructors
	init := mat.InitializeMatrix(r, c, func(i, j int) D { return D(v.at(i, j)) })
	same("InitializeMatrix", mat.NewDense[D](mat.WithShape(r, c), mat.WithBacking(init)))
	id := mat.CreateIdentityMatrix[D](r)
	oh := mat.CreateOneHotVector[D](r, k)
	full := mat.CreateInitializedSlice(r, D(1.5))
	ok := len(id) == r*r && len(oh) == r && len(full) == r
	for i := 0; ok && i < r; i++ {
		ok = full[i] == 1.5 && (oh[i] == 1) == (i == k) && (oh[i] == 0) == (i != k)
		for j := 0; ok && j < r; j++ {
			ok = id[i*r+j] == map[bool]D{true: 1}[i == j]
		}
	}
	t.Check(ok, key, "constructors of size %d: %v %v %v", r, id, oh, full)
	t.Check(mat.Equal(m, m.Clone()) && mat.SameDims(m, z) && mat.IsVector(m) == (r == 1 || c == 1) && mat.IsScalar(m) == (r*c == 1), key, "predicates on %d×%d", r, c)
	p := t.R.Intn(r * c)
	z.SetScalar(float.Interface(v.v[p]+1), p/c, p%c)
	t.Check(!mat.Equal(m, z) && !mat.InDelta(m, z, 0.5) && mat.InDelta(m, z, 1.5), key, "Equal/InDelta with element %d differing by 1", p)
	if r != c {
		t.Check(!mat.Equal(m, m.Reshape(c, r)) && !mat.SameDims(m, m.Reshape(c, r)), key, "Equal of different shapes")
	}
	one := mat.NewDense[D](mat.WithShape(r))
	t.Check(one.Shape()[0] == r && one.Shape()[1] == 1 && one.Size() == r && one.Dims() == 2, key, "one-dimensional shape")
	if x := m.NewScalar(v.v[p]); x.Item().F64() != v.v[p] || math.Abs(x.At(0).Item().F64()-v.v[p]) > 0 {
		t.Fail(key, "scalar")
	}
	t.Event("identities_checked", 20)
	t.Seen(r, c, k, j, s, dt)
}

var structPhases = []Phase{
	{Name: "refusals", MinEvents: map[string]int64{"requests_refused": 2000}, Run: func(c *C) {
		for _, rj := range rejections() {
			for _, dt := range []dtype{f32, f64} {
				c.Case(rj.name+"/"+string(dt), func(t *T) {
					for i := 0; i < t.N(100, 2000) && !t.Failed(); i++ {
						rejectionCase(t, rj, dt)
					}
				})
			}
		}
	}},
	{Name: "inverses", Shards: 2, MinEvents: map[string]int64{"identities_checked": 2000}, Run: func(c *C) {
		for b := 0; b < c.N(100, 2000); b++ {
			c.Case(fmt.Sprint(b), func(t *T) {
				for i := 0; i < 10 && !t.Failed(); i++ {
					algebraCase[float32](t, f32)
					algebraCase[float64](t, f64)
				}
			})
		}
	}},
}

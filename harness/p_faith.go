package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
)

// oddFloat is a number that is hard to print or to convert.
func oddFloat(t *T) float64 {
	switch t.R.Intn(12) {
	case 0:
		return float64(t.R.Range(-20, 20))
	case 1:
		return math.Ldexp(t.R.Uni(-1, 1), t.R.Range(-1070, 1023))
	case 2:
		return math.Ldexp(t.R.Uni(-1, 1), t.R.Range(-150, 127))
	case 3:
		return []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64,
			math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1e38, 3.5e38, 1e300, 1e-300, 1 << 24, 1<<24 + 1, 1<<53 + 1, 0.1, 1.0 / 3}[t.R.Intn(20)]
	case 4:
		return t.R.Uni(-1, 1) * math.Pow(10, float64(t.R.Range(-12, 12)))
	case 5: // exactly between two float32, or next to it
		f := float32(t.R.Uni(-1000, 1000))
		mid := (float64(f) + float64(math.Nextafter32(f, 1e9))) / 2
		return []float64{mid, math.Nextafter(mid, math.Inf(1)), math.Nextafter(mid, math.Inf(-1))}[t.R.Intn(3)]
	case 6:
		return 0.1 + math.Ldexp(1, -t.R.Range(20, 55))
	}
	return math.Round(t.R.Uni(-1000, 1000)*1000) / 1000
}

func sameBits(a, b float64) bool {
	return a == b && math.Signbit(a) == math.Signbit(b) || a != a && b != b
}

func bitSize[F float.DType]() int {
	if _, ok := any(F(0)).(float32); ok {
		return 32
	}
	return 64
}

func oddSlice[F float.DType](t *T, n int) []F {
	out := make([]F, n)
	tame := t.R.P(0.4)
	for i := range out {
		if tame {
			out[i] = F(math.Round(t.R.Uni(-100, 100)*100) / 100)
		} else {
			out[i] = F(oddFloat(t))
		}
	}
	return out
}

func oddDims(t *T) (r, c int) {
	r, c = t.R.Range(1, 7), t.R.Range(1, 7)
	switch t.R.Intn(6) {
	case 0:
		r = 1
	case 1:
		c = 1
	case 2:
		r, c = 1, 1
	}
	return
}

// printCase: a printed matrix shows each element where it is.
func printCase[F float.DType](t *T, dt dtype) {
	r, c := oddDims(t)
	vs := oddSlice[F](t, r*c)
	m := mat.NewDense[F](mat.WithShape(r, c), mat.WithBacking(vs))
	verb := "vgGeEfFxXb"[t.R.Intn(10)]
	if t.R.P(0.4) {
		verb = "vgf"[t.R.Intn(3)]
	}
	format, width, prec := "%", 0, -1
	if t.R.P(0.5) {
		width = t.R.Pick(1, 3, 8, 12, 20, 40, 120)
		format += strconv.Itoa(width)
	}
	if t.R.P(0.4) {
		prec = t.R.Pick(0, 1, 2, 3, 6, 10, 20)
		format += "." + strconv.Itoa(prec)
	}
	format += string(verb)
	got := fmt.Sprintf(format, m)
	what := fmt.Sprintf("%s of %s %d×%d %v", format, dt, r, c, vs)
	t.Seen(format, dt, r, c, vs[0])
	t.Event("printed matrices", 1)
	t.Sample("%s: %q", what, got)
	t.Checked(1)

	const key = "print"
	lines := strings.Split(got, "\n")
	if !t.Check(len(lines) == r, key, "%s: %d lines: %q", what, len(lines), got) {
		return
	}
	sv := verb
	switch verb {
	case 'v':
		sv = 'g'
	case 'F':
		sv = 'f'
	}
	points := make([]int, c) // where the decimal points of a column are
	for i, line := range lines {
		open, end := "[", "]"
		switch {
		case r == 1:
		case i == 0:
			open, end = "⎡", "⎤"
		case i == r-1:
			open, end = "⎣", "⎦"
		default:
			open, end = "⎢", "⎥"
		}
		if !t.Check(strings.HasPrefix(line, open) && strings.HasSuffix(line, end), key, "%s: line %d is not between %s and %s: %q", what, i, open, end, got) {
			return
		}
		if !t.Check(utf8.RuneCountInString(line) == utf8.RuneCountInString(lines[0]), "print:align", "%s: line %d has another width: %q", what, i, got) {
			return
		}
		body := strings.TrimSuffix(strings.TrimPrefix(line, open), end)
		fields := strings.Fields(body)
		if !t.Check(len(fields) == c, key, "%s: line %d has %d elements: %q", what, i, len(fields), got) {
			return
		}
		at := 0
		for j, f := range fields {
			v := float64(vs[i*c+j])
			want := strconv.FormatFloat(v, sv, prec, bitSize[F]())
			if !t.Check(f == want, key, "%s: element (%d, %d) = %v is printed %q, not %q", what, i, j, v, f, want) {
				return
			}
			from := at + strings.Index(body[at:], f)
			point := from + len(f)
			if k := strings.IndexByte(f, '.'); k >= 0 {
				point = from + k
			}
			at = from + len(f)
			if i == 0 {
				points[j] = point
			}
			if !t.Check(point == points[j], "print:align", "%s: element (%d, %d) is not aligned with the column: %q", what, i, j, got) {
				return
			}
		}
	}
	if c == 1 && strings.Contains(got, ".") { // the whole line is one cell
		t.Check(utf8.RuneCountInString(lines[0])-2 >= width, "print:width", "%s: narrower than %d: %q", what, width, got)
	}
}

// stringCase: String tells the type, the shape and every element.
func stringCase[F float.DType](t *T, dt dtype) {
	r, c := oddDims(t)
	if t.R.P(0.1) {
		r, c = t.R.Intn(3), 0
		if t.R.Bool() {
			r, c = c, r
		}
	}
	vs := oddSlice[F](t, r*c)
	m := mat.NewDense[F](mat.WithShape(r, c), mat.WithBacking(vs))
	got := m.String()
	what := fmt.Sprintf("String of %s %d×%d %v", dt, r, c, vs)
	head := fmt.Sprintf("Matrix|Dense[float%d](%d×%d)[", bitSize[F](), r, c)
	if !t.Check(strings.HasPrefix(got, head) && strings.HasSuffix(got, "]"), "string", "%s: %q", what, got) {
		return
	}
	fields := strings.Fields(got[len(head) : len(got)-1])
	if !t.Check(len(fields) == r*c, "string", "%s: %d elements: %q", what, len(fields), got) {
		return
	}
	for i, f := range fields {
		v, err := strconv.ParseFloat(f, bitSize[F]())
		t.Check(err == nil && sameBits(v, float64(vs[i])), "string", "%s: element %d is %q", what, i, f)
	}
	if r*c == 0 {
		t.Check(fmt.Sprintf("%v", m) == "[]" && fmt.Sprintf("%8.3f", m) == "[]", "print", "%s: printed %q", what, fmt.Sprintf("%v", m))
	}
	for _, f := range []string{"%+v", "%#v"} { // undocumented forms: every element is there
		s := fmt.Sprintf(f, m)
		for _, v := range vs {
			t.Check(strings.Contains(s, strconv.FormatFloat(float64(v), 'g', -1, bitSize[F]())), "print:debug", "%s: %s lacks %v: %q", what, f, v, s)
		}
	}
	if r*c > 0 {
		x := float.Interface(vs[0])
		v, err := strconv.ParseFloat(fmt.Sprint(x), bitSize[F]())
		t.Check(err == nil && sameBits(v, float64(vs[0])), "string", "a scalar %v is printed %q", vs[0], fmt.Sprint(x))
	}
	t.Event("strings", 1)
	t.Checked(1)
	t.Seen(dt, r, c, got)
}

// otherFloat and otherSlice are foreign implementations of the interfaces.
type otherFloat struct{ v float64 }

func (o otherFloat) F32() float32 { return float32(o.v) }
func (o otherFloat) F64() float64 { return o.v }
func (o otherFloat) BitSize() int { return 64 }

// convertCase: conversions between types keep or correctly round the values.
func convertCase[F, G float.DType](t *T, df, dg dtype) {
	n := t.R.Range(1, 12)
	vs := oddSlice[F](t, n)
	what := fmt.Sprintf("%s %v", df, vs)
	const key = "convert"
	for _, v := range vs {
		x := float.Interface(v)
		t.Check(sameBits(float64(x.F32()), float64(float32(v))) && sameBits(x.F64(), float64(v)) && x.BitSize() == bitSize[F](), key, "%s: %v reads %v and %v, %d bits", what, v, x.F32(), x.F64(), x.BitSize())
		t.Check(sameBits(float64(float.ValueOf[G](x)), float64(G(v))), key, "%s: ValueOf[%s](%v) is %v", what, dg, v, float.ValueOf[G](x))
		o := otherFloat{float64(v)}
		t.Check(sameBits(float64(float.ValueOf[G](o)), float64(G(v))), key, "%s: ValueOf[%s] of a foreign %v is %v", what, dg, v, float.ValueOf[G](o))
		s := mat.Scalar(v)
		t.Check(sameBits(s.Item().F64(), float64(v)) && sameBits(float64(s.Item().F32()), float64(float32(v))), key, "%s: the scalar of %v reads %v", what, v, s.Item())
	}
	keep := append([]F{}, vs...)
	sl := float.Make(vs...)
	t.Check(sl.Len() == n && sl.BitSize() == bitSize[F](), key, "%s: a slice of %d elements of %d bits", what, sl.Len(), sl.BitSize())
	same := func(how string, got []G) {
		if !t.Check(len(got) == n, key, "%s: %s has %d elements", what, how, len(got)) {
			return
		}
		for i := range got {
			t.Check(sameBits(float64(got[i]), float64(G(keep[i]))), key, "%s: element %d of %s is %v", what, i, how, got[i])
		}
	}
	same("SliceValueOf", float.SliceValueOf[G](sl))
	r, c := n, 1
	for _, d := range []int{2, 3, 5} {
		if n%d == 0 && t.R.Bool() {
			r, c = n/d, d
		}
	}
	m := mat.NewDense[F](mat.WithShape(r, c), mat.WithBacking(append([]F{}, vs...)))
	same("mat.Data", mat.Data[G](m))
	same("a matrix built from a backing of another type", mat.Data[G](mat.NewDense[G](mat.WithShape(r, c), mat.WithBacking(append([]F{}, vs...)))))
	z := mat.NewDense[G](mat.WithShape(r, c))
	mat.SetData(z, append([]F{}, vs...))
	same("SetData", mat.Data[G](z))
	z = mat.NewDense[G](mat.WithShape(r, c))
	z.Copy(m)
	same("Copy", mat.Data[G](z))
	col := m.Flatten()
	same("ConcatV", mat.Data[G](mat.ConcatV[G](col)))
	st := mat.Stack[G](col, col)
	if t.Check(st.Shape()[0] == 2 && st.Shape()[1] == n, key, "%s: Stack has shape %v", what, st.Shape()) {
		same("Stack", mat.Data[G](st)[n:])
	}
	z = mat.NewDense[G](mat.WithShape(r, c))
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if t.R.Bool() {
				z.SetScalar(m.ScalarAt(i, j), i, j)
			} else {
				z.SetAt(m.At(i, j), i, j)
			}
		}
	}
	same("element-wise SetScalar and SetAt", mat.Data[G](z))
	for i := range vs {
		if !t.Check(sameBits(float64(vs[i]), float64(keep[i])) && sameBits(m.Data().F64()[i], float64(keep[i])), key, "%s: a conversion changes element %d", what, i) {
			break
		}
	}
	t.Event("conversions", 7*n)
	t.Sample("%s to %s", what, dg)
	t.Checked(1)
	t.Seen(df, dg, r, c, vs[0])
}

// fakeT records what the assertions of the package report.
type fakeT struct{ errors, fails int }

func (f *fakeT) Helper()               {}
func (f *fakeT) Error(...any)          { f.errors++ }
func (f *fakeT) Errorf(string, ...any) { f.errors++ }
func (f *fakeT) FailNow()              { f.fails++ }

// compareCase: comparisons agree with the definition, element by element.
func compareCase[F, G float.DType](t *T, df, dg dtype) {
	r, c := oddDims(t)
	n := r * c
	as := oddSlice[F](t, n)
	if t.R.P(0.7) { // keep the difficult values for the rest
		for i := range as {
			as[i] = F(math.Round(t.R.Uni(-64, 64)) / 8)
		}
	}
	bs := make([]G, n)
	for i := range bs {
		bs[i] = G(as[i])
	}
	delta := []float64{0, 0.125, 0.25, 1, 1e-6, math.Inf(1)}[t.R.Intn(6)]
	for k := t.R.Intn(3); k > 0; k-- { // a few differences
		i := t.R.Intn(n)
		switch t.R.Intn(5) {
		case 0:
			bs[i] = G(oddFloat(t))
		case 1:
			bs[i] += G(delta)
		case 2:
			bs[i] -= G(delta)
		case 3:
			bs[i] += G(0.125)
		case 4:
			bs[i] = -bs[i]
		}
	}
	rb, cb := r, c
	if t.R.P(0.15) {
		rb, cb = c, r
	}
	if t.R.P(0.1) {
		rb++
		bs = append(bs, make([]G, cb)...)
	}
	a := mat.NewDense[F](mat.WithShape(r, c), mat.WithBacking(as))
	b := mat.NewDense[G](mat.WithShape(rb, cb), mat.WithBacking(bs))
	shape := r == rb && c == cb
	length := n == rb*cb
	equal, near := true, true
	for i := 0; length && i < n; i++ {
		x, y := as[i], F(bs[i])
		if x != x && y != y {
			return // whether NaN is near NaN is not specified
		}
		equal = equal && x == y
		near = near && (x == y || math.Abs(float64(x)-float64(y)) <= delta)
		if d := math.Abs(float64(x) - float64(y)); x != y && math.Abs(d-delta) <= 1e-5*(math.Abs(float64(x))+math.Abs(float64(y))) && (d != delta || math.Abs(float64(x)) > 1000) {
			return // rounding decides
		}
	}
	what := fmt.Sprintf("%s %d×%d %v and %s %d×%d %v, delta %v", df, r, c, as, dg, rb, cb, bs, delta)
	check := func(name string, got, want bool) {
		t.Check(got == want, "compare:"+name, "%s: %s is %v", what, name, got)
		t.Event(fmt.Sprintf("%s %v", name, want), 1)
	}
	check("SameDims", mat.SameDims(a, b), shape)
	check("Equal", mat.Equal(a, b), shape && equal)
	check("InDelta", mat.InDelta(a, b, delta), shape && near)
	check("Slice.Equals", a.Data().Equals(b.Data()), length && equal)
	check("Slice.InDelta", a.Data().InDelta(b.Data(), delta), length && near)
	check("IsVector", mat.IsVector(b), rb == 1 || cb == 1)
	check("IsScalar", mat.IsScalar(b), rb*cb == 1)
	f := &fakeT{}
	ok := mat.AssertMatrixEquals(f, a, b)
	check("AssertMatrixEquals", ok && f.errors == 0, shape && equal)
	t.Check(ok == (f.errors == 0) && f.fails == 0, "compare:AssertMatrixEquals", "%s: returns %v after %d errors", what, ok, f.errors)
	f = &fakeT{}
	ok = mat.AssertMatrixInDelta(f, a, b, delta, "message")
	check("AssertMatrixInDelta", ok && f.errors == 0, shape && near)
	t.Check(ok == (f.errors == 0) && f.fails == 0, "compare:AssertMatrixInDelta", "%s: returns %v after %d errors", what, ok, f.errors)
	f = &fakeT{}
	mat.RequireMatrixEquals(f, a, b)
	check("RequireMatrixEquals", f.errors == 0 && f.fails == 0, shape && equal)
	t.Check((f.errors > 0) == (f.fails > 0), "compare:RequireMatrixEquals", "%s: %d errors, %d failures", what, f.errors, f.fails)
	f = &fakeT{}
	mat.RequireMatrixInDelta(f, a, b, delta)
	check("RequireMatrixInDelta", f.errors == 0 && f.fails == 0, shape && near)
	t.Check((f.errors > 0) == (f.fails > 0), "compare:RequireMatrixInDelta", "%s: %d errors, %d failures", what, f.errors, f.fails)
	for _, other := range []struct{ x, y mat.Matrix }{{nil, a}, {a, nil}, {nil, nil}} {
		f = &fakeT{}
		var x, y mat.Tensor
		if other.x != nil {
			x = other.x
		}
		if other.y != nil {
			y = other.y
		}
		t.Check(!mat.AssertMatrixEquals(f, x, y) && f.errors == 1 && !mat.AssertMatrixInDelta(f, other.x, other.y, 1e9) && f.errors == 2, "compare:nil", "a comparison with nil succeeds")
	}
	t.Checked(1)
	t.Seen(df, dg, r, c, rb, cb, as[0], bs[0], equal, near)
}

// scalarFuncs are the functions of scalars of the package, by definition.
func scalarCase[F float.DType](t *T, dt dtype) {
	x, y := F(oddFloat(t)), F(oddFloat(t))
	if t.R.Bool() {
		x, y = F(t.R.Uni(-8, 8)), F(t.R.Uni(-4, 4))
	}
	fx, fy := float64(x), float64(y)
	check := func(name string, got F, want float64) {
		g, w := float64(got), float64(F(want))
		ok := sameBits(g, w)
		if !ok && !math.IsInf(w, 0) && !math.IsInf(g, 0) && w == w && g == g { // or nearly so
			ulp := math.Ldexp(1, -22)
			tiny := 3 * float64(math.SmallestNonzeroFloat32)
			if dt == f64 {
				ulp, tiny = math.Ldexp(1, -50), 3*math.SmallestNonzeroFloat64
			}
			ok = math.Abs(g-w) <= ulp*math.Abs(w)+tiny
		}
		t.Check(ok, "scalar:"+name, "%s of %s (%v, %v) is %v, not %v", name, dt, x, y, got, F(want))
		t.Event("scalar functions", 1)
	}
	check("Pow", mat.Pow(x, y), math.Pow(fx, fy))
	check("Cos", mat.Cos(x), math.Cos(fx))
	check("Sin", mat.Sin(x), math.Sin(fx))
	check("Cosh", mat.Cosh(x), math.Cosh(fx))
	check("Sinh", mat.Sinh(x), math.Sinh(fx))
	check("Exp", mat.Exp(x), math.Exp(fx))
	check("Abs", mat.Abs(x), math.Abs(fx))
	check("Sqrt", mat.Sqrt(x), math.Sqrt(fx))
	check("Log", mat.Log(x), math.Log(fx))
	check("Tan", mat.Tan(x), math.Tan(fx))
	check("Tanh", mat.Tanh(x), math.Tanh(fx))
	check("Max", mat.Max(x, y), math.Max(fx, fy))
	check("Ceil", mat.Ceil(x), math.Ceil(fx))
	check("Floor", mat.Floor(x), math.Floor(fx))
	check("Round", mat.Round(x), math.Round(fx))
	check("NaN", mat.NaN[F](), math.NaN())
	check("Pi", mat.Pi[F](), math.Pi)
	s := t.R.Range(-2, 2)
	check("Inf", mat.Inf[F](s), math.Inf(s))
	t.Check(mat.IsInf(x, s) == math.IsInf(fx, s), "scalar:IsInf", "IsInf(%v, %d) is %v", x, s, mat.IsInf(x, s))
	tiny := mat.SmallestNonzero[F]()
	t.Check(tiny > 0 && tiny/2 == 0, "scalar:SmallestNonzero", "SmallestNonzero is %v", tiny)
	t.Checked(1)
	t.Seen(dt, x, y)
}

func init() {
	register(&Property{
		ID: "P27", Boost: 8, Rule: "values converted, compared, printed and parsed back through every public path equal the values put in, bit for bit or correctly rounded, over ordinary, extreme, subnormal, infinite and NaN elements",
		Level: "real code under monitors",
		Phases: []Phase{
			{Name: "print", Shards: 4, Run: func(c *C) {
				for i := 0; i < c.N(80000, 1500000); i++ {
					c.Case(fmt.Sprintf("f32/%d", i), func(t *T) { printCase[float32](t, f32) })
					c.Case(fmt.Sprintf("f64/%d", i), func(t *T) { printCase[float64](t, f64) })
				}
				for i := 0; i < c.N(10000, 500000); i++ {
					c.Case(fmt.Sprintf("string/f32/%d", i), func(t *T) { stringCase[float32](t, f32) })
					c.Case(fmt.Sprintf("string/f64/%d", i), func(t *T) { stringCase[float64](t, f64) })
				}
			}, MinEvents: map[string]int64{"printed matrices": 40000, "strings": 10000}},
			{Name: "convert", Shards: 4, Run: func(c *C) {
				for i := 0; i < c.N(10000, 500000); i++ {
					c.Case(fmt.Sprintf("32-32/%d", i), func(t *T) { convertCase[float32, float32](t, f32, f32) })
					c.Case(fmt.Sprintf("32-64/%d", i), func(t *T) { convertCase[float32, float64](t, f32, f64) })
					c.Case(fmt.Sprintf("64-32/%d", i), func(t *T) { convertCase[float64, float32](t, f64, f32) })
					c.Case(fmt.Sprintf("64-64/%d", i), func(t *T) { convertCase[float64, float64](t, f64, f64) })
				}
				for i := 0; i < c.N(20000, 2000000); i++ {
					c.Case(fmt.Sprintf("scalar/f32/%d", i), func(t *T) { scalarCase[float32](t, f32) })
					c.Case(fmt.Sprintf("scalar/f64/%d", i), func(t *T) { scalarCase[float64](t, f64) })
				}
			}, MinEvents: map[string]int64{"conversions": 100000, "scalar functions": 100000}},
			{Name: "compare", Shards: 4, Run: func(c *C) {
				for i := 0; i < c.N(20000, 1000000); i++ {
					c.Case(fmt.Sprintf("32-32/%d", i), func(t *T) { compareCase[float32, float32](t, f32, f32) })
					c.Case(fmt.Sprintf("32-64/%d", i), func(t *T) { compareCase[float32, float64](t, f32, f64) })
					c.Case(fmt.Sprintf("64-32/%d", i), func(t *T) { compareCase[float64, float32](t, f64, f32) })
					c.Case(fmt.Sprintf("64-64/%d", i), func(t *T) { compareCase[float64, float64](t, f64, f64) })
				}
			}, MinEvents: map[string]int64{"Equal true": 5000, "Equal false": 5000, "InDelta true": 5000, "InDelta false": 5000}},
		},
	})
}

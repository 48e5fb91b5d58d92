package main

import (
	"bytes"
	"encoding"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"math"
	"runtime"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
)

// bitsOf lists the elements as bit patterns.
func bitsOf(x mat.Tensor) []uint64 {
	switch d := x.(type) {
	case *mat.Dense[float32]:
		v := d.Data().F32()
		o := make([]uint64, len(v))
		for i := range v {
			o[i] = uint64(math.Float32bits(v[i]))
		}
		return o
	case *mat.Dense[float64]:
		v := d.Data().F64()
		o := make([]uint64, len(v))
		for i := range v {
			o[i] = math.Float64bits(v[i])
		}
		return o
	}
	panic(fmt.Sprintf("unexpected type %T", x))
}

// rawMat builds a matrix of arbitrary bit patterns.
func rawMat(r *Rng, dt dtype, rows, cols int, grad bool) mat.Matrix {
	n := rows * cols
	plain := r.P(0.4)
	if dt == f32 {
		v := make([]float32, n)
		for i := range v {
			switch {
			case plain:
				v[i] = float32(r.Norm())
			case r.P(0.3):
				v[i] = float32(specials[r.Intn(len(specials))])
			default:
				v[i] = math.Float32frombits(uint32(r.U64()))
			}
		}
		return mat.NewDense[float32](mat.WithShape(rows, cols), mat.WithBacking(v), mat.WithGrad(grad))
	}
	v := make([]float64, n)
	for i := range v {
		switch {
		case plain:
			v[i] = r.Norm()
		case r.P(0.3):
			v[i] = specials[r.Intn(len(specials))]
		default:
			v[i] = math.Float64frombits(r.U64())
		}
	}
	return mat.NewDense[float64](mat.WithShape(rows, cols), mat.WithBacking(v), mat.WithGrad(grad))
}

func serialShape(r *Rng) (int, int) {
	switch r.Intn(8) {
	case 0:
		return 0, r.Intn(4)
	case 1:
		return r.Intn(4), 0
	case 2:
		return 1, 1
	case 3:
		return 1, r.Range(1, 40)
	case 4:
		return r.Range(1, 40), 1
	case 5:
		return r.Range(1, 70), r.Range(1, 70)
	default:
		return r.Range(1, 9), r.Range(1, 9)
	}
}

// diffMat compares two matrices field by field and bit by bit.
func diffMat(got mat.Tensor, want mat.Tensor) string {
	if fmt.Sprintf("%T", got) != fmt.Sprintf("%T", want) {
		return fmt.Sprintf("type %T, want %T", got, want)
	}
	gs, ws := got.Shape(), want.Shape()
	if len(gs) != 2 || gs[0] != ws[0] || gs[1] != ws[1] {
		return fmt.Sprintf("shape %v, want %v", gs, ws)
	}
	if got.RequiresGrad() != want.RequiresGrad() {
		return fmt.Sprintf("requires gradient: %v, want %v", got.RequiresGrad(), want.RequiresGrad())
	}
	gb, wb := bitsOf(got), bitsOf(want)
	if len(gb) != len(wb) {
		return fmt.Sprintf("%d elements, want %d", len(gb), len(wb))
	}
	for i := range gb {
		if gb[i] != wb[i] {
			return fmt.Sprintf("element %d has bits %x, want %x", i, gb[i], wb[i])
		}
	}
	return ""
}

func emptyOf(dt dtype) mat.Matrix {
	if dt == f32 {
		return new(mat.Dense[float32])
	}
	return new(mat.Dense[float64])
}

func marshal(m mat.Tensor) ([]byte, error) { return m.(encoding.BinaryMarshaler).MarshalBinary() }
func unmarshal(m mat.Tensor, b []byte) error {
	return m.(encoding.BinaryUnmarshaler).UnmarshalBinary(b)
}

// serialUse: the decoded matrix is as good as the original in computations.
func serialUse(m mat.Matrix) {
	_ = m.T()
	_ = m.AddScalar(1).Add(m)
	_ = m.Clone().Flatten()
	m.Reshape(m.Shape()...)
}

func roundTripCase(t *T, dt dtype) {
	r, c := serialShape(t.R)
	if t.R.P(0.004) { // dimensions beyond 16 bits
		r, c = t.R.Range(32000, 140000), t.R.Pick(1, 1, 2, 0)
		if t.R.Bool() {
			r, c = c, r
		}
		t.Event("long_dimensions", 1)
	}
	x := rawMat(t.R, dt, r, c, t.R.Bool())
	ref := x.Clone()
	ref.SetRequiresGrad(x.RequiresGrad())
	if t.R.P(0.3) && x.Size() > 0 { // a gradient is not part of the serialised matrix
		x.AccGrad(rawMat(t.R, dt, r, c, false))
	}
	desc := fmt.Sprintf("%s %d×%d", dt, r, c)
	b, err := marshal(x)
	if !t.Check(err == nil, "roundtrip:encode", "%s: %v", desc, err) {
		return
	}
	t.Check(diffMat(x, ref) == "", "roundtrip:encode", "%s: encoding changed the matrix: %s", desc, diffMat(x, ref))
	b2, _ := marshal(x)
	t.Check(bytes.Equal(b, b2), "roundtrip:encode", "%s: two encodings differ", desc)
	orr, occ := serialShape(t.R)
	if other, err := marshal(rawMat(t.R, dt, orr, occ, t.R.Bool())); err == nil {
		t.Check(bytes.Equal(b, b2) && len(other) > 0, "roundtrip:alias", "%s: the encoded bytes changed when another matrix was encoded", desc)
	}
	// scribbling on the source does not change the encoded bytes
	keep := append([]byte(nil), b...)
	if x.Size() > 0 {
		y := x.Clone()
		scribble(t.R, x, 3)
		t.Check(bytes.Equal(b, keep), "roundtrip:alias", "%s: the encoded bytes changed with the matrix", desc)
		x = y
	}
	// at any alignment, into a fresh or a used matrix
	pad := t.R.Intn(9)
	buf := append(make([]byte, pad), b...)[pad:]
	got := emptyOf(dt)
	if t.R.Bool() {
		got = rawMat(t.R, dt, t.R.Range(1, 5), t.R.Range(1, 5), t.R.Bool())
	}
	err = unmarshal(got, buf)
	if !t.Check(err == nil, "roundtrip:decode", "%s: %v", desc, err) {
		return
	}
	d := diffMat(got, ref)
	if !t.Check(d == "", "roundtrip:decode", "%s: %s", desc, d) {
		return
	}
	for i := range buf {
		buf[i] ^= 0xff
	}
	d = diffMat(got, ref)
	if !t.Check(d == "", "roundtrip:alias", "%s: the decoded matrix changed when the bytes were overwritten: %s", desc, d) {
		return
	}
	copy(buf, keep)
	serialUse(got)
	if got.Size() > 0 {
		scribble(t.R, got, 9)
	}
	t.Check(bytes.Equal(buf, keep), "roundtrip:alias", "%s: the bytes changed when the decoded matrix was overwritten", desc)
	// the other float type
	od := f32
	if dt == f32 {
		od = f64
	}
	t.Check(unmarshal(emptyOf(od), keep) != nil, "roundtrip:type", "%s: accepted by a matrix of the other type", desc)
	t.Event("roundtrips", 1)
	t.Seen("direct", dt, r, c, ref.RequiresGrad(), pad)
}

type serialBox struct {
	Name string
	M    mat.Matrix
	L    []mat.Matrix
	T    mat.Tensor
	P    map[string]mat.Matrix
	D    *mat.Dense[float32]
	E    *mat.Dense[float64]
	End  int
}

func streamCase(t *T) {
	mk := func() mat.Matrix {
		dt := f32
		if t.R.Bool() {
			dt = f64
		}
		r, c := serialShape(t.R)
		return rawMat(t.R, dt, r, c, t.R.Bool())
	}
	var items []serialBox
	n := t.R.Range(1, 6)
	for i := 0; i < n; i++ {
		b := serialBox{Name: fmt.Sprint("n", i), M: mk(), T: mk(), P: map[string]mat.Matrix{}, End: t.R.Intn(1000)}
		for k := t.R.Intn(4); k > 0; k-- {
			b.L = append(b.L, mk())
		}
		for k := t.R.Intn(4); k > 0; k-- {
			b.P[fmt.Sprint(k)] = mk()
		}
		r, c := serialShape(t.R)
		b.D = rawMat(t.R, f32, r, c, t.R.Bool()).(*mat.Dense[float32])
		b.E = rawMat(t.R, f64, r, c, t.R.Bool()).(*mat.Dense[float64])
		items = append(items, b)
	}
	var out []serialBox
	how := []string{"one", "many", "dump"}[t.R.Intn(3)]
	var buf bytes.Buffer
	var err error
	switch how {
	case "one":
		if err = gob.NewEncoder(&buf).Encode(items); err == nil {
			err = gob.NewDecoder(&buf).Decode(&out)
		}
	case "many":
		e := gob.NewEncoder(&buf)
		for _, b := range items {
			if err == nil {
				err = e.Encode(b)
			}
		}
		d := gob.NewDecoder(&buf)
		for range items {
			var b serialBox
			if err == nil {
				err = d.Decode(&b)
			}
			out = append(out, b)
		}
	default:
		if err = nn.Dump(items, &buf); err == nil {
			out, err = nn.Load[[]serialBox](&buf)
		}
	}
	if !t.Check(err == nil && len(out) == len(items), "stream", "%s: %v (%d of %d)", how, err, len(out), len(items)) {
		return
	}
	cmp := func(what string, a, b mat.Tensor) {
		d := diffMat(a, b)
		t.Check(d == "", "stream", "%s: %s: %s", how, what, d)
	}
	for i, w := range items {
		g := out[i]
		cmp("M", g.M, w.M)
		cmp("T", g.T, w.T)
		cmp("D", g.D, w.D)
		cmp("E", g.E, w.E)
		t.Check(len(g.L) == len(w.L) && len(g.P) == len(w.P) && g.Name == w.Name && g.End == w.End, "stream", "%s: other fields differ", how)
		for k := range w.L {
			if k < len(g.L) {
				cmp("L", g.L[k], w.L[k])
			}
		}
		for k := range w.P {
			if g.P[k] == nil {
				t.Fail("stream", "P[%s] missing", k)
				continue
			}
			cmp("P", g.P[k], w.P[k])
		}
		// the decoded matrices are separate from one another
		before := bitsOf(g.E)
		if g.D.Size() > 0 {
			scribble(t.R, g.D, 1)
		}
		if g.M.Size() > 0 {
			scribble(t.R, g.M, 1)
		}
		after := bitsOf(g.E)
		for k := range before {
			t.Check(before[k] == after[k], "stream", "matrices of one stream share memory")
		}
	}
	t.Event("roundtrips", 4*n)
	t.Seen("stream", how, n, len(items[0].L), len(items[0].P))
}

// wellFormed examines a matrix that was the target of a decoding.
func wellFormed(t *T, m mat.Matrix, what func() string) bool {
	s := m.Shape()
	n := len(bitsOf(m))
	if len(s) == 0 && n == 0 {
		return true // the zero value
	}
	if !t.Check(len(s) == 2 && s[0] >= 0 && s[1] >= 0 && s[0]*s[1] == n && m.Size() == n, "corrupt:ill-formed", "%s\nyields a matrix of shape %v with %d elements", what(), s, n) {
		return false
	}
	if p := panics(func() { serialUse(m); _ = m.Sum() }); p != nil {
		t.Fail("corrupt:ill-formed", "%s\nyields a matrix that cannot be used: %v", what(), p)
		return false
	}
	return true
}

// corruptCase decodes damaged encodings that end where an inaccessible page
// begins. A fault ends the process, which the parent reports.
func corruptCase(t *T, dt dtype, reg *region, n int) {
	r, c := t.R.Range(0, 6), t.R.Range(0, 6)
	if t.R.P(0.1) {
		r, c = t.R.Range(1, 20), t.R.Range(1, 20)
	}
	enc, err := marshal(rawMat(t.R, dt, r, c, t.R.Bool()))
	if err != nil {
		t.Fail("corrupt:encode", "%v", err)
		return
	}
	words := []uint32{0, 1, 2, 4, 6, 8, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xfffffff0, uint32(len(enc)), uint32(len(enc)) + 1, uint32(len(enc)) - 4, 0x10000, 0x40000000, 0x20000001}
	try := func(kind string, b []byte) bool {
		var in []byte
		if t.R.P(0.8) {
			in = reg.place(len(b), "end", 0)
			in = in[:len(b):len(b)]
		} else {
			in = reg.place(len(b), "start", 0) // accessible memory behind, of other contents
			in = in[: len(b) : len(reg.data)-1]
		}
		copy(in, b)
		target := emptyOf(dt)
		if t.R.P(0.3) {
			target = rawMat(t.R, dt, 2, 3, true)
		}
		what := func() string {
			return fmt.Sprintf("%s %d×%d, %s: bytes %x", dt, r, c, kind, b)
		}
		var ms0, ms1 runtime.MemStats
		big := t.R.P(0.02)
		if big {
			runtime.ReadMemStats(&ms0)
		}
		var err error
		p := panics(func() { err = unmarshal(target, in) })
		if !t.Check(p == nil, "corrupt:panic", "%s\ndecoding panics: %v", what(), p) {
			return false
		}
		if big {
			runtime.ReadMemStats(&ms1)
			if !t.Check(ms1.TotalAlloc-ms0.TotalAlloc < 1<<20, "corrupt:allocation", "%s\ndecoding allocates %d bytes", what(), ms1.TotalAlloc-ms0.TotalAlloc) {
				return false
			}
		}
		if err != nil {
			t.Event("rejected", 1)
		} else {
			t.Event("accepted", 1)
			// nothing beyond the input shows up in the matrix
			before := bitsOf(target)
			if len(in) > 0 {
				for i := range in {
					in[i] ^= 0x5a
				}
			}
			for i := len(b); i < cap(in) && i < len(b)+64; i++ {
				in[:cap(in)][i] ^= 0x5a
			}
			after := bitsOf(target)
			for i := range before {
				if !t.Check(before[i] == after[i], "corrupt:alias", "%s\nthe matrix shares memory with the input", what()) {
					return false
				}
			}
			if len(before)*dt.bytes() > len(b) {
				t.Fail("corrupt:overread", "%s\n%d elements decoded from %d bytes", what(), len(before), len(b))
				return false
			}
		}
		t.Seen(kind, dt, r, c, err == nil, fmt.Sprintf("%x", hashBytes(b)))
		return wellFormed(t, target, what)
	}
	for k := 0; k <= len(enc); k++ { // every truncation
		if !try("truncated", enc[:k]) {
			return
		}
	}
	for i := 0; i < n; i++ {
		b := append([]byte(nil), enc...)
		kind := ""
		switch t.R.Intn(7) {
		case 0, 1:
			kind = "byte"
			b[t.R.Intn(len(b))] = byte(t.R.U64())
		case 2:
			kind = "bit"
			b[t.R.Intn(len(b))] ^= 1 << t.R.Intn(8)
		case 3:
			kind = "word"
			k := t.R.Intn(len(b) - 3)
			if t.R.Bool() {
				k &^= 3
			}
			binary.LittleEndian.PutUint32(b[k:], words[t.R.Intn(len(words))])
		case 4:
			kind = "words"
			for q := t.R.Range(2, 4); q > 0; q-- {
				k := t.R.Intn(len(b)-3) &^ 3
				binary.LittleEndian.PutUint32(b[k:], words[t.R.Intn(len(words))])
			}
		case 5:
			kind = "cut and damaged"
			b = b[:t.R.Range(1, len(b))]
			b[t.R.Intn(len(b))] = byte(t.R.U64())
		case 6:
			kind = "noise"
			b = make([]byte, t.R.Intn(80))
			for k := range b {
				if t.R.Bool() {
					b[k] = byte(t.R.Intn(12))
				} else {
					b[k] = byte(t.R.U64())
				}
			}
		}
		if !try(kind, b) {
			return
		}
	}
	// every byte of the header set to each of a few values
	head := len(enc) - r*c*dt.bytes()
	for k := 0; k < head; k++ {
		for _, x := range []byte{0, 1, 0x7f, 0x80, 0xff, enc[k] + 1, enc[k] - 1} {
			b := append([]byte(nil), enc...)
			b[k] = x
			if !try("header", b) {
				return
			}
		}
	}
}

// truncatedStream: an incomplete gob stream is always an error.
func truncatedStream(t *T, dt dtype) {
	r, c := t.R.Range(1, 5), t.R.Range(1, 5)
	x := rawMat(t.R, dt, r, c, t.R.Bool())
	var buf bytes.Buffer
	if err := nn.Dump([]mat.Matrix{x, x}, &buf); err != nil {
		t.Fail("stream:truncated", "%v", err)
		return
	}
	all := buf.Bytes()
	for k := 0; k < len(all); k++ {
		var err error
		p := panics(func() { _, err = nn.Load[[]mat.Matrix](bytes.NewReader(all[:k])) })
		if !t.Check(p == nil && err != nil, "stream:truncated", "%s %d×%d: %d of %d bytes of the stream: panic %v, error %v", dt, r, c, k, len(all), p, err) {
			return
		}
		t.Event("rejected", 1)
	}
	// the bytes of the matrix damaged inside of the stream
	enc, _ := marshal(x)
	at := bytes.Index(all, enc)
	if !t.Check(at >= 0, "stream:truncated", "the encoded matrix is not in the stream") {
		return
	}
	for i := 0; i < 60; i++ {
		b := append([]byte(nil), all...)
		k := at + t.R.Intn(len(enc))
		b[k] = byte(t.R.U64())
		var err error
		var out []mat.Matrix
		p := panics(func() { out, err = nn.Load[[]mat.Matrix](bytes.NewReader(b)) })
		if !t.Check(p == nil, "corrupt:panic", "%s %d×%d: byte %d of the matrix in a stream set to %d: panics: %v", dt, r, c, k-at, b[k], p) {
			return
		}
		if err == nil {
			t.Event("accepted", 1)
			for _, m := range out {
				if !wellFormed(t, m, func() string { return fmt.Sprintf("stream, byte %d set to %d", k-at, b[k]) }) {
					return
				}
			}
			t.Check(len(out) == 2 && diffMat(out[1], x) == "", "stream:spill", "damage to one matrix changes the next")
		} else {
			t.Event("rejected", 1)
		}
	}
	t.Seen("gob", dt, r, c)
}

func (dt dtype) bytes() int {
	if dt == f32 {
		return 4
	}
	return 8
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h = (h ^ uint64(x)) * 1099511628211
	}
	return h
}

func init() {
	dts := []dtype{f32, f64}
	register(&Property{ID: "P11", Rule: "a matrix decoded from its encoding has the same type, shape, gradient requirement and bits, and memory of its own; damaged bytes give an error or a well-formed matrix, with no panic and no access outside the input", Level: "exploration", Phases: []Phase{
		{Name: "roundtrip", Variant: "plain", Shards: 4, MinEvents: map[string]int64{"roundtrips": 5000}, Run: func(c *C) {
			for _, dt := range dts {
				for b := 0; b < c.N(16, 200); b++ {
					c.Case(fmt.Sprintf("direct/%s/%d", dt, b), func(t *T) {
						for i := 0; i < c.N(200, 1000) && !t.Failed(); i++ {
							roundTripCase(t, dt)
						}
					})
				}
			}
			for b := 0; b < c.N(16, 200); b++ {
				c.Case(fmt.Sprintf("stream/%d", b), func(t *T) {
					for i := 0; i < c.N(15, 60) && !t.Failed(); i++ {
						streamCase(t)
					}
				})
			}
		}},
		{Name: "roundtrip-checkptr", Variant: "race", Shards: 2, MinEvents: map[string]int64{"roundtrips": 200}, Run: func(c *C) {
			for _, dt := range dts {
				for b := 0; b < c.N(4, 40); b++ {
					c.Case(fmt.Sprintf("direct/%s/%d", dt, b), func(t *T) {
						for i := 0; i < c.N(100, 500) && !t.Failed(); i++ {
							roundTripCase(t, dt)
						}
					})
				}
			}
		}},
		{Name: "corrupt", Variant: "plain", Shards: 8, MinEvents: map[string]int64{"rejected": 10000, "accepted": 1000}, Run: func(c *C) {
			reg := newRegion(1 << 15)
			for _, dt := range dts {
				for b := 0; b < c.N(24, 240); b++ {
					c.Case(fmt.Sprintf("bytes/%s/%d", dt, b), func(t *T) {
						for i := 0; i < c.N(3, 12) && !t.Failed(); i++ {
							corruptCase(t, dt, reg, c.N(1000, 6000))
						}
					})
				}
				for b := 0; b < c.N(8, 60); b++ {
					c.Case(fmt.Sprintf("gob/%s/%d", dt, b), func(t *T) { truncatedStream(t, dt) })
				}
			}
		}},
	}})
}

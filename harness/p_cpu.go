package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/nlpodyssey/spago/mat"
)

// bitExact lists the operations whose result does not depend on the order in
// which anything is computed, so that every code path must agree to the bit.
// Structural operations are exact as well.
var bitExact = map[string]bool{"Add": true, "AddInPlace": true, "Sub": true, "SubInPlace": true, "Prod": true, "ProdInPlace": true,
	"Div": true, "DivInPlace": true, "Maximum": true, "Minimum": true, "AddScalar": true, "AddScalarInPlace": true, "SubScalar": true,
	"SubScalarInPlace": true, "ProdScalar": true, "ProdScalarInPlace": true, "ProdMatrixScalarInPlace": true, "Abs": true, "Sqrt": true,
	"Clip": true, "Max": true, "Min": true, "ArgMax": true, "Apply": true, "ApplyInPlace": true, "ApplyWithAlpha": true, "ApplyWithAlphaInPlace": true}

// elementWise operations compute every element from the elements at the same
// position.
var elementWise = map[string]bool{"Add": true, "AddInPlace": true, "Sub": true, "SubInPlace": true, "Prod": true, "ProdInPlace": true,
	"Div": true, "DivInPlace": true, "Maximum": true, "Minimum": true, "AddScalar": true, "AddScalarInPlace": true, "SubScalar": true,
	"SubScalarInPlace": true, "ProdScalar": true, "ProdScalarInPlace": true, "ProdMatrixScalarInPlace": true, "Abs": true, "Sqrt": true,
	"Clip": true, "Log": true, "LogZeros": true, "Exp": true, "Exp1": true, "Sigmoid": true, "Sigmoid1": true, "Pow": true}

var structNames = func() map[string]bool {
	m := map[string]bool{}
	for _, op := range structOps {
		m[op.name] = true
	}
	return m
}()

type cpuCase struct {
	name string
	op   matOp
	dt   dtype
	mode string
}

func cpuCases() []cpuCase {
	var cs []cpuCase
	for _, op := range append(append([]matOp{}, matOps...), structOps...) {
		for _, dt := range []dtype{f32, f64} {
			for _, mode := range []string{"exact", "real", "special"} {
				if mode == "special" && (op.name == "Softmax" || op.name == "Normalize2" || op.name == "Norm") {
					mode = "real" // reductions of infinities are undefined
				}
				cs = append(cs, cpuCase{fmt.Sprintf("%s/%s/%s/%d", op.name, dt, mode, len(cs)), op, dt, mode})
			}
		}
	}
	return cs
}

// inst draws the i-th instance of a case: the same in every process.
func (k cpuCase) inst(c *C, i int) (*matInst, *matGen) {
	g := &matGen{r: NewRng(hash64(c.Seed, "cpu", k.name, i)), exact: k.mode == "exact", special: k.mode == "special", big: i%8 == 0}
	in := k.op.gen(g)
	for j := range in.xs {
		in.xs[j] = k.dt.quantM(in.xs[j])
	}
	return in, g
}

func (k cpuCase) run(in *matInst) (out []*M) {
	ms := make([]mat.Matrix, len(in.xs))
	for j, x := range in.xs {
		ms[j] = k.dt.mk(x, false)
	}
	if e := panics(func() {
		for _, r := range in.run(ms) {
			out = append(out, toM(r))
		}
	}); e != nil {
		return []*M{mOf(1, 1, math.Float64frombits(0x7ff8dead00000000|uint64(len(fmt.Sprint(e)))))}
	}
	return out
}

func cpuN(c *C) int { return c.N(60, 900) }

// recordPhase writes the results of the workload to $SPAGOVERIF_RECORD.
func recordPhase(c *C) {
	path := os.Getenv("SPAGOVERIF_RECORD")
	var w *bufio.Writer
	if path != "" {
		f, err := os.Create(path)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		w = bufio.NewWriterSize(f, 1<<20)
		defer w.Flush()
	}
	for _, k := range cpuCases() {
		c.Case(k.name, func(t *T) {
			if w == nil {
				return
			}
			for i := 0; i < cpuN(c); i++ {
				in, _ := k.inst(c, i)
				writeMs(w, k.name, k.run(in))
			}
		})
	}
}

func writeMs(w io.Writer, name string, ms []*M) {
	put := func(x uint64) { var b [8]byte; binary.LittleEndian.PutUint64(b[:], x); w.Write(b[:]) }
	put(uint64(len(name)))
	io.WriteString(w, name)
	put(uint64(len(ms)))
	for _, m := range ms {
		put(uint64(m.r))
		put(uint64(m.c))
		for _, x := range m.v {
			put(math.Float64bits(x))
		}
	}
}

func readMs(r io.Reader) (string, []*M, bool) {
	get := func() (uint64, bool) {
		var b [8]byte
		_, err := io.ReadFull(r, b[:])
		return binary.LittleEndian.Uint64(b[:]), err == nil
	}
	n, ok := get()
	if !ok {
		return "", nil, false
	}
	b := make([]byte, n)
	io.ReadFull(r, b)
	k, _ := get()
	ms := make([]*M, k)
	for i := range ms {
		rr, _ := get()
		cc, _ := get()
		m := newM(int(rr), int(cc))
		for j := range m.v {
			x, _ := get()
			m.v[j] = math.Float64frombits(x)
		}
		ms[i] = m
	}
	return string(b), ms, true
}

// sameResult compares the results of two code paths. It returns "" when they
// agree as far as they must.
func sameResult(in *matInst, g *matGen, op string, dt dtype, a, b *M, mag *M) string {
	if a.r != b.r || a.c != b.c {
		return fmt.Sprintf("shape %d×%d against %d×%d", a.r, a.c, b.r, b.c)
	}
	exact := bitExact[op] || structNames[op] || (g.exact && in.tol == 0 && !g.real && op != "Norm" && op != "Normalize2" && op != "Pow" && op != "Softmax")
	for i := range a.v {
		x, y := a.v[i], b.v[i]
		if math.Float64bits(x) == math.Float64bits(y) || (math.IsNaN(x) && math.IsNaN(y)) {
			continue
		}
		if exact {
			if x == y && !bitExact[op] && !structNames[op] {
				continue // sums of zeros of different signs
			}
			return fmt.Sprintf("element %d: %v against %v", i, x, y)
		}
		if x == y {
			continue
		}
		if math.IsNaN(x) != math.IsNaN(y) || math.IsInf(x, 0) != math.IsInf(y, 0) || math.IsInf(x, 0) {
			return fmt.Sprintf("element %d: %v against %v", i, x, y)
		}
		m := math.Max(math.Abs(x), math.Abs(y))
		if mag != nil && i < len(mag.v) && !math.IsNaN(mag.v[i]) && !math.IsInf(mag.v[i], 0) {
			m = math.Max(m, mag.v[i])
		}
		tol := 2*dt.eps()*float64(in.n+4)*m + 2*in.abs
		if dt == f32 {
			tol += 2*in.tol*m + 3e-44
		} else {
			tol += 1e-13 * m
		}
		if math.Abs(x-y) > tol {
			return fmt.Sprintf("element %d: %.12g against %.12g (allowed difference %.3g)", i, x, y, tol)
		}
	}
	return ""
}

// comparePhase replays the workload on the other code paths, in other
// processes, and compares the results.
func comparePhase(c *C) {
	dir, err := os.MkdirTemp("", "spagoverif-cpu-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	type path struct {
		name, bin string
		env       []string
	}
	paths := []path{{"SSE", self, sseEnv}, {"portable", filepath.Join(filepath.Dir(self), "purego"), nil}}
	recorded := map[string]map[string][][]*M{}
	for _, p := range paths {
		file := filepath.Join(dir, p.name)
		cmd := exec.Command(p.bin, "-child", "-prop", c.Prop, "-phase", "record", "-tier", c.Tier, "-seed", fmt.Sprint(c.Seed),
			"-shard", fmt.Sprint(c.Shard), "-shards", fmt.Sprint(c.Shards), "-only", c.Only, "-out", file+".out")
		cmd.Env = append(append(os.Environ(), "SPAGOVERIF_RECORD="+file), p.env...)
		if b, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "%s: %v\n%s", p.name, err, b)
			os.Exit(3)
		}
		f, err := os.Open(file)
		if err != nil {
			panic(err)
		}
		rec := map[string][][]*M{}
		r := bufio.NewReaderSize(f, 1<<20)
		for {
			name, ms, ok := readMs(r)
			if !ok {
				break
			}
			rec[name] = append(rec[name], ms)
		}
		f.Close()
		os.Remove(file)
		recorded[p.name] = rec
		c.Event("recorded_cases_"+p.name, len(rec))
	}
	for _, k := range cpuCases() {
		c.Case(k.name, func(t *T) {
			for i := 0; i < cpuN(c) && !t.Failed(); i++ {
				in, g := k.inst(c, i)
				var mag []*M
				if in.mag != nil {
					mag = in.mag(in.xs)
				}
				own := k.run(in)
				for _, p := range paths {
					rec := recorded[p.name][k.name]
					if !t.Check(i < len(rec), "record", "no record of %s instance %d on the %s path", k.name, i, p.name) {
						return
					}
					other := rec[i]
					if !t.Check(len(own) == len(other), "path:"+k.op.name, "%d results against %d", len(own), len(other)) {
						return
					}
					for j := range own {
						var mg *M
						if mag != nil {
							mg = mag[j]
						}
						msg := sameResult(in, g, k.op.name, k.dt, own[j], other[j], mg)
						t.Check(msg == "", "path:"+k.op.name, "%s %s(%s)\nAVX against %s: %s", k.name, k.op.name, inputDesc(in, []dtype{k.dt}), p.name, msg)
						t.Event("elements_compared", len(own[j].v))
					}
				}
				sh := ""
				for _, x := range in.xs {
					sh += fmt.Sprintf("%dx%d,", x.r, x.c)
				}
				t.Seen(k.name, in.desc, sh)
				t.Sample("%s(%s)", k.op.name, inputDesc(in, []dtype{k.dt}))
			}
		})
	}
}

// positionPhase checks that the result for an element depends neither on its
// position nor on the length of the vector.
func positionPhase(c *C) {
	for _, k := range cpuCases() {
		if !elementWise[strings.TrimSuffix(k.op.name, "")] {
			continue
		}
		c.Case("position/"+k.name, func(t *T) {
			for i := 0; i < c.N(120, 2000) && !t.Failed(); i++ {
				in, g := k.inst(c, i)
				whole := k.run(in)
				if len(whole) != 1 || len(whole[0].v) == 0 {
					continue
				}
				n := len(whole[0].v)
				for q := 0; q < 12 && !t.Failed(); q++ {
					at := t.R.Intn(n)
					from := t.R.Range(0, at)
					to := t.R.Range(at+1, n)
					if q < 4 {
						from, to = at, at+1
					}
					sub := &matInst{desc: in.desc, run: in.run, tol: in.tol, abs: in.abs, n: in.n}
					for _, x := range in.xs {
						sub.xs = append(sub.xs, col(x.v[from:to]...))
					}
					part := k.run(sub)
					if !t.Check(len(part) == 1 && len(part[0].v) == to-from, "position:"+k.op.name, "%s: shape of a part", k.op.name) {
						return
					}
					msg := sameResult(in, g, k.op.name, k.dt, mOf(1, 1, whole[0].v[at]), mOf(1, 1, part[0].v[at-from]), nil)
					t.Check(msg == "", "position:"+k.op.name, "%s(%s)\nposition %d of %d against position %d of %d: %s", k.op.name, inputDesc(in, []dtype{k.dt}), at, n, at-from, to-from, msg)
					t.Event("positions_compared", 1)
				}
				t.Seen("position", k.name, n, in.desc)
			}
		})
	}
}

func init() {
	cmp := map[string]int64{"elements_compared": 100000}
	pos := map[string]int64{"positions_compared": 10000}
	register(&Property{
		ID:    "P08",
		Boost: 5,
		Rule: "the same generated calls of every matrix method (integer, real and special-valued data) are executed by three processes, on the AVX, the SSE and the portable code path, and their results compared: bit by bit for data movement and correctly rounded operations, within the rounding bound otherwise; and each element-wise result is compared with that of the same element at other positions of vectors of other lengths; " +
			"distinct = method × type × data mode × parameters × shapes",
		Phases: []Phase{
			{Name: "compare", Shards: 6, Run: comparePhase, MinEvents: cmp},
			{Name: "record", Variant: "purego", Run: recordPhase},
			{Name: "position", Shards: 4, Run: positionPhase, MinEvents: pos},
			{Name: "position-sse", Env: sseEnv, Shards: 4, Run: positionPhase, MinEvents: pos},
			{Name: "position-portable", Variant: "purego", Shards: 4, Run: positionPhase, MinEvents: pos},
		},
	})
}

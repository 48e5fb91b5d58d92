package main

import (
	"fmt"
	"sort"
	"unsafe"

	"github.com/nlpodyssey/spago/mat"
)

// guarded places the elements of m in r and returns a matrix whose storage
// they are.
func guarded[T float32 | float64](r *region, m *M, where string, shift int) mat.Matrix {
	var z T
	b := r.place(len(m.v)*int(unsafe.Sizeof(z)), where, shift*int(unsafe.Sizeof(z)))
	v := sliceOf[T](b)
	for i, x := range m.v {
		v[i] = T(x)
	}
	return mat.NewDense[T](mat.WithShape(m.r, m.c), mat.WithBacking(v))
}

func guardedOps(name, variant string, env []string, quick, thorough int) Phase {
	return Phase{Name: name, Variant: variant, Env: env, Shards: 4, MinEvents: map[string]int64{"guarded_calls": 1000}, Run: func(c *C) {
		noGC()
		var regs []*region
		for len(regs) < 12 {
			regs = append(regs, newRegion(512<<10))
		}
		ops := append(append([]matOp{}, matOps...), structOps...)
		for _, op := range ops {
			for _, dt := range []dtype{f32, f64} {
				c.Case(fmt.Sprintf("%s/%s", op.name, dt), func(t *T) {
					for i := 0; i < c.N(quick, thorough) && !t.Failed(); i++ {
						guardedCall(t, op, dt, regs)
					}
					for _, r := range regs {
						r.protect(false)
					}
					tidy()
				})
			}
		}
	}}
}

func guardedCall(t *T, op matOp, dt dtype, regs []*region) {
	g := &matGen{r: t.R, exact: t.R.P(0.3), big: t.R.P(0.1)}
	in := op.gen(g)
	if len(in.xs) > len(regs) {
		return
	}
	ms := make([]mat.Matrix, len(in.xs))
	places := ""
	for i, m := range in.xs {
		if len(m.v)*8 > 512<<10 {
			return
		}
		w := []string{"end", "end", "start", "at"}[t.R.Intn(4)]
		sh := t.R.Range(0, 17)
		places += w
		if w == "at" {
			places += fmt.Sprint(sh)
		}
		places += " "
		if dt == f32 {
			ms[i] = guarded[float32](regs[i], m, w, sh)
		} else {
			ms[i] = guarded[float64](regs[i], m, w, sh)
		}
	}
	for i := range in.xs {
		if i > 0 || !in.inplace {
			regs[i].protect(true)
		}
	}
	desc := fmt.Sprintf("%s(%s) operands at %s", op.name, inputDesc(in, []dtype{dt}), places)
	t.Sample("%s", desc)
	addr, fault, other := faults(func() { in.run(ms) })
	if fault {
		w := ""
		for i := range ms {
			if s := regs[i].where(addr); s != "" {
				w += fmt.Sprintf("operand #%d: %s; ", i, s)
			}
		}
		t.Fail("fault:"+op.name, "%s\nmemory fault at %#x: %s", desc, addr, w)
	} else if other != nil {
		t.Fail("panic:"+op.name, "%s\n%v", desc, other)
	}
	for i := range ms {
		if off, ok := regs[i].intact(); !ok {
			t.Fail("canary:"+op.name, "%s\nbyte %d relative to operand #%d was overwritten", desc, off, i)
		}
		regs[i].protect(false)
	}
	t.Checked(1 + len(ms))
	t.Event("guarded_calls", 1)
	t.Event("guarded_operands", len(ms))
	sh := ""
	for _, x := range in.xs {
		sh += fmt.Sprintf("%dx%d,", x.r, x.c)
	}
	t.Seen(op.name, dt, sh, places)
}

// guardedMismatch: operands whose shapes do not fit together must be refused
// before any memory beyond them is touched.
func guardedMismatch(name, variant string, env []string, quick, thorough int) Phase {
	ops := map[string]func(a, b mat.Matrix){
		"Mul":                     func(a, b mat.Matrix) { a.Mul(b) },
		"MulT":                    func(a, b mat.Matrix) { a.MulT(b) },
		"DotUnitary":              func(a, b mat.Matrix) { a.DotUnitary(b) },
		"SetData":                 func(a, b mat.Matrix) { a.SetData(b.Data()) },
		"ProdMatrixScalarInPlace": func(a, b mat.Matrix) { a.ProdMatrixScalarInPlace(b, 2) },
		"AppendRows":              func(a, b mat.Matrix) { a.AppendRows(b) },
		"NewStack":                func(a, b mat.Matrix) { a.NewStack(a.Flatten(), b) },
		"AccGrad":                 func(a, b mat.Matrix) { a.AccGrad(b) },
		"AccGrad twice":           func(a, b mat.Matrix) { a.ZeroGrad(); a.AccGrad(a); a.AccGrad(b) },
		"SetRow-like":             func(a, b mat.Matrix) { a.Slice(0, 0, b.Shape()[0], b.Shape()[1]) },
	}
	for n, f := range sameShapeOps {
		ops[n] = f
	}
	var names []string
	for n := range ops {
		names = append(names, n)
	}
	sort.Strings(names)
	return Phase{Name: name, Variant: variant, Env: env, Shards: 2, MinEvents: map[string]int64{"mismatched_calls": 1000}, Run: func(c *C) {
		noGC()
		ra, rb := newRegion(64<<10), newRegion(64<<10)
		for _, n := range names {
			f := ops[n]
			for _, dt := range []dtype{f32, f64} {
				c.Case(fmt.Sprintf("%s/%s", n, dt), func(t *T) {
					for i := 0; i < c.N(quick, thorough) && !t.Failed(); i++ {
						r, cc := t.R.Range(1, 8), t.R.Range(1, 8)
						if t.R.P(0.2) {
							r, cc = t.R.Range(1, 3), t.R.Range(1, 90)
						}
						r2, c2 := r, cc
						for r2 == r && c2 == cc {
							switch t.R.Intn(4) {
							case 0:
								r2 = max(0, r+t.R.Range(-7, 3))
							case 1:
								c2 = max(0, cc+t.R.Range(-7, 3))
							case 2:
								r2, c2 = cc, r
							default:
								r2, c2 = t.R.Range(0, 8), t.R.Range(0, 8)
							}
							if r == 1 && cc == 1 && r2 == 1 && c2 == 1 {
								r2 = 0
							}
						}
						mk := func(reg *region, m *M) mat.Matrix {
							w := []string{"end", "end", "start"}[t.R.Intn(3)]
							if dt == f32 {
								return guarded[float32](reg, m, w, 0)
							}
							return guarded[float64](reg, m, w, 0)
						}
						a := mk(ra, t.randM(r, cc, -1, 1))
						b := mk(rb, t.randM(r2, c2, -1, 1))
						rb.protect(true)
						desc := fmt.Sprintf("%s of %d×%d with %d×%d (%s)", n, r, cc, r2, c2, dt)
						addr, fault, other := faults(func() { f(a, b) })
						t.Check(!fault, "fault:"+n, "%s\nmemory fault at %#x: %s %s", desc, addr, ra.where(addr), rb.where(addr))
						for k, reg := range []*region{ra, rb} {
							off, ok := reg.intact()
							t.Check(ok, "canary:"+n, "%s\nbyte %d relative to operand #%d was overwritten", desc, off, k)
						}
						rb.protect(false)
						if other != nil {
							t.Event("mismatched_refused", 1)
						}
						t.Event("mismatched_calls", 1)
						t.Seen("mismatch", n, dt, r, cc, r2, c2)
					}
					tidy()
				})
			}
		}
	}}
}

func init() {
	register(&Property{
		ID:    "P07",
		Boost: 5,
		Rule: "every operand lies flush against an unmapped page (at its end or its beginning) or at an odd offset between canaries, and is write-protected unless the operation is to modify it; each kernel is called for every length up to the bound, each public matrix method with generated shapes, on the AVX, SSE and portable code paths; " +
			"distinct = kernel or method × length/shape × placement of the operands",
		Phases: []Phase{
			{Name: "kernels", Shards: 4, Run: kernelPhase},
			{Name: "kernels-sse", Env: sseEnv, Shards: 4, Run: kernelPhase, ThoroughOnly: true},
			{Name: "kernels-portable", Variant: "purego", Shards: 4, Run: kernelPhase},
			guardedOps("methods", "plain", nil, 300, 5000),
			guardedOps("methods-sse", "plain", sseEnv, 200, 3000),
			guardedOps("methods-portable", "purego", nil, 100, 2000),
			guardedMismatch("mismatched", "plain", nil, 200, 5000),
			guardedMismatch("mismatched-sse", "plain", sseEnv, 100, 2000),
		},
	})
}

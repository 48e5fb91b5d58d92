package main

import (
	"fmt"

	"github.com/nlpodyssey/spago/mat"
)

func inputDesc(in *matInst, dts []dtype) string {
	s := in.desc
	for i, x := range in.xs {
		s += fmt.Sprintf(" %s:%v", dts[min(i, len(dts)-1)], x)
	}
	return s
}

// runMatOp applies op to generated operands and checks the results against
// the reference. The receiver decides the type; the other operands may have
// the other one.
func runMatOp(t *T, op matOp, dt dtype, exact, mixed, big bool) {
	g := &matGen{r: t.R, exact: exact, big: big}
	in := op.gen(g)
	in.inexact = g.real && op.name != "Abs"
	dts := make([]dtype, len(in.xs))
	ms := make([]mat.Matrix, len(in.xs))
	for i := range in.xs {
		dts[i] = dt
		if mixed && i > 0 && t.R.Bool() {
			if dt == f32 {
				dts[i] = f64
			} else {
				dts[i] = f32
			}
		}
		in.xs[i] = dts[i].quantM(in.xs[i])
		ms[i] = dts[i].mk(in.xs[i], false)
		if dts[i] == f64 && dt == f32 {
			in.xs[i] = f32.quantM(in.xs[i]) // converted to the receiver's type
		}
	}
	key := "value:" + op.name
	want := in.ref(in.xs)
	var mag []*M
	if in.mag != nil {
		mag = in.mag(in.xs)
	}
	t.Sample("%s %s", op.name, inputDesc(in, dts))
	res := in.run(ms)
	if !t.Check(len(res) == len(want), key, "%s: %d results, want %d", op.name, len(res), len(want)) {
		return
	}
	for i := range res {
		var mg *M
		if mag != nil {
			mg = mag[i]
		}
		msg := in.compare(dt, exact, toM(res[i]), want[i], mg)
		t.Check(msg == "", key, "%s(%s)\n%s\ngot %v\nwant %v", op.name, inputDesc(in, dts), msg, res[i], want[i])
		t.Check(dtypeOf(res[i]) == dt, key, "%s: result is %s, receiver %s", op.name, dtypeOf(res[i]), dt)
		t.Event("result_elements_compared", len(want[i].v))
	}
	if in.inplace {
		t.Check(res[0] == ms[0], key, "%s does not return the receiver", op.name)
	}
	sh := ""
	for _, x := range in.xs {
		sh += fmt.Sprintf("%dx%d,", x.r, x.c)
	}
	t.Seen(op.name, dt, exact, in.desc, sh)
}

func matPhase(name, variant string, env []string, ops func() []matOp, shards, quick, thorough int) Phase {
	return Phase{Name: name, Variant: variant, Env: env, Shards: shards, MinEvents: map[string]int64{"result_elements_compared": 10000}, Run: func(c *C) {
		n := c.N(quick, thorough)
		for _, op := range ops() {
			for _, dt := range []dtype{f32, f64} {
				for _, mode := range []string{"exact", "real", "mixed"} {
					for b := 0; b < c.N(1, 6); b++ {
						c.Case(fmt.Sprintf("%s/%s/%s/%d", op.name, dt, mode, b), func(t *T) {
							for i := 0; i < n && !t.Failed(); i++ {
								runMatOp(t, op, dt, mode == "exact", mode == "mixed", i%8 == 0)
							}
						})
					}
				}
			}
		}
	}}
}

var sseEnv = []string{"GODEBUG=cpu.avx=off,cpu.avx2=off,cpu.fma=off"}

func init() {
	arith := func() []matOp { return matOps }
	register(&Property{
		ID:    "P06",
		Boost: 3,
		Rule: "a case applies one arithmetic method of a matrix to generated operands (0 to 300 elements per side, sizes around SIMD widths favoured, float32/float64 receivers, operands of the same or the other type); integer-valued data must give exactly the reference result, real-valued data the reference within the rounding bound of the number of terms; " +
			"distinct = method × type × data mode × parameters × operand shapes",
		Phases: []Phase{
			matPhase("arithmetic", "plain", nil, arith, 6, 600, 4000),
			matPhase("arithmetic-sse", "plain", sseEnv, arith, 4, 200, 2000),
			matPhase("arithmetic-portable", "purego", nil, arith, 4, 200, 2000),
			{Name: "large-products", Shards: 4, Run: func(c *C) {
				for _, dt := range []dtype{f32, f64} {
					for b := 0; b < c.N(40, 600); b++ {
						exact := b%2 == 0
						c.Case(fmt.Sprintf("Mul/%s/%d", dt, b), func(t *T) { runMatOp(t, largeMul, dt, exact, false, true) })
					}
				}
			}},
		},
	})
	register(&Property{
		ID:     "P10",
		Boost:  20,
		Rule:   "a case applies one structural method (transpose, reshape, slice, extract, pad, split, concatenate, stack, get/set …) to generated matrices and compares shape and every element exactly with an index-by-index reference; distinct = method × type × parameters × shapes",
		Phases: append([]Phase{matPhase("structure", "plain", nil, func() []matOp { return structOps }, 6, 600, 6000)}, structPhases...),
	})
}

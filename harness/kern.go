//go:build kern

package main

import (
	"fmt"
	"math"
	"unsafe"

	"github.com/nlpodyssey/spago/mat/verifkern"
)

const haveKernels = true

func kernelPhase(c *C) {
	noGC()
	kernels(c, "f32", verifkern.K32)
	kernels(c, "f64", verifkern.K64)
}

func kernels[F float32 | float64](c *C, typ string, ks []verifkern.Kernel[F]) {
	var z F
	sz := int(unsafe.Sizeof(z))
	var regs []*region
	for i := 0; i < 3; i++ {
		regs = append(regs, newRegion(64<<10))
	}
	run := func(t *T2[F], m, n, inc int, wheres []string, shifts []int) {
		k := t.k
		sizes := []int{n, n, n}
		if k.Size != nil {
			sizes = k.Size(m, n, inc)
		}
		vs := make([][]F, len(k.Slices))
		for i := range k.Slices {
			b := regs[i].place(sizes[i]*sz, wheres[i], shifts[i]*sz)
			vs[i] = sliceOf[F](b)
			for j := range vs[i] {
				vs[i][j] = F(t.R.Uni(0.5, 2))
			}
		}
		for i, role := range k.Slices {
			if role == 'r' {
				regs[i].protect(true)
			}
		}
		cst := F(1.25)
		addr, fault, other := faults(func() { k.Call(cst, m, n, inc, vs) })
		desc := fmt.Sprintf("%s m=%d n=%d inc=%d operands at %v %v", k.Name, m, n, inc, wheres[:len(vs)], shifts[:len(vs)])
		if fault {
			w := ""
			for i := range vs {
				if s := regs[i].where(addr); s != "" {
					w += fmt.Sprintf("operand #%d (%c): %s; ", i, k.Slices[i], s)
				}
			}
			t.Fail("fault:"+k.Name, "%s: memory fault at %#x: %s", desc, addr, w)
		} else if other != nil {
			t.Fail("panic:"+k.Name, "%s: %v", desc, other)
		}
		for i, role := range k.Slices {
			if off, ok := regs[i].intact(); !ok && role == 'w' {
				t.Fail("canary:"+k.Name, "%s: byte %d relative to operand #%d was overwritten", desc, off, i)
			}
			if role == 'w' && len(vs[i]) > 0 && !fault {
				if x := float64(vs[i][0]); math.IsInf(x, 0) {
					t.Event("overflowed", 1)
				}
			}
		}
		t.Event("kernel_calls", 1)
		t.Checked(1 + len(vs))
		t.Seen(k.Name, m, n, inc, wheres, shifts)
	}
	maxN := c.N(140, 520)
	for _, k := range ks {
		c.Case(typ+"/"+k.Name, func(t0 *T) {
			t := &T2[F]{T: t0, k: &k}
			ends := []string{"end", "end", "end"}
			starts := []string{"start", "start", "start"}
			zero := []int{0, 0, 0}
			ms := []int{1}
			if k.Size != nil && len(k.Size(2, 2, 2)) == len(k.Slices) {
				a, b := k.Size(2, 3, 2), k.Size(5, 3, 2)
				for i := range a {
					if a[i] != b[i] {
						ms = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11}
					}
				}
			}
			incs := []int{1}
			if k.Size != nil {
				a, b := k.Size(2, 3, 1), k.Size(2, 3, 3)
				for i := range a {
					if a[i] != b[i] {
						incs = []int{1, 2, 3, 5}
					}
				}
			}
			for n := 0; n <= maxN && !t.Failed(); n++ {
				if len(ms) > 1 && n > c.N(40, 90) {
					break
				}
				if k.Multiple > 1 && n%k.Multiple != 0 {
					continue
				}
				for _, m := range ms {
					for _, inc := range incs {
						run(t, m, n, inc, ends, zero)
						run(t, m, n, inc, starts, zero)
						for q := 0; q < c.N(3, 12); q++ {
							w, s := make([]string, 3), make([]int, 3)
							for i := range w {
								w[i] = []string{"end", "start", "at"}[t.R.Intn(3)]
								s[i] = t.R.Range(0, 17)
							}
							run(t, m, n, inc, w, s)
						}
					}
				}
			}
			for _, r := range regs {
				r.protect(false)
			}
			tidy()
			t.Sample("%s%s: lengths 0..%d at both ends and at random offsets", typ, k.Name, maxN)
		})
	}
}

// T2 carries the kernel under test.
type T2[F any] struct {
	*T
	k *verifkern.Kernel[F]
}

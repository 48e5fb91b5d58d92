package main

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"slices"
	"sort"
	"sync"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/mat/rand/bernulli"
	"github.com/nlpodyssey/spago/mat/rand/normal"
	"github.com/nlpodyssey/spago/mat/rand/uniform"
)

// pcg is an independent implementation of the generator the library names:
// PCG XSL RR 128/64, with 128-bit arithmetic on 32-bit limbs.
type pcg struct{ w [4]uint64 } // little-endian limbs

var (
	pcgMul [4]uint64
	pcgInc [4]uint64
)

func init() {
	// 47026247687942121848144207491837523525 and
	// 117397592171526113268558934119004209487, in decimal digits
	parse := func(s string) (w [4]uint64) {
		for _, d := range s {
			c := uint64(d - '0')
			for i := range w {
				c += w[i] * 10
				w[i], c = c&0xffffffff, c>>32
			}
		}
		return
	}
	pcgMul = parse("47026247687942121848144207491837523525")
	pcgInc = parse("117397592171526113268558934119004209487")
}

func newPCG(seed uint64) *pcg {
	return &pcg{[4]uint64{seed & 0xffffffff, seed >> 32, seed & 0xffffffff, seed >> 32}}
}

func (p *pcg) next() uint64 {
	var o [4]uint64
	for i := range p.w {
		var c uint64
		for j := 0; i+j < 4; j++ {
			c += o[i+j] + p.w[i]*pcgMul[j]
			o[i+j], c = c&0xffffffff, c>>32
		}
	}
	var c uint64
	for i := range o {
		c += o[i] + pcgInc[i]
		o[i], c = c&0xffffffff, c>>32
	}
	p.w = o
	lo, hi := o[0]|o[1]<<32, o[2]|o[3]<<32
	return bits.RotateLeft64(lo^hi, -int(hi>>58))
}

// drawKind is one call on a generator.
type drawKind struct {
	name string
	draw func(g *rand.LockedRand, n int64) any
	arg  bool
}

var drawKinds = []drawKind{
	{"Uint64", func(g *rand.LockedRand, _ int64) any { return g.Uint64() }, false},
	{"Int63", func(g *rand.LockedRand, _ int64) any { return g.Int63() }, false},
	{"TwoInt63", func(g *rand.LockedRand, _ int64) any { a, b := g.TwoInt63(); return [2]int64{a, b} }, false},
	{"Uint32", func(g *rand.LockedRand, _ int64) any { return g.Uint32() }, false},
	{"Int31", func(g *rand.LockedRand, _ int64) any { return g.Int31() }, false},
	{"Int", func(g *rand.LockedRand, _ int64) any { return g.Int() }, false},
	{"Float64", func(g *rand.LockedRand, _ int64) any { return g.Float64() }, false},
	{"Float32", func(g *rand.LockedRand, _ int64) any { return g.Float32() }, false},
	{"NormFloat64", func(g *rand.LockedRand, _ int64) any { return g.NormFloat64() }, false},
	{"Uint64n", func(g *rand.LockedRand, n int64) any { return g.Uint64n(uint64(n)) }, true},
	{"Int63n", func(g *rand.LockedRand, n int64) any { return g.Int63n(n) }, true},
	{"Int31n", func(g *rand.LockedRand, n int64) any { return g.Int31n(int32(n>>32&math.MaxInt32) | 1) }, true},
	{"Intn", func(g *rand.LockedRand, n int64) any { return g.Intn(int(n)) }, true},
	{"Perm", func(g *rand.LockedRand, n int64) any { return fmt.Sprint(g.Perm(int(n % 9))) }, true},
	{"Shuffle", func(g *rand.LockedRand, n int64) any {
		x := []int{0, 1, 2, 3, 4, 5, 6}
		return fmt.Sprint(rand.ShuffleInPlace(x[:n%8], g))
	}, true},
	{"Read", func(g *rand.LockedRand, n int64) any {
		b := make([]byte, n%19)
		k, err := g.Read(b)
		if k != len(b) || err != nil {
			return fmt.Sprint("Read returns ", k, err)
		}
		return fmt.Sprintf("%x", b)
	}, true},
	{"uniform", func(g *rand.LockedRand, n int64) any { return uniform.New(-2, 3, g).Next() }, false},
	{"normal", func(g *rand.LockedRand, n int64) any { return normal.New(2, 3, g).Next() }, false},
	{"bernulli", func(g *rand.LockedRand, n int64) any {
		return fmt.Sprint(toM(bernulli.Distribution[float64](2, 2, 0.5, g)).v)
	}, false},
}

func randArg(r *Rng) int64 {
	switch r.Intn(5) {
	case 0:
		return int64(r.Range(1, 100))
	case 1:
		return 1 << r.Intn(63)
	case 2:
		return math.MaxInt64 - int64(r.Intn(3))
	}
	return int64(r.U64()>>uint(r.Range(1, 63))) | 1
}

func randSeed(r *Rng) uint64 {
	switch r.Intn(5) {
	case 0:
		return uint64(r.Intn(5))
	case 1:
		return 1 << r.Intn(64)
	case 4:
		return extremeSeeds[r.Intn(len(extremeSeeds))]
	case 2:
		return ^uint64(r.Intn(4))
	}
	return r.U64()
}

// seededCase: equal seeds and equal calls give equal results.
func seededCase(t *T) {
	seed := randSeed(t.R)
	a, b := rand.NewLockedRand(seed), rand.NewLockedRand(seed)
	if t.R.Bool() { // whatever b was used for before, seeding resets it
		b = rand.NewLockedRand(randSeed(t.R))
		for n := t.R.Range(1, 8); n > 0; n-- {
			k := drawKinds[t.R.Intn(len(drawKinds))]
			k.draw(b, randArg(t.R))
		}
		b.Seed(seed)
	}
	ref := newPCG(seed)
	pure := t.R.P(0.3)
	for n := t.R.Range(1, 60); n > 0; n-- {
		if pure {
			x, y := a.Uint64(), ref.next()
			if !t.Check(x == y, "stream:pcg", "seed %d: Uint64 gives %#x, want %#x", seed, x, y) {
				return
			}
			x = b.Uint64()
			if !t.Check(x == y, "stream:seed", "re-seeded with %d: Uint64 gives %#x, want %#x", seed, x, y) {
				return
			}
		} else {
			k := drawKinds[t.R.Intn(len(drawKinds))]
			arg := randArg(t.R)
			if t.R.P(0.03) { // a rejected call leaves the generator usable
				bad := -int64(t.R.Intn(3))
				f := []func(g *rand.LockedRand){
					func(g *rand.LockedRand) { g.Int63n(bad) },
					func(g *rand.LockedRand) { g.Int31n(int32(bad)) },
					func(g *rand.LockedRand) { g.Intn(int(bad)) },
					func(g *rand.LockedRand) { g.Uint64n(0) },
					func(g *rand.LockedRand) { g.Perm(int(bad) - 1) },
					func(g *rand.LockedRand) { g.Shuffle(int(bad)-1, func(i, j int) {}) },
					func(g *rand.LockedRand) { g.Shuffle(4, func(i, j int) { panic("swap") }) },
				}[t.R.Intn(7)]
				p, q := panics(func() { f(a) }), panics(func() { f(b) })
				t.Check(p != nil && q != nil, "stream:argument", "an invalid argument is not rejected")
				t.Event("rejected calls", 1)
			}
			if k.name == "Perm" || k.name == "Shuffle" {
				arg &= math.MaxInt32
			}
			x, y := k.draw(a, arg), k.draw(b, arg)
			if !t.Check(x == y, "stream:equal", "seed %d: %s(%d) gives %v and %v", seed, k.name, arg, x, y) {
				return
			}
			if d := outOfRange(k.name, x, arg); !t.Check(d == "", "range:"+k.name, "%s(%d) = %v: %s", k.name, arg, x, d) {
				return
			}
		}
		t.Event("draws", 1)
	}
	// another seed gives another stream
	other := randSeed(t.R)
	if other != seed {
		c, d := rand.NewLockedRand(seed), rand.NewLockedRand(other)
		same := 0
		for i := 0; i < 16; i++ {
			if c.Uint64() == d.Uint64() {
				same++
			}
		}
		t.Check(same == 0, "stream:distinct", "seeds %d and %d: %d of 16 values are equal", seed, other, same)
	}
	t.Seen(seed, pure)
	t.Checked(1)
}

func outOfRange(name string, x any, n int64) string {
	bad := false
	switch v := x.(type) {
	case uint64:
		bad = name == "Uint64n" && v >= uint64(n)
	case int64:
		bad = v < 0 || name == "Int63n" && v >= n
	case [2]int64:
		bad = v[0] < 0 || v[1] < 0
	case int32:
		bad = v < 0 || name == "Int31n" && v >= (int32(n>>32&math.MaxInt32)|1)
	case int:
		bad = v < 0 || name == "Intn" && v >= int(n)
	case float32:
		bad = !(v >= 0 && v < 1)
	case float64:
		switch name {
		case "Float64":
			bad = !(v >= 0 && v < 1)
		case "uniform":
			bad = !(v >= -2 && v <= 3)
		default:
			bad = math.IsNaN(v) || math.IsInf(v, 0)
		}
	}
	if bad {
		return "out of range"
	}
	return ""
}

// readCase: bytes do not depend on how reads are divided.
func readCase(t *T) {
	seed := randSeed(t.R)
	a, b := rand.NewLockedRand(seed), rand.NewLockedRand(seed)
	n := t.R.Range(1, 100)
	all := make([]byte, n)
	a.Read(all)
	var got []byte
	for len(got) < n {
		p := make([]byte, min(t.R.Intn(20), n-len(got)))
		k, err := b.Read(p)
		if !t.Check(k == len(p) && err == nil, "read:count", "Read of %d bytes: %d, %v", len(p), k, err) {
			return
		}
		got = append(got, p...)
	}
	t.Check(bytes.Equal(all, got), "read:parts", "seed %d: reading %d bytes in parts differs", seed, n)
	ref := newPCG(seed)
	want := make([]byte, 0, n+8)
	for len(want) < n {
		v := ref.next()
		for i := 0; i < 8; i++ {
			want = append(want, byte(v>>(8*i)))
		}
	}
	t.Check(bytes.Equal(all, want[:n]), "read:stream", "seed %d: the bytes read are not those of the stream", seed)
	t.Event("bytes", n)
	t.Checked(1)
	t.Seen(seed, n)
}

// chi2 checks counts against probabilities. The statistic has k-1 degrees of
// freedom; with fixed seeds the verdict is reproducible, and the bound is far
// out in the tail (Wilson-Hilferty, z = 6.5).
func chi2(t *T, key, what string, counts []int, prob []float64) bool {
	n := 0
	for _, c := range counts {
		n += c
	}
	stat, k := 0.0, 0
	var restC, restP float64
	for i, p := range prob {
		e := p * float64(n)
		if p == 0 {
			if !t.Check(counts[i] == 0, key, "%s: outcome %d has probability 0 and occurs %d times in %d", what, i, counts[i], n) {
				return false
			}
			continue
		}
		if e < 8 { // pooled
			restC, restP = restC+float64(counts[i]), restP+e
			continue
		}
		stat += (float64(counts[i]) - e) * (float64(counts[i]) - e) / e
		k++
	}
	if restP >= 8 {
		stat += (restC - restP) * (restC - restP) / restP
		k++
	}
	t.Event("outcomes counted", n)
	if k < 2 {
		return true
	}
	d := float64(k - 1)
	z := (math.Cbrt(stat/d) - (1 - 2/(9*d))) / math.Sqrt(2/(9*d))
	return t.Check(z < 6.5, key, "%s: chi² %.1f with %d degrees of freedom over %d outcomes (z = %.1f)\ncounts %s", what, stat, k-1, n, z, limit(fmt.Sprint(counts), 300))
}

func limit(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func flat(k int) []float64 {
	p := make([]float64, k)
	for i := range p {
		p[i] = 1 / float64(k)
	}
	return p
}

func normCDF(x float64) float64 { return 0.5 * math.Erfc(-x/math.Sqrt2) }

// distCase: one distribution, many draws from one generator.
func distCase(t *T, kind string, n int) {
	g := rand.NewLockedRand(randSeed(t.R))
	key := "distribution:" + kind
	switch kind {
	case "bits":
		var ones [64]int
		var pair [64][2]int
		prev := g.Uint64()
		for i := 0; i < n; i++ {
			v := g.Uint64()
			for b := 0; b < 64; b++ {
				ones[b] += int(v >> b & 1)
				pair[b][(v^prev)>>b&1]++ // of fair bits, these are independent, too
			}
			prev = v
		}
		for b := range ones {
			chi2(t, key, fmt.Sprintf("bit %d", b), []int{ones[b], n - ones[b]}, flat(2))
			chi2(t, key, fmt.Sprintf("bit %d of consecutive values", b), pair[b][:], flat(2))
		}
	case "Uint64n", "Int63n", "Intn", "Int31n":
		// bounds that are not powers of two: simple reductions are biased
		var bound uint64
		k := t.R.Range(3, 40)
		switch t.R.Intn(3) {
		case 0:
			bound = uint64(k)
		case 1: // between a half and all of the range
			k = 3
			bound = 3 << 61
			if kind == "Uint64n" && t.R.Bool() {
				bound = 3 << 62
			}
			if kind == "Int31n" {
				bound = 3 << 29
			}
		case 2:
			bound = uint64(k) * uint64(t.R.Range(1, 1<<20))
		}
		c := make([]int, k)
		for i := 0; i < n; i++ {
			var v uint64
			switch kind {
			case "Uint64n":
				v = g.Uint64n(bound)
			case "Int63n":
				v = uint64(g.Int63n(int64(bound)))
			case "Intn":
				v = uint64(g.Intn(int(bound)))
			case "Int31n":
				v = uint64(g.Int31n(int32(bound % (1 << 31))))
			}
			if !t.Check(v < bound, key, "%s(%d) = %d", kind, bound, v) {
				return
			}
			c[v/(bound/uint64(k))]++
		}
		chi2(t, key, fmt.Sprintf("%s(%d)", kind, bound), c, flat(k))
	case "Float64", "Float32", "Float[float32]", "Float[float64]", "Uint32", "Int31", "Int", "Int63", "TwoInt63":
		const k = 128
		c := make([]int, k)
		c2 := make([]int, 64)
		prev := 0.0
		next := func() float64 {
			switch kind {
			case "Float64":
				return g.Float64()
			case "Float32":
				return float64(g.Float32())
			case "Float[float32]":
				return float64(rand.Float[float32]())
			case "Float[float64]":
				return rand.Float[float64]()
			case "Uint32":
				return float64(g.Uint32()) / (1 << 32)
			case "Int31":
				return float64(g.Int31()) / (1 << 31)
			case "Int":
				return float64(g.Int()>>10) / (1 << 53)
			case "Int63":
				return float64(g.Int63()>>10) / (1 << 53)
			}
			a, b := g.TwoInt63()
			if t.R.Bool() {
				a = b
			}
			return float64(a>>10) / (1 << 53)
		}
		for i := 0; i < n; i++ {
			v := next()
			if !t.Check(v >= 0 && v < 1, key, "%s gives %v", kind, v) {
				return
			}
			c[int(v*k)]++
			if i%2 == 1 { // disjoint pairs are independent
				c2[int(prev*8)*8+int(v*8)]++
			}
			prev = v
		}
		chi2(t, key, kind, c, flat(k))
		chi2(t, key, kind+", consecutive pairs", c2, flat(64))
	case "NormFloat64", "normal":
		mean, std := 0.0, 1.0
		if kind == "normal" {
			mean, std = t.R.Uni(-5, 5), t.R.Uni(0.1, 4)
		}
		dist := normal.New(std, mean, g)
		// bins at equal distances, finer in the tails than the ziggurat's strips
		edges := []float64{}
		for x := -4.4; x < 4.45; x += 0.1 {
			edges = append(edges, x)
		}
		p := make([]float64, len(edges)+1)
		for i := range p {
			lo, hi := 0.0, 1.0
			if i > 0 {
				lo = normCDF(edges[i-1])
			}
			if i < len(edges) {
				hi = normCDF(edges[i])
			}
			p[i] = hi - lo
		}
		c := make([]int, len(p))
		sum, sum2, cross, prev := 0.0, 0.0, 0.0, 0.0
		for i := 0; i < n; i++ {
			var v float64
			if kind == "normal" {
				v = (dist.Next() - mean) / std
			} else {
				v = g.NormFloat64()
			}
			if !t.Check(math.Abs(v) < 9, key, "%s gives %v", kind, v) {
				return
			}
			c[sort.SearchFloat64s(edges, v)]++
			sum, sum2, cross, prev = sum+v, sum2+v*v, cross+v*prev, v
		}
		chi2(t, key, fmt.Sprintf("%s(mean %g, std %g)", kind, mean, std), c, p)
		N := float64(n)
		for _, s := range []struct {
			what   string
			v, dev float64
		}{{"mean", sum / N, 1}, {"variance - 1", sum2/N - 1, math.Sqrt2}, {"correlation of consecutive values", cross / N, 1}} {
			t.Check(math.Abs(s.v) < 7*s.dev/math.Sqrt(N), key, "%s: %s of %d standardised values is %v", kind, s.what, n, s.v)
		}
	case "uniform":
		lo := t.R.Uni(-5, 5)
		hi := lo + t.R.Uni(0.01, 10)
		u := uniform.New(lo, hi, g)
		c := make([]int, 50)
		for i := 0; i < n; i++ {
			v := u.Next()
			if !t.Check(v >= lo && v <= hi, key, "uniform(%g, %g) gives %v", lo, hi, v) {
				return
			}
			c[min(int((v-lo)/(hi-lo)*50), 49)]++
		}
		chi2(t, key, fmt.Sprintf("uniform(%g, %g)", lo, hi), c, flat(50))
	case "bernulli":
		p := pickF(t, 0, 0.01, 0.1, 0.5, 0.9, 0.99, 1, t.R.Uni(0, 1))
		r, cc := t.R.Range(1, 60), t.R.Range(1, 60)
		var c [2]int
		dt := []dtype{f32, f64}[t.R.Intn(2)]
		for c[0]+c[1] < n {
			var m mat.Matrix
			if dt == f32 {
				m = bernulli.Distribution[float32](r, cc, float32(p), g)
			} else {
				m = bernulli.Distribution[float64](r, cc, p, g)
			}
			if !t.Check(m.Shape()[0] == r && m.Shape()[1] == cc && dtypeOf(m) == dt, key, "a %s %d×%d matrix is %v", dt, r, cc, m.Shape()) {
				return
			}
			for _, v := range toM(m).v {
				if !t.Check(v == 0 || v == 1, key, "bernulli gives %v", v) {
					return
				}
				c[int(v)]++
			}
		}
		if dt == f32 {
			p = float64(float32(p))
		}
		chi2(t, key, fmt.Sprintf("bernulli %s %d×%d, probability %g of zero", dt, r, cc, p), c[:], []float64{p, 1 - p})
	case "Perm", "Shuffle", "ShuffleInPlace", "ShuffleInPlace(nil)":
		k := t.R.Range(2, 5)
		idx := map[string]int{}
		fact := 1
		for i := 2; i <= k; i++ {
			fact *= i
		}
		c := make([]int, fact)
		xs := make([]int, k)
		for i := 0; i < n/4; i++ {
			for j := range xs {
				xs[j] = j
			}
			switch kind {
			case "Perm":
				xs = g.Perm(k)
			case "Shuffle":
				g.Shuffle(k, func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
			case "ShuffleInPlace":
				rand.ShuffleInPlace(xs, g)
			default:
				rand.ShuffleInPlace(xs, nil)
			}
			s := fmt.Sprint(xs)
			o := slices.Clone(xs)
			sort.Ints(o)
			for j := range o {
				if len(o) != k || o[j] != j {
					t.Fail(key, "%s of %d gives %v", kind, k, xs)
					return
				}
			}
			if _, ok := idx[s]; !ok {
				idx[s] = len(idx)
			}
			c[idx[s]]++
		}
		chi2(t, key, fmt.Sprintf("%s of %d: all permutations", kind, k), c, flat(fact))
	case "long permutations":
		k := t.R.Range(20, 60)
		where := make([]int, k*k)
		for i := 0; i < n/k; i++ {
			var xs []int
			if t.R.Bool() {
				xs = g.Perm(k)
			} else {
				xs = make([]int, k)
				for j := range xs {
					xs[j] = j
				}
				rand.ShuffleInPlace(xs, g)
			}
			seen := make([]bool, k)
			for pos, x := range xs {
				if x < 0 || x >= k || seen[x] {
					t.Fail(key, "%v is no permutation", xs)
					return
				}
				seen[x] = true
				where[pos*k+x]++
			}
		}
		chi2(t, key, fmt.Sprintf("positions in permutations of %d", k), where, flat(k*k))
	case "very long permutations":
		// by blocks: where the elements of each go, how many stay, how far they move
		k := t.R.Range(61, 1200)
		const B = 10
		where, stay, moved := make([]int, B*B), make([]int, B), make([]int, k)
		prob := make([]float64, B*B)
		size := make([]int, B)
		for x := 0; x < k; x++ {
			size[x*B/k]++
		}
		for i := range prob {
			prob[i] = float64(size[i/B]) * float64(size[i%B]) / float64(k*k)
		}
		perms := max(1, 30*n/k)
		seen := make([]int, k)
		for i := 0; i < perms; i++ {
			var xs []int
			if t.R.Bool() {
				xs = g.Perm(k)
			} else {
				xs = make([]int, k)
				for j := range xs {
					xs[j] = j
				}
				rand.ShuffleInPlace(xs, g)
			}
			if len(xs) != k {
				t.Fail(key, "%d elements in a permutation of %d", len(xs), k)
				return
			}
			for pos, x := range xs {
				if x < 0 || x >= k || seen[x] == i+1 {
					t.Fail(key, "%v is no permutation", xs)
					return
				}
				seen[x] = i + 1
				where[pos*B/k*B+x*B/k]++
				moved[(pos-x+k)%k]++
				if pos == x {
					stay[x*B/k]++
				}
			}
		}
		chi2(t, key, fmt.Sprintf("positions in permutations of %d, by blocks", k), where, prob)
		chi2(t, key, fmt.Sprintf("displacements in permutations of %d", k), moved, flat(k))
		for b, s := range stay {
			p := 1 / float64(k)
			chi2(t, key, fmt.Sprintf("elements of block %d of %d that stay in permutations of %d", b, B, k), []int{s, perms*size[b] - s}, []float64{p, 1 - p})
		}
		t.Event("long permutations", perms)
	}
	t.Seen(kind, g.Uint64())
	t.Sample("%s: %d draws", kind, n)
}

var distKinds = []string{"bits", "Uint64n", "Int63n", "Intn", "Int31n", "Float64", "Float32", "Float[float32]", "Float[float64]", "Uint32", "Int31", "Int", "Int63", "TwoInt63",
	"NormFloat64", "normal", "uniform", "bernulli", "Perm", "Shuffle", "ShuffleInPlace", "ShuffleInPlace(nil)", "long permutations", "very long permutations"}

// choiceCase: weighted choice follows the weights.
func choiceCase[F float32 | float64](t *T, n int) {
	k := t.R.Range(1, 12)
	if t.R.P(0.2) {
		k = t.R.Range(100, 2000)
	}
	w := make([]float64, k)
	sum := 0.0
	for i := range w {
		if !t.R.P(0.3) || k == 1 {
			w[i] = t.R.Uni(0, 1)
		}
		sum += w[i]
	}
	if sum == 0 {
		w[k-1], sum = 1, 1
	}
	dist := make([]F, k)
	prob := make([]float64, k)
	for i := range w {
		dist[i] = F(w[i] / sum)
		prob[i] = w[i] / sum
	}
	if t.R.P(0.2) { // certainty
		for i := range dist {
			dist[i], prob[i] = 0, 0
		}
		j := t.R.Intn(k)
		dist[j], prob[j] = 1, 1
	}
	before := slices.Clone(dist)
	c := make([]int, k)
	for i := 0; i < n; i++ {
		j := rand.WeightedChoice(dist)
		if !t.Check(j >= 0 && j < k, "choice:range", "choice %d of %d", j, k) {
			return
		}
		c[j]++
	}
	t.Check(slices.Equal(before, dist), "choice:changed", "the weights were changed")
	key := "choice:frequencies"
	for i := range c { // nothing impossible is chosen
		if !t.Check(prob[i] > 0 || c[i] == 0, "choice:impossible", "item %d of %d has weight 0 and is chosen %d times in %d (%T)", i, k, c[i], n, dist[0]) {
			return
		}
	}
	chi2(t, key, fmt.Sprintf("weighted choice of %d (%T)", k, dist[0]), c, prob)
	t.Seen(k, sum)
}

// roundedChoice: many weights, whose sum in float32 is visibly below one.
func roundedChoice(t *T) {
	var w []float32
	gap := 0.0
	for tries := 0; gap < 1e-3 && tries < 200; tries++ {
		k := t.R.Range(100000, 150000)
		w = make([]float32, k)
		var sum float32
		for i := 1; i < k; i++ {
			w[i] = 1 / float32(k-1)
			sum += w[i]
		}
		gap = 1 - float64(sum)
	}
	n := int(10 / gap)
	if gap < 1e-3 {
		return
	}
	for i := 0; i < n; i++ {
		j := rand.WeightedChoice(w)
		if !t.Check(j > 0 && j < len(w), "choice:impossible", "choice %d of %d equal weights but the first, which is zero (their float32 sum is 1 - %g)", j, len(w), gap) {
			return
		}
	}
	t.Event("choices with a rounded sum", n)
	t.Seen(len(w))
}

// extremeCase: the first number drawn is very close to one, or to zero.
func extremeCase(t *T) {
	for _, seed := range extremeSeeds {
		g := rand.NewLockedRand(seed)
		f := g.Float64()
		g.Seed(seed)
		f32v := g.Float32()
		t.Check(f >= 0 && f < 1 && f32v >= 0 && f32v < 1, "range:extreme", "seed %d: Float64 %v, Float32 %v", seed, f, f32v)
		if math.Abs(f-0.5) < 0.4999 {
			continue // not this generator
		}
		t.Event("extreme draws", 1)
		for _, p := range []float64{0, 0.5, 1 - 1.0/(1<<24), 1} {
			g.Seed(seed)
			a := toM(bernulli.Distribution[float64](1, 1, p, g)).v[0]
			g.Seed(seed)
			b := toM(bernulli.Distribution[float32](1, 1, float32(p), g)).v[0]
			t.Check((a == 0 || a == 1) && (b == 0 || b == 1) && (p > 0 || a == 1 && b == 1) && (p < 1 || a == 0 && b == 0),
				"distribution:bernulli", "seed %d draws %v: with probability %v of zero, the values are %v (float64) and %v (float32)", seed, f, p, a, b)
		}
		for i := 0; i < 20; i++ {
			lo := t.R.Uni(-5, 5)
			hi := lo + t.R.Uni(0, 3)
			g.Seed(seed)
			u := uniform.New(lo, hi, g).Next()
			t.Check(u >= lo && u <= hi, "distribution:uniform", "uniform(%v, %v) gives %v", lo, hi, u)
		}
		g.Seed(seed)
		v := g.NormFloat64()
		t.Check(math.Abs(v) < 20, "distribution:normal", "seed %d gives %v", seed, v)
		t.Checked(1)
	}
	t.Seen(t.R.U64())
}

// extremeSeeds: the first number is very close to 1 (three round to 1 in
// float32) or to 0.
var extremeSeeds = []uint64{5529123, 26891332, 58935016, 565982, 448885853, 450501153}

// sampleCase: samples without repetition.
func sampleCase(t *T, rounds int) {
	limit := t.R.Range(1, 12)
	if t.R.P(0.1) {
		limit = t.R.Range(20, 150)
	}
	valid := func(int) bool { return true }
	ok := make([]bool, limit)
	nValid := 0
	for i := range ok {
		ok[i] = true
	}
	if t.R.Bool() {
		for i := range ok {
			ok[i] = t.R.P(0.7)
		}
		valid = func(i int) bool { return ok[i] }
	}
	for _, v := range ok {
		if v {
			nValid++
		}
	}
	n := t.R.Intn(nValid + 1)
	if t.R.P(0.3) {
		n = nValid // all of them
	}
	byIndex := t.R.Bool()
	indices := make([]int, limit)
	label := func(i int) int { return i }
	if byIndex {
		// any distinct indices, in any order
		off := t.R.Range(-3, 5)
		for i, j := range t.R.Perm(limit) {
			indices[i] = j + off
		}
		label = func(i int) int { return i - off }
		inner := valid
		valid = func(i int) bool { return inner(i - off) }
	}
	c := make([]int, limit)
	first := make([]int, limit)
	for r := 0; r < rounds; r++ {
		var got []int
		budget := 100000 // draws; a sample that cannot be completed never ends
		counted := func(i int) bool {
			if budget--; budget < 0 {
				panic("no sample found")
			}
			return valid(i)
		}
		name := "GetUniqueRandomInt"
		p := panics(func() {
			if byIndex {
				name = "GetUniqueRandomIndices"
				got = rand.GetUniqueRandomIndices(n, indices, counted)
			} else {
				got = rand.GetUniqueRandomInt(n, limit, counted)
			}
		})
		if !t.Check(p == nil, "sample:complete", "%s: %d of %d valid values: %v", name, n, nValid, p) {
			return
		}
		if !t.Check(len(got) == n, "sample:size", "%s: %d values, want %d", name, len(got), n) {
			return
		}
		seen := make([]bool, limit)
		for k, v := range got {
			i := label(v)
			if !t.Check(i >= 0 && i < limit && ok[i] && !seen[i], "sample:unique", "%s(%d of %d, valid %v) = %v", name, n, limit, ok, got) {
				return
			}
			seen[i] = true
			c[i]++
			if k == 0 {
				first[i]++
			}
		}
	}
	if n > 0 {
		prob := make([]float64, limit)
		for i := range prob {
			if ok[i] {
				prob[i] = 1 / float64(nValid)
			}
		}
		chi2(t, "sample:first", fmt.Sprintf("first of %d values of %d (by index: %v)", n, nValid, byIndex), first, prob)
		for i := range c {
			if ok[i] {
				p := float64(n) / float64(nValid)
				if p < 1 {
					chi2(t, "sample:reach", fmt.Sprintf("value %d in samples of %d of %d (by index: %v)", i, n, nValid, byIndex), []int{c[i], rounds - c[i]}, []float64{p, 1 - p})
				} else {
					t.Check(c[i] == rounds, "sample:reach", "value %d is in %d of %d samples of everything", i, c[i], rounds)
				}
			}
		}
	}
	t.Event("samples", rounds)
	t.Seen(n, limit, byIndex, ok)
}

// sharedCase: a generator shared by goroutines delivers each value once, in
// order to each of them.
func sharedCase(t *T) {
	seed := randSeed(t.R)
	k := drawKinds[t.R.Intn(len(drawKinds)-3)]
	arg := randArg(t.R)
	if k.name == "Read" {
		arg = 8 * int64(t.R.Range(1, 2)) // multiples of a value: nothing is left over
	}
	if k.name == "Read" && t.R.Bool() {
		return
	}
	if k.name == "Perm" || k.name == "Shuffle" {
		arg = int64(t.R.Range(2, 7))
	}
	if k.name == "Uint64n" || k.name == "Int63n" || k.name == "Intn" { // results that tell positions apart
		arg |= 1 << 40
	}
	workers, each := t.R.Range(2, 8), t.R.Range(5, 60)
	g := rand.NewLockedRand(seed)
	got := make([][]any, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := range got {
		wg.Add(1)
		r := t.R.Fork()
		go func() {
			defer wg.Done()
			<-start
			for i := 0; i < each; i++ {
				got[w] = append(got[w], k.draw(g, arg))
				if r.P(0.1) {
					pause(r.Intn(3))
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	ref := rand.NewLockedRand(seed)
	pos := map[any][]int{}
	for i := 0; i < workers*each; i++ {
		v := k.draw(ref, arg)
		pos[v] = append(pos[v], i)
	}
	unique := len(pos) == workers*each
	switches, last := 0, -1
	owner := make([]int, workers*each)
	for w := range got {
		prev := -1
		for _, v := range got[w] {
			p := pos[v]
			if !t.Check(len(p) > 0, "shared:"+k.name, "seed %d, %s(%d), %d goroutines × %d draws: %v is drawn too often, or not a value of the stream", seed, k.name, arg, workers, each, v) {
				return
			}
			pos[v] = p[1:]
			if unique {
				if !t.Check(p[0] > prev, "shared:order", "%s: a goroutine gets values out of order", k.name) {
					return
				}
				prev = p[0]
				owner[p[0]] = w
			}
		}
	}
	if unique {
		for _, w := range owner {
			if w != last {
				switches++
			}
			last = w
		}
		t.Event("changes of the drawing goroutine", switches)
	}
	t.Event("concurrent draws", workers*each)
	t.Checked(1)
	t.Seen(k.name, workers, each, owner)
}

// globalCase: the helpers on the global source, from many goroutines.
func globalCase(t *T) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for w := t.R.Range(2, 6); w > 0; w-- {
		r := t.R.Fork()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 30; i++ {
				bad := ""
				switch r.Intn(6) {
				case 0:
					if v := rand.Float[float32](); !(v >= 0 && v < 1) {
						bad = "Float out of range"
					}
				case 1:
					if v := rand.Float[float64](); !(v >= 0 && v < 1) {
						bad = "Float out of range"
					}
				case 2:
					x := []int{0, 1, 2, 3, 4}
					rand.ShuffleInPlace(x, nil)
					sort.Ints(x)
					if fmt.Sprint(x) != "[0 1 2 3 4]" {
						bad = fmt.Sprint("shuffle ", x)
					}
				case 3:
					if j := rand.WeightedChoice([]float64{0, 1, 0}); j != 1 {
						bad = fmt.Sprint("choice ", j)
					}
				case 4:
					x := rand.GetUniqueRandomInt(3, 9, func(int) bool { return true })
					if x[0] == x[1] || x[1] == x[2] || x[0] == x[2] {
						bad = fmt.Sprint("sample ", x)
					}
				case 5:
					x := rand.GetUniqueRandomIndices(2, []int{4, 5, 6}, func(int) bool { return true })
					if x[0] == x[1] {
						bad = fmt.Sprint("sample ", x)
					}
				}
				if bad != "" {
					mu.Lock()
					t.Fail("global", "%s", bad)
					mu.Unlock()
				}
			}
		}()
		t.Event("concurrent draws", 30)
	}
	wg.Wait()
	t.Checked(1)
	t.Seen(t.R.U64())
}

func init() {
	register(&Property{
		ID: "P24", Rule: "streams equal an independent implementation of the generator and each other for equal seeds and calls; every value in range; chi² and moment bounds (fixed seeds, z < 6.5) for every distribution; concurrent draws are exactly the values of the sequential stream, each once and in order",
		Level: "real code under monitors, plus race detector",
		Phases: []Phase{
			{Name: "streams", Shards: 8, Run: func(c *C) {
				for i := 0; i < c.N(20000, 600000); i++ {
					c.Case(fmt.Sprintf("stream/%d", i), seededCase)
				}
				for i := 0; i < c.N(3000, 60000); i++ {
					c.Case(fmt.Sprintf("read/%d", i), readCase)
				}
			}, MinEvents: map[string]int64{"draws": 100000, "rejected calls": 1000, "bytes": 10000}},
			{Name: "distributions", Shards: 8, Run: func(c *C) {
				for _, k := range distKinds {
					n := c.N(600000, 20000000)
					if k == "bits" {
						n /= 8
					}
					for i := 0; i < c.N(6, 10); i++ {
						c.Case(fmt.Sprintf("%s/%d", k, i), func(t *T) { distCase(t, k, n) })
					}
				}
				for i := 0; i < c.N(60, 1000); i++ {
					c.Case(fmt.Sprintf("choice32/%d", i), func(t *T) { choiceCase[float32](t, c.N(200000, 1000000)) })
					c.Case(fmt.Sprintf("choice64/%d", i), func(t *T) { choiceCase[float64](t, c.N(50000, 500000)) })
				}
				c.Case("extremes", extremeCase)
				for i := 0; i < 2; i++ {
					c.Case(fmt.Sprintf("rounded/%d", i), roundedChoice)
				}
				for i := 0; i < c.N(300, 8000); i++ {
					c.Case(fmt.Sprintf("sample/%d", i), func(t *T) { sampleCase(t, 1500) })
				}
			}, MinEvents: map[string]int64{"outcomes counted": 10000000, "samples": 100000, "choices with a rounded sum": 1000}},
			{Name: "shared", Shards: 4, Run: func(c *C) {
				for i := 0; i < c.N(2000, 60000); i++ {
					c.Case(fmt.Sprintf("shared/%d", i), sharedCase)
				}
			}, MinEvents: map[string]int64{"concurrent draws": 50000, "changes of the drawing goroutine": 1000}},
			{Name: "race", Variant: "race", Shards: 4, Run: func(c *C) {
				for i := 0; i < c.N(600, 12000); i++ {
					c.Case(fmt.Sprintf("shared/%d", i), sharedCase)
				}
				for i := 0; i < c.N(100, 3000); i++ {
					c.Case(fmt.Sprintf("global/%d", i), globalCase)
				}
			}, MinEvents: map[string]int64{"concurrent draws": 20000}},
		},
	})
}

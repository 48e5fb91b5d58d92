package main

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sync"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
)

// tnode is a model with a field of every kind the traversal has to look into.
type tnode struct {
	nn.Module
	P, Q     *nn.Param
	Size     int
	Name     string
	Floats   []float64
	Sizes    [2]int
	Names    map[string]int
	T        mat.Tensor
	Any      any
	Ps       []*nn.Param
	Ts       []mat.Tensor
	PArr     [3]*nn.Param
	PMap     map[string]*nn.Param
	IMap     map[int]*nn.Param
	AnyMap   map[string]any
	Nested   [][]*nn.Param
	NestMap  map[string][]*nn.Param
	NestArr  [2]map[int]*nn.Param
	Sync     *sync.Map
	KeyMap   map[any]any
	Sub      *tnode
	SubI     nn.Model
	SubV     tval
	Subs     []*tnode
	SubIs    []nn.Model
	SubVs    []tval
	SubArr   [2]nn.Model
	SubMap   map[string]nn.Model
	SubIMap  map[int]*tnode
	Anys     []any
	AnyArr   [3]any
	List     nn.ModuleList[nn.StandardModel]
	NestSubs [][]nn.Model
	Trav     ttrav
	Travs    []ttrav
	Emb      *embedding.Model
	Embs     []*embedding.Model
	PairsIn  [][2]*nn.Param
	PairsMap map[string][2]*nn.Param
	MapsIn   []map[string]*nn.Param
	Grid     [2][2]nn.Model
	GridMap  map[int][2]*tnode
	AnyGrid  [2][]any
	Fn       func()
	private  *nn.Param
	Tbase
}

// tval is a model used by value.
type tval struct {
	nn.Module
	A *nn.Param
	B []*nn.Param
}

// Tbase is a model embedded in another.
type Tbase struct {
	nn.Module
	BaseW *nn.Param
	BaseM map[string]*nn.Param
}

// tstd is a standard model.
type tstd struct {
	nn.Module
	W *nn.Param
	L nn.ModuleList[nn.StandardModel]
}

func (m *tstd) Forward(xs ...mat.Tensor) []mat.Tensor { return xs }

// ttrav enumerates its own parameters.
type ttrav struct{ ps []*nn.Param }

func (m ttrav) TraverseParams(f func(*nn.Param)) {
	for _, p := range m.ps {
		f(p)
	}
}

// tplan records what was planted.
type tplan struct {
	t      *T
	params []*nn.Param
	own    map[*nn.Param]bool // reachable without entering a sub-model
	where  map[*nn.Param]string
	models []nn.Model
	sub    map[nn.Model]string
	depth  int
	kinds  int // containers used
	tied   []*nn.Param
	either map[*nn.Param]bool
	shared []*tstd
	budget int
}

func (g *tplan) param(own bool, where string) *nn.Param {
	t := g.t
	if len(g.tied) > 0 && t.R.P(0.5) { // a parameter shared by several fields
		p := g.tied[t.R.Intn(len(g.tied))]
		g.own[p] = g.own[p] || own
		g.where[p] += "; " + where
		return p
	}
	var p *nn.Param
	if n := len(g.params); n > 0 && t.R.P(0.02) { // a parameter of its own over the matrix of another
		p = &nn.Param{Matrix: g.params[t.R.Intn(n)].Matrix}
		t.Event("views", 1)
	} else {
		p = nn.NewParam(f64.mk(t.randM(1, t.R.Range(1, 3), -1, 1), false))
	}
	g.params = append(g.params, p)
	g.own[p] = own
	g.where[p] = where
	return p
}

func (g *tplan) model(m nn.Model, where string) {
	g.models = append(g.models, m)
	if reflect.TypeOf(m).Comparable() {
		g.sub[m] = where
	}
}

// absent tells whether an entry is left out.
func (g *tplan) absent() bool { return g.t.R.P(0.3) }

func (g *tplan) junk() any {
	return []any{nil, 1, "x", 2.5, []int{1}, map[bool]int{true: 1}, struct{ X int }{1}, (*nn.Param)(nil), (*tnode)(nil), mat.Tensor(nil), f64.mkScalar(1, false), &struct{ Y string }{"y"}, []float64{1}, (*int)(nil), new(int), func() {}}[g.t.R.Intn(16)]
}

// inert is a value without parameters.
func (g *tplan) inert() any {
	return []any{nil, 1, "x", []int{1}, (*nn.Param)(nil)}[g.t.R.Intn(5)]
}

func (g *tplan) anyItem(own bool, where string) any {
	t := g.t
	switch t.R.Intn(10) {
	case 0, 1:
		return g.junk()
	case 2, 3:
		return g.param(own, where)
	case 4:
		return []*nn.Param{g.param(own, where+"[]"), nil, g.param(own, where+"[]")}
	case 5:
		return map[string]*nn.Param{"a": g.param(own, where+"{}"), "b": nil, "c": g.param(own, where+"{}")}
	case 6:
		return []any{g.junk(), g.param(own, where+"[]any"), g.junk(), g.param(own, where+"[]any")}
	case 8:
		return [][2]any{{nil, g.param(own, where+"[][2]")}, {g.inert(), g.param(own, where+"[][2]")}}
	case 7:
		if m := g.node(where + ".any"); m != nil {
			return m
		}
		return nil
	}
	return ttrav{[]*nn.Param{g.param(own, where+".trav"), g.param(own, where+".trav")}}
}

func (g *tplan) val(where string) tval {
	v := tval{}
	if !g.absent() {
		v.A = g.param(false, where+".A")
	}
	n := g.t.R.Intn(3)
	if g.t.R.P(0.001) && g.tied == nil {
		n = g.t.R.Pick(130, 257, 300)
	}
	for ; n > 0; n-- {
		if g.absent() {
			v.B = append(v.B, nil)
		} else {
			v.B = append(v.B, g.param(false, where+".B[]"))
		}
	}
	return v
}

func (g *tplan) std(where string, depth int) *tstd {
	if len(g.shared) > 0 && g.t.R.P(0.4) { // a sub-model shared by several fields
		return g.shared[g.t.R.Intn(len(g.shared))]
	}
	m := &tstd{}
	g.model(m, where)
	if !g.absent() {
		m.W = g.param(false, where+".W")
	}
	if depth > 0 {
		for n := g.t.R.Intn(3); n > 0; n-- {
			m.L = append(m.L, g.std(where+".L[]", depth-1))
		}
	}
	if g.tied != nil {
		g.shared = append(g.shared, m)
	}
	return m
}

func (g *tplan) embed(where string) *embedding.Model {
	t := g.t
	m := embedding.New[float64](t.R.Range(1, 5), 2)
	g.model(m, where)
	for i := range m.Weights {
		if t.R.Bool() {
			e, _ := m.Embedding(i)
			e.AccGrad(f64.mk(newM(2, 1), false))
			p := m.Weights[i]
			g.params = append(g.params, p)
			g.either[p] = true // the strict iteration is not specified for models with their own traversal
			g.where[p] = where + ".Weights[]"
		}
	}
	return m
}

// sub makes a sub-model of any type behind the interface.
func (g *tplan) subModel(where string) nn.Model {
	switch g.t.R.Intn(6) {
	case 0:
		return nil
	case 1:
		v := g.val(where)
		g.model(v, where)
		return v
	case 2:
		v := g.val(where)
		g.model(&v, where)
		return &v
	case 3:
		return g.std(where, 1)
	}
	if n := g.node(where); n != nil {
		return n
	}
	return nil
}

// node makes a sub-model; nil when the structure is deep enough.
func (g *tplan) node(where string) *tnode {
	if g.depth == 0 || g.budget <= 0 {
		return nil
	}
	g.budget--
	g.depth--
	m := &tnode{}
	g.model(m, where)
	g.fill(m, where, false)
	g.depth++
	return m
}

// fill populates a random subset of the fields.
func (g *tplan) fill(m *tnode, where string, own bool) {
	t := g.t
	size := func(n int) int { // of a container: now and then a large one
		if t.R.P(0.002) && g.tied == nil && len(g.params) < 2000 {
			t.Event("large containers", 1)
			return t.R.Pick(17, 65, 130, 257, 300, 520)
		}
		return t.R.Intn(n)
	}
	ps := func(w string) []*nn.Param {
		var s []*nn.Param
		for n := size(4); n > 0; n-- {
			if g.absent() {
				s = append(s, nil)
			} else {
				s = append(s, g.param(own, w))
			}
		}
		return s
	}
	m.private = nn.NewParam(f64.mkScalar(1, false))
	m.Floats, m.Name, m.Names = []float64{1, 2}, "x", map[string]int{"a": 1}
	density := t.R.Uni(0.05, 0.5)
	use := func() bool {
		if t.R.P(density) {
			g.kinds++
			return true
		}
		return false
	}
	if use() {
		m.P = g.param(own, where+".P")
	}
	if use() {
		m.Q = g.param(own, where+".Q")
	}
	if use() {
		m.T = g.param(own, where+".T")
	} else if t.R.Bool() {
		m.T = f64.mkScalar(1, false)
	}
	if use() {
		m.Any = g.anyItem(own, where+".Any")
	}
	if use() {
		m.Ps = ps(where + ".Ps")
	}
	if use() {
		for n := size(4); n > 0; n-- {
			switch t.R.Intn(4) {
			case 0:
				m.Ts = append(m.Ts, nil)
			case 1:
				m.Ts = append(m.Ts, f64.mkScalar(1, false))
			default:
				m.Ts = append(m.Ts, g.param(own, where+".Ts"))
			}
		}
	}
	if use() {
		for i := range m.PArr {
			if !g.absent() {
				m.PArr[i] = g.param(own, where+".PArr")
			}
		}
	}
	if use() {
		m.PMap = map[string]*nn.Param{}
		for i, p := range ps(where + ".PMap") {
			m.PMap[fmt.Sprint("k", i)] = p
		}
	}
	if use() {
		m.IMap = map[int]*nn.Param{}
		for i, p := range ps(where + ".IMap") {
			m.IMap[i-1] = p
		}
	}
	if use() {
		m.AnyMap = map[string]any{}
		for i := size(4); i > 0; i-- {
			m.AnyMap[fmt.Sprint(i)] = g.anyItem(own, where+".AnyMap")
		}
	}
	if use() {
		m.Nested = [][]*nn.Param{nil, ps(where + ".Nested"), {}, ps(where + ".Nested")}
	}
	if use() {
		m.NestMap = map[string][]*nn.Param{"a": ps(where + ".NestMap"), "b": nil, "c": ps(where + ".NestMap")}
	}
	if use() {
		m.NestArr[1] = map[int]*nn.Param{1: g.param(own, where+".NestArr"), 2: nil, 3: g.param(own, where+".NestArr")}
	}
	if use() {
		m.Sync = &sync.Map{}
		for i := t.R.Intn(5); i > 0; i-- {
			var k any = fmt.Sprint("s", i)
			if t.R.Bool() {
				k = i
			}
			m.Sync.Store(k, g.anyItem(own, where+".Sync"))
		}
		// keys of other types do not hide the other entries
		for i := t.R.Intn(4); i > 0; i-- {
			m.Sync.Store([]any{2.5, true, 'x', [1]int{i}, int64(7), struct{}{}}[t.R.Intn(6)], g.inert())
			t.Event("foreign keys", 1)
		}
	}
	if use() {
		m.KeyMap = map[any]any{}
		for i := t.R.Intn(5); i > 0; i-- {
			var k any = fmt.Sprint("s", i)
			if t.R.Bool() {
				k = i
			}
			m.KeyMap[k] = g.anyItem(own, where+".KeyMap")
		}
		for i := t.R.Intn(4); i > 0; i-- {
			m.KeyMap[[]any{2.5, true, 'x', [1]int{i}, int64(7), struct{}{}}[t.R.Intn(6)]] = g.inert()
			t.Event("foreign keys", 1)
		}
	}
	if use() {
		m.Sub = g.node(where + ".Sub")
	}
	if use() {
		m.SubI = g.subModel(where + ".SubI")
	}
	// a field of a model type by value is always visited
	if use() {
		m.SubV = g.val(where + ".SubV")
	}
	g.model(m.SubV, where+".SubV")
	if use() {
		for n := size(4); n > 0; n-- {
			m.Subs = append(m.Subs, g.maybe(where+".Subs"))
		}
	}
	if use() {
		for n := size(4); n > 0; n-- {
			m.SubIs = append(m.SubIs, g.subModel(where+".SubIs"))
		}
	}
	if use() {
		for n := size(3); n > 0; n-- {
			v := g.val(where + ".SubVs")
			g.model(v, where+".SubVs")
			m.SubVs = append(m.SubVs, v)
		}
	}
	if use() {
		m.SubArr[t.R.Intn(2)] = g.subModel(where + ".SubArr")
	}
	if use() {
		m.SubMap = map[string]nn.Model{"a": g.subModel(where + ".SubMap"), "b": nil, "c": g.subModel(where + ".SubMap")}
	}
	if use() {
		m.SubIMap = map[int]*tnode{1: g.maybe(where + ".SubIMap"), 7: g.maybe(where + ".SubIMap"), 9: nil}
	}
	if use() {
		for n := size(5); n > 0; n-- {
			m.Anys = append(m.Anys, g.anyItem(own, where+".Anys"))
		}
	}
	if use() {
		for i := range m.AnyArr {
			m.AnyArr[i] = g.anyItem(own, where+".AnyArr")
		}
	}
	if use() {
		for n := size(3); n > 0; n-- {
			m.List = append(m.List, g.std(where+".List", 1))
		}
	}
	if use() {
		m.NestSubs = [][]nn.Model{{g.subModel(where + ".NestSubs"), nil}, nil, {g.subModel(where + ".NestSubs")}}
	}
	pair := func(w string) [2]*nn.Param {
		var a [2]*nn.Param
		for i := range a {
			if !g.absent() {
				a[i] = g.param(own, w)
			}
		}
		return a
	}
	if use() {
		for n := size(3); n > 0; n-- {
			m.PairsIn = append(m.PairsIn, pair(where+".PairsIn"))
		}
	}
	if use() {
		m.PairsMap = map[string][2]*nn.Param{"a": pair(where + ".PairsMap"), "b": {}, "c": pair(where + ".PairsMap")}
	}
	if use() {
		m.MapsIn = []map[string]*nn.Param{nil, {"a": g.param(own, where+".MapsIn"), "b": nil}, {"a": g.param(own, where+".MapsIn")}}
	}
	if use() {
		m.Grid[t.R.Intn(2)][t.R.Intn(2)] = g.subModel(where + ".Grid")
	}
	if use() {
		m.GridMap = map[int][2]*tnode{0: {nil, g.maybe(where + ".GridMap")}, 5: {g.maybe(where + ".GridMap")}}
	}
	if use() {
		m.AnyGrid[t.R.Intn(2)] = []any{g.anyItem(own, where+".AnyGrid"), g.junk(), g.anyItem(own, where+".AnyGrid")}
	}
	if use() {
		m.Tbase.BaseW = g.param(false, where+".BaseW")
		m.Tbase.BaseM = map[string]*nn.Param{"x": g.param(false, where+".BaseM"), "y": nil}
	}
	g.model(m.Tbase, where+".Tbase")
	if use() {
		m.Trav = ttrav{[]*nn.Param{g.param(own, where+".Trav")}}
		// traversers are visited also by the strict iteration, inside this model
	}
	if use() {
		for n := size(3); n > 0; n-- {
			m.Travs = append(m.Travs, ttrav{[]*nn.Param{g.param(own, where+".Travs")}})
		}
	}
	if use() {
		m.Emb = g.embed(where + ".Emb")
		m.Embs = []*embedding.Model{nil, g.embed(where + ".Embs")}
	}
}

func (g *tplan) maybe(where string) *tnode {
	if g.absent() {
		return nil
	}
	return g.node(where)
}

func travCase(t *T, tied bool) {
	g := &tplan{t: t, own: map[*nn.Param]bool{}, either: map[*nn.Param]bool{}, where: map[*nn.Param]string{}, sub: map[nn.Model]string{}, depth: t.R.Intn(4), budget: 40}
	if tied {
		for i := 0; i < 2; i++ {
			p := nn.NewParam(f64.mkScalar(1, false))
			g.tied = append(g.tied, p)
		}
	}
	m := &tnode{}
	g.model(m, "root")
	g.fill(m, "root", true)
	for _, p := range g.tied {
		if g.where[p] != "" {
			g.params = append(g.params, p)
		}
	}
	key := "traversal"
	if tied {
		key = "traversal:tied"
	}
	count := func(what string, visit func(f func(p *nn.Param)), want func(p *nn.Param) bool) bool {
		seen := map[*nn.Param]int{}
		visit(func(p *nn.Param) {
			seen[p]++
			t.Event("parameters visited", 1)
		})
		n := 0
		for _, p := range g.params {
			if g.either[p] && what == "ForEachParamStrict" {
				delete(seen, p)
				continue
			}
			w := 0
			if want(p) {
				w = 1
				n++
			}
			if !t.Check(seen[p] == w, key+":"+what, "%s visited the parameter at %s %d times, want %d", what, g.where[p], seen[p], w) {
				return false
			}
			delete(seen, p)
		}
		return t.Check(len(seen) == 0, key+":"+what, "%s visited %d parameters that do not belong to the model", what, len(seen))
	}
	all := func(*nn.Param) bool { return true }
	collect := func(ch <-chan *nn.Param, f func(p *nn.Param)) {
		for p := range ch {
			f(p)
		}
	}
	ok := count("ForEachParam", func(f func(p *nn.Param)) { nn.ForEachParam(m, f) }, all) &&
		count("ForEachParamStrict", func(f func(p *nn.Param)) { nn.ForEachParamStrict(m, f) }, func(p *nn.Param) bool { return g.own[p] }) &&
		count("Parameters", func(f func(p *nn.Param)) { collect(nn.Parameters(m)(context.Background()), f) }, all) &&
		count("StreamParams", func(f func(p *nn.Param)) { collect(nn.StreamParams(g.params)(context.Background()), f) }, all)
	if !ok {
		return
	}
	// a cancelled listing stops, and leaves nothing behind
	base := runtime.NumGoroutine()
	ctx, cancel := context.WithCancel(context.Background())
	ch := nn.Parameters(m)(ctx)
	if t.R.Bool() {
		ch = nn.StreamParams(g.params)(ctx)
	}
	for i := t.R.Intn(4); i > 0; i-- {
		<-ch
	}
	cancel()
	for n := 0; ; n++ {
		if _, more := <-ch; !more {
			break
		}
		if !t.Check(n <= len(g.params), key+":cancel", "the listing goes on after it was cancelled") {
			break
		}
	}
	if d := leakedGoroutines(base); d != "" {
		t.Fail(key+":cancel", "a cancelled listing leaves goroutines behind:\n%s", d)
		return
	}
	// sub-modules
	seen := map[nn.Model]int{}
	values, wantValues := 0, 0
	first := true
	nn.Apply(m, func(x nn.Model) {
		if first {
			t.Check(x == nn.Model(m), key+":Apply", "Apply does not start from the model itself")
			first = false
		}
		t.Event("modules visited", 1)
		if reflect.TypeOf(x).Kind() != reflect.Ptr {
			values++
			return
		}
		seen[x]++
	})
	for _, x := range g.models {
		if reflect.TypeOf(x).Kind() != reflect.Ptr {
			wantValues++
			continue
		}
		if !t.Check(seen[x] == 1, key+":Apply", "Apply visited the %T at %s %d times, want 1", x, g.sub[x], seen[x]) {
			return
		}
		delete(seen, x)
	}
	t.Check(len(seen) == 0, key+":Apply", "Apply visited %d modules that do not belong to the model", len(seen))
	t.Check(values == wantValues, key+":Apply", "Apply visited %d models held by value, want %d", values, wantValues)
	// zeroing
	other := nn.NewParam(f64.mkScalar(1, false))
	other.AccGrad(f64.mkScalar(1, false))
	vals := make([]*M, len(g.params))
	for i, p := range g.params {
		if t.R.P(0.7) {
			p.AccGrad(f64.mk(newM(p.Shape()[0], p.Shape()[1]), false))
		}
		vals[i] = toM(p)
	}
	nn.ZeroGrad(m)
	for i, p := range g.params {
		if !t.Check(!p.HasGrad() && isNilT(p.Grad()), key+":ZeroGrad", "the parameter at %s has a gradient after ZeroGrad", g.where[p]) ||
			!t.Check(sameM(toM(p), vals[i]), key+":ZeroGrad", "ZeroGrad changed the value of the parameter at %s", g.where[p]) {
			return
		}
	}
	t.Check(other.HasGrad(), key+":ZeroGrad", "ZeroGrad cleared a foreign parameter")
	t.Event("structures", 1)
	t.Seen(len(g.params), len(g.models), g.kinds, fmt.Sprint(len(g.where)))
	t.Sample("structure with %d parameters, %d modules, %d populated fields", len(g.params), len(g.models), g.kinds)
}

// travLayer checks that a layer of the library exposes exactly its parameters.
func travLayer(t *T, spec netSpec) {
	n := spec.gen(t, f64)
	if n == nil || n.model == nil {
		return
	}
	want := map[*nn.Param]bool{}
	for _, p := range n.params {
		want[p] = true
	}
	seen := map[*nn.Param]int{}
	nn.ForEachParam(n.model, func(p *nn.Param) { seen[p]++ })
	streamed := map[*nn.Param]int{}
	for p := range nn.Parameters(n.model)(context.Background()) {
		streamed[p]++
	}
	for i, p := range n.params {
		if !t.Check(seen[p] == 1 && streamed[p] == 1, "traversal:layer:"+spec.name, "parameter %d of %s is visited %d times and listed %d times", i, n.desc, seen[p], streamed[p]) {
			return
		}
	}
	for p := range seen {
		t.Check(want[p], "traversal:layer:"+spec.name, "%s: a parameter of shape %v is visited that the layer does not use", n.desc, p.Shape())
	}
	modules := 0
	nn.Apply(n.model, func(m nn.Model) { modules++ })
	t.Check(modules >= 1, "traversal:layer:"+spec.name, "Apply visits no module")
	for _, p := range n.params {
		p.AccGrad(f64.mk(newM(p.Shape()[0], p.Shape()[1]), false))
	}
	nn.ZeroGrad(n.model)
	for i, p := range n.params {
		if !t.Check(!p.HasGrad(), "traversal:layer:"+spec.name, "parameter %d of %s has a gradient after ZeroGrad", i, n.desc) {
			return
		}
	}
	t.Event("layers", 1)
	t.Event("parameters visited", len(n.params))
	t.Seen(spec.name, n.desc)
}

func allSpecs() []netSpec {
	var s []netSpec
	for _, k := range cellKinds {
		s = append(s, cellSpec(k))
	}
	s = append(s, birnnSpec, bibiSpec, slstmSpec, crfSpec)
	for _, f := range [][]netSpec{ffSpecs, normSpecs, attSpecs, convSpecs} {
		s = append(s, f...)
	}
	return s
}

func init() {
	register(&Property{
		ID:    "P13",
		Boost: 8,
		Rule: "models of randomly populated structure (parameters and sub-models in pointers, interfaces, values, slices, arrays, string and int maps, sync maps, nested containers, custom traversers; absent and foreign entries anywhere; shared parameters): " +
			"ForEachParam, ForEachParamStrict, Parameters, StreamParams, Apply visit exactly what was planted, once; ZeroGrad leaves no gradient; cancelled listings end; the library's own layers expose exactly their parameters",
		Phases: []Phase{
			{Name: "structures", Shards: 8, Run: func(c *C) {
				for i := 0; i < c.N(4000, 200000); i++ {
					c.Case(fmt.Sprint("plain/", i), func(t *T) { travCase(t, false) })
				}
				for i := 0; i < c.N(1500, 60000); i++ {
					c.Case(fmt.Sprint("tied/", i), func(t *T) { travCase(t, true) })
				}
			}, MinEvents: map[string]int64{"views": 100, "large containers": 50, "structures": 100, "parameters visited": 1000}},
			{Name: "layers", Shards: 4, Run: func(c *C) {
				for _, s := range allSpecs() {
					for i := 0; i < c.N(40, 1000); i++ {
						c.Case(fmt.Sprintf("%s/%d", s.name, i), func(t *T) { travLayer(t, s) })
					}
				}
			}, MinEvents: map[string]int64{"layers": 100}},
		},
	})
}

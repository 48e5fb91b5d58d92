package main

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/sqrdist"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/adagrad"
	"github.com/nlpodyssey/spago/optimizers/adam"
	"github.com/nlpodyssey/spago/optimizers/lamb"
	"github.com/nlpodyssey/spago/optimizers/radam"
	"github.com/nlpodyssey/spago/optimizers/rmsprop"
	"github.com/nlpodyssey/spago/optimizers/sgd"
)

// holder keeps models behind interfaces, the way larger models do.
type holder struct {
	nn.Module
	M    nn.Model
	L    nn.ModuleList[nn.StandardModel]
	N    int
	X    mat.Tensor
	Name string
}

// snap lists everything a model consists of: one line per parameter, tensor
// and exported field. grads tells whether gradients are included.
type snap struct {
	lines []string
	grads bool
}

func (s *snap) add(path, f string, args ...any) {
	s.lines = append(s.lines, path+" "+fmt.Sprintf(f, args...))
}

func (s *snap) tensor(path string, m mat.Tensor) {
	s.add(path, "%T %v requires-grad=%v %x", m, m.Shape(), m.RequiresGrad(), bitsOf(m))
	if s.grads && m.HasGrad() {
		s.add(path+".grad", "%x", bitsOf(m.Grad()))
	}
}

func (s *snap) walk(path string, v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			s.add(path, "nil")
			return
		}
		s.walk(path, v.Elem())
		return
	case reflect.Ptr:
		if v.IsNil() {
			s.add(path, "nil")
			return
		}
		switch x := v.Interface().(type) {
		case *mat.Dense[float32]:
			s.tensor(path, x)
			return
		case *mat.Dense[float64]:
			s.tensor(path, x)
			return
		}
		s.add(path, "%s", v.Type())
		s.walk(path, v.Elem())
		return
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				s.walk(path+"."+f.Name, v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Len() == 0 {
			s.add(path, "empty")
		}
		for i := 0; i < v.Len(); i++ {
			s.walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i))
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			s.walk(fmt.Sprintf("%s{%v}", path, k), v.MapIndex(k))
		}
	case reflect.Float64, reflect.Float32:
		s.add(path, "%x", math.Float64bits(v.Float()))
	case reflect.Func, reflect.Chan:
	default:
		s.add(path, "%v", v.Interface())
	}
}

func snapshot(m any, grads bool) []string {
	s := &snap{grads: grads}
	s.walk("", reflect.ValueOf(m))
	return s.lines
}

// diffSnap describes the first difference.
func diffSnap(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Sprintf("missing %.300s", want[i])
		case i >= len(want):
			return fmt.Sprintf("unexpected %.300s", got[i])
		case got[i] != want[i]:
			return fmt.Sprintf("%.300s\nwant %.300s", got[i], want[i])
		}
	}
	return ""
}

// dumpInto saves a model and loads it back in one of the ways there are.
func dumpInto(t *T, m nn.Model) (nn.Model, []byte, error) {
	var buf bytes.Buffer
	file := ""
	if t.R.P(0.1) {
		d, err := os.MkdirTemp("", "dump")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(d)
		file = filepath.Join(d, "model")
		if t.R.Bool() { // an older, longer file is replaced
			if err := os.WriteFile(file, bytes.Repeat([]byte{0xab}, 1<<16), 0o600); err != nil {
				panic(err)
			}
		}
	}
	if t.R.Bool() { // behind an interface
		h := &holder{M: m}
		if file != "" {
			if err := nn.DumpToFile(h, file); err != nil {
				return nil, nil, err
			}
			t.Event("files", 1)
			l, err := nn.LoadFromFile[*holder](file)
			if err != nil {
				return nil, nil, err
			}
			return l.M, nil, nil
		}
		if err := nn.Dump(h, &buf); err != nil {
			return nil, nil, err
		}
		l, err := nn.Load[holder](&buf)
		return l.M, nil, err
	}
	out := reflect.New(reflect.TypeOf(m).Elem())
	if file != "" {
		if err := nn.DumpToFile(m, file); err != nil {
			return nil, nil, err
		}
		t.Event("files", 1)
		data, err := os.ReadFile(file)
		if err != nil {
			return nil, nil, err
		}
		buf.Write(data)
	} else if err := nn.Dump(m, &buf); err != nil {
		return nil, nil, err
	}
	data := append([]byte(nil), buf.Bytes()...)
	if err := gob.NewDecoder(&buf).DecodeValue(out); err != nil {
		return nil, nil, err
	}
	if buf.Len() != 0 {
		return nil, nil, fmt.Errorf("%d bytes left behind the model", buf.Len())
	}
	return out.Interface().(nn.Model), data, nil
}

func paramsOf(m nn.Model) []*nn.Param {
	var ps []*nn.Param
	nn.ForEachParam(m, func(p *nn.Param) { ps = append(ps, p) })
	return ps
}

// dressUp gives the parameters of a model random values, flags and states.
func dressUp(t *T, m nn.Model, dt dtype, hostile, state bool) {
	for _, p := range paramsOf(m) {
		v := p.Value().(mat.Matrix)
		r, c := v.Shape()[0], v.Shape()[1]
		if hostile {
			raw := rawMat(t.R, dt, r, c, false)
			if dt == f32 {
				mat.SetData[float32](v, raw.Data().F32())
			} else {
				mat.SetData[float64](v, raw.Data().F64())
			}
		} else {
			setParam(p, dt.quantM(t.randM(r, c, -1, 1)), dt)
		}
		if t.R.P(0.2) {
			p.SetRequiresGrad(!p.RequiresGrad())
		}
		if t.R.P(0.2) {
			p.AccGrad(dt.mk(t.randM(r, c, -1, 1), false))
		}
		if state && t.R.Bool() {
			ms := func() mat.Matrix { return rawMat(t.R, dt, r, c, false) }
			switch t.R.Intn(8) {
			case 0:
				p.State = &adam.State{V: ms(), M: ms(), Buf1: ms(), Buf2: ms(), Buf3: ms()}
			case 1:
				p.State = &sgd.State{V: ms(), Buf: ms(), VPrev: ms(), VTmp: ms()}
			case 2:
				p.State = &adagrad.State{M: ms()}
			case 3:
				p.State = &rmsprop.State{V: ms()}
			case 4:
				p.State = &radam.State{V: ms(), M: ms(), Buf1: ms(), Buf2: ms(), Buf3: ms()}
			case 5:
				p.State = &lamb.State{V: ms(), M: ms(), Buf1: ms(), Buf2: ms(), Buf3: ms()}
			case 6:
				p.State = []mat.Matrix{ms(), ms()}
			case 7:
				p.State = []mat.Tensor{ms()}
			}
		}
	}
}

// plainSpecs are the models without parameters.
var plainSpecs = []netSpec{
	{"activation", func(t *T, dt dtype) *netInst {
		m := activation.New(activation.Activation(t.R.Intn(14)))
		return &netInst{model: m, desc: fmt.Sprintf("%+v", m)}
	}},
	{"dropout", func(t *T, dt dtype) *netInst {
		m := dropout.New(t.R.Uni(0, 1))
		return &netInst{model: m, desc: fmt.Sprintf("%+v", m)}
	}},
	{"flatten", func(t *T, dt dtype) *netInst {
		m := flatten.New()
		return &netInst{model: m, desc: fmt.Sprintf("%+v", m)}
	}},
	{"pooling", func(t *T, dt dtype) *netInst {
		m := pooling.NewMax(t.R.Range(1, 9), t.R.Range(1, 9))
		return &netInst{model: m, desc: fmt.Sprintf("%+v", m)}
	}},
	{"sqrdist", func(t *T, dt dtype) *netInst {
		n, k := t.R.Range(1, 5), t.R.Range(1, 5)
		var m *sqrdist.Model
		if dt == f32 {
			m = sqrdist.New[float32](n, k)
		} else {
			m = sqrdist.New[float64](n, k)
		}
		return &netInst{model: m, desc: fmt.Sprint("sqrdist ", n, k)}
	}},
	{"embeddings", func(t *T, dt dtype) *netInst {
		m := newEmbModel(dt, t.R.Range(1, 8), t.R.Range(1, 5))
		return &netInst{model: m, desc: "embeddings"}
	}},
}

var listSpec = netSpec{"list", func(t *T, dt dtype) *netInst {
	h := &holder{N: t.R.Range(-5, 5), Name: "x", X: dt.mk(t.randM(2, 2, -1, 1), t.R.Bool())}
	fillList(t, dt, h, 3)
	return &netInst{model: h, desc: "a list of models"}
}}

func init() { gob.Register(&holder{}) }

func (h *holder) Forward(xs ...mat.Tensor) []mat.Tensor { return h.L.Forward(xs...) }

// fillList nests random models.
func fillList(t *T, dt dtype, h *holder, depth int) {
	specs := append(allSpecs(), plainSpecs...)
	for n := t.R.Range(0, 4); n > 0; n-- {
		if depth > 0 && t.R.P(0.3) {
			s := &holder{N: n}
			fillList(t, dt, s, depth-1)
			h.L = append(h.L, s)
			continue
		}
		in := specs[t.R.Intn(len(specs))].gen(t, dt)
		if in == nil {
			continue
		}
		if m, ok := in.model.(nn.StandardModel); ok && reflect.TypeOf(m).Kind() == reflect.Ptr {
			h.L = append(h.L, m)
		} else if in.model != nil && reflect.TypeOf(in.model).Kind() == reflect.Ptr {
			h.M = in.model
		}
	}
}

// dumpCase: a model survives the round trip.
func dumpCase(t *T, spec netSpec, dt dtype) {
	seed := t.R.U64()
	outer := t.R
	gen := func() *netInst {
		t.R = NewRng(seed)
		defer func() { t.R = outer }()
		return spec.gen(t, dt)
	}
	a, b := gen(), gen()
	if a == nil || a.model == nil || reflect.TypeOf(a.model).Kind() != reflect.Ptr {
		return
	}
	if a.desc != b.desc {
		panic("generation is not reproducible: " + a.desc + " / " + b.desc)
	}
	key := "dump:" + spec.name
	hostile := t.R.P(0.3)
	if !a.keepParams || hostile {
		dressUp(t, a.model, dt, hostile, t.R.P(0.5))
	}
	if e, ok := a.model.(*embedding.Model); ok { // traversal is limited to gradients
		for _, w := range e.Weights {
			setParam(w, dt.quantM(t.randM(e.Dim, 1, -1, 1)), dt)
		}
	}
	before := snapshot(a.model, true)
	m, data, err := dumpInto(t, a.model)
	if err != nil {
		t.Fail(key+":error", "%s %s: %v", dt, a.desc, err)
		return
	}
	if d := diffSnap(snapshot(a.model, true), before); !t.Check(d == "", key+":changed", "%s %s: saving changed the model: %s", dt, a.desc, d) {
		return
	}
	got, want := snapshot(m, true), snapshot(a.model, false)
	if d := diffSnap(got, want); !t.Check(d == "", key+":fields", "%s %s: loaded model differs: %s", dt, a.desc, d) {
		return
	}
	t.Event("entries compared", len(want))
	// the sub-models, on their own
	if t.R.P(0.2) {
		nn.Apply(a.model, func(s nn.Model) {
			if _, ok := s.(nn.StandardModel); !ok || t.Failed() || reflect.TypeOf(s).Kind() != reflect.Ptr {
				return
			}
			l, _, err := dumpInto(t, s)
			if err != nil {
				t.Fail(key+":sub-model", "%s %s: sub-model %T: %v", dt, a.desc, s, err)
				return
			}
			d := diffSnap(snapshot(l, true), snapshot(s, false))
			t.Check(d == "", key+":sub-model", "%s %s: sub-model %T: %s", dt, a.desc, s, d)
			t.Event("sub-models", 1)
		})
	}
	if t.Failed() {
		return
	}
	// the original and what was loaded are independent
	ps, ls := paramsOf(a.model), paramsOf(m)
	if _, emb := a.model.(*embedding.Model); !emb && spec.name != "list" {
		if !t.Check(len(ps) == len(ls), key+":fields", "%s: %d parameters loaded, want %d", a.desc, len(ls), len(ps)) {
			return
		}
	}
	// outputs
	if a.fwd != nil && !hostile {
		bv, mv := reflect.ValueOf(b.model), reflect.ValueOf(m)
		if bv.Type() != mv.Type() {
			t.Fail(key+":fields", "loaded a %s", mv.Type())
			return
		}
		run := func(n *netInst) (ys []mat.Tensor, xs []mat.Tensor) {
			for _, x := range n.xs {
				xs = append(xs, dt.mk(x, true))
			}
			ys = n.fwd(xs...)
			for _, y := range ys {
				y.Value()
			}
			return
		}
		bv.Elem().Set(mv.Elem())
		nn.ZeroGrad(a.model)
		ya, xa := run(a)
		yb, xb := run(b)
		if !t.Check(len(ya) == len(yb), key+":outputs", "%d outputs, want %d", len(yb), len(ya)) {
			return
		}
		for i := range ya {
			if d := diffMat(yb[i].Value(), ya[i].Value()); !t.Check(d == "", key+":outputs", "%s %s: output %d: %s", dt, a.desc, i, d) {
				return
			}
			t.Event("outputs compared", 1)
		}
		// gradients flow in the loaded model as in the original
		if len(ya) > 0 {
			one := func(y mat.Tensor) { g := y.Value().(mat.Matrix); y.AccGrad(g.OnesLike()) }
			req := false
			for i := range ya {
				if ya[i].RequiresGrad() != yb[i].RequiresGrad() {
					t.Fail(key+":gradients", "%s: output %d requires gradients: %v, want %v", a.desc, i, yb[i].RequiresGrad(), ya[i].RequiresGrad())
					return
				}
				if _, ok := ya[i].(*ag.Operator); ok && ya[i].RequiresGrad() {
					one(ya[i])
					one(yb[i])
					req = true
				}
			}
			if req {
				ea, eb := ag.Backward(opsOnly(ya)...), ag.Backward(opsOnly(yb)...)
				if !t.Check(ea == nil && eb == nil, key+":gradients", "Backward: %v, %v", ea, eb) {
					return
				}
				pa, pb := paramsOf(a.model), paramsOf(b.model)
				for i := range pa {
					same := pa[i].HasGrad() == pb[i].HasGrad()
					if same && pa[i].HasGrad() {
						// concurrent accumulation orders may differ
						same = diffM(toM(pb[i].Grad()), toM(pa[i].Grad()), gradOrderTol(dt), toM(pa[i].Grad()).maxAbs()+1) == ""
					}
					if !t.Check(same, key+":gradients", "%s %s: parameter %d: gradients of the loaded model differ", dt, a.desc, i) {
						return
					}
				}
				for i := range xa {
					if !t.Check(xa[i].HasGrad() == xb[i].HasGrad(), key+":gradients", "%s: input %d", a.desc, i) {
						return
					}
				}
				t.Event("gradients compared", len(pa))
			}
		}
	}
	// truncation
	if data != nil && len(data) < 6000 && t.R.P(0.1) {
		typ := reflect.TypeOf(a.model).Elem()
		for k := 0; k < len(data); k++ {
			if len(data) > 500 && t.R.P(0.8) {
				continue
			}
			var err error
			if p := panics(func() { err = gob.NewDecoder(bytes.NewReader(data[:k])).DecodeValue(reflect.New(typ)) }); p != nil {
				t.Fail(key+":truncated", "%s: loading the first %d of %d bytes panics: %v", a.desc, k, len(data), p)
				return
			}
			if !t.Check(err != nil, key+":truncated", "%s: loading the first %d of %d bytes succeeds", a.desc, k, len(data)) {
				return
			}
			t.Event("truncations", 1)
		}
	}
	t.Checked(1)
	t.Seen(spec.name, dt, a.desc, len(want))
	t.Sample("%s %s %s: %d entries, %d parameters", spec.name, dt, a.desc, len(want), len(ps))
}

func gradOrderTol(dt dtype) float64 {
	if dt == f32 {
		return 1e-4
	}
	return 1e-11
}

func opsOnly(ys []mat.Tensor) []mat.Tensor {
	var o []mat.Tensor
	for _, y := range ys {
		if _, ok := y.(*ag.Operator); ok && y.RequiresGrad() {
			o = append(o, y)
		}
	}
	return o
}

// reload saves a strategy and loads it back.
func reload(o optimizers.OptimizationStrategy) (optimizers.OptimizationStrategy, error) {
	switch x := o.(type) {
	case *adam.Adam:
		return reloadAs(x)
	case *sgd.SGD[float32]:
		return reloadAs(x)
	case *sgd.SGD[float64]:
		return reloadAs(x)
	case *adagrad.AdaGrad[float32]:
		return reloadAs(x)
	case *adagrad.AdaGrad[float64]:
		return reloadAs(x)
	case *rmsprop.RMSProp[float32]:
		return reloadAs(x)
	case *rmsprop.RMSProp[float64]:
		return reloadAs(x)
	case *radam.RAdam[float32]:
		return reloadAs(x)
	case *radam.RAdam[float64]:
		return reloadAs(x)
	case *lamb.Lamb[float32]:
		return reloadAs(x)
	case *lamb.Lamb[float64]:
		return reloadAs(x)
	}
	panic(fmt.Sprintf("reload: %T", o))
}

func reloadAs[S optimizers.OptimizationStrategy](x S) (optimizers.OptimizationStrategy, error) {
	var buf bytes.Buffer
	if err := nn.Dump(x, &buf); err != nil {
		return nil, err
	}
	return nn.Load[S](&buf)
}

// advance tells a strategy that a step is over.
func advance(o any) {
	switch x := o.(type) {
	case interface{ IncExample() }:
		x.IncExample()
	case interface{ IncBatch() }:
		x.IncBatch()
	case interface{ IncEpoch() }:
		x.IncEpoch()
	}
}

// trainParams lists the parameters to train; those of embeddings have no
// gradients yet, so that the traversal does not list them.
func trainParams(m nn.Model) []*nn.Param {
	ps := paramsOf(m)
	nn.Apply(m, func(s nn.Model) {
		if e, ok := s.(*embedding.Model); ok {
			ps = append(ps, e.Weights...)
		}
	})
	return ps
}

// resumeCase: training interrupted by saving and loading continues as if it
// had not been interrupted.
func resumeCase(t *T, spec netSpec, rule string, dt dtype) {
	n := spec.gen(t, dt)
	if n == nil || n.model == nil || reflect.TypeOf(n.model).Kind() != reflect.Ptr {
		return
	}
	if len(trainParams(n.model)) == 0 {
		return
	}
	dressUp(t, n.model, dt, false, false)
	nn.ZeroGrad(n.model)
	a := n.model
	key := "resume:" + rule
	oa := newRule(t, rule, dt).strategy
	if t.R.P(0.15) { // an AdamW without decay, and the like
		switch o := oa.(type) {
		case *adam.Adam:
			oa = adam.New(adam.NewConfig(0.01, 0.9, 0.99, 1e-8))
			_ = o
		}
	}
	b, ob := a, oa
	split := false
	resave := func() bool {
		m, _, err := dumpInto(t, b)
		if err != nil {
			t.Fail(key+":error", "%s: %v", n.desc, err)
			return false
		}
		b = m
		if ob, err = reload(ob); err != nil {
			t.Fail(key+":error", "%s: %T: %v", n.desc, oa, err)
			return false
		}
		split = true
		t.Event("interruptions", 1)
		return true
	}
	steps := t.R.Range(2, 8)
	saveAt := t.R.Intn(steps)
	for s := 0; s < steps; s++ {
		if s == saveAt || s > saveAt && t.R.P(0.2) {
			if !resave() {
				return
			}
		}
		pa := trainParams(a)
		pb := pa
		if split {
			pb = trainParams(b)
			if !t.Check(len(pa) == len(pb), key+":parameters", "%s: %d parameters after loading, want %d", n.desc, len(pb), len(pa)) {
				return
			}
		}
		for i := range pa {
			if t.R.P(0.3) {
				continue
			}
			v := pa[i].Value().(mat.Matrix)
			g := dt.mk(t.randM(v.Shape()[0], v.Shape()[1], -1, 1), false)
			pa[i].AccGrad(g)
			if split {
				pb[i].AccGrad(g)
			}
		}
		step := func(ps []*nn.Param, o optimizers.OptimizationStrategy) error {
			return optimizers.New(nn.StreamParams(ps), o).Optimize()
		}
		if err := step(pa, oa); err != nil {
			t.Fail(key+":error", "%s: %v", n.desc, err)
			return
		}
		tick := t.R.P(0.8)
		if tick {
			advance(oa)
		}
		if split {
			if err := step(pb, ob); err != nil {
				t.Fail(key+":error", "%s: after loading: %v", n.desc, err)
				return
			}
			if tick {
				advance(ob)
			}
			if d := diffSnap(snapshot(b, true), snapshot(a, true)); !t.Check(d == "", key+":trajectory", "%s %s with %T: step %d after saving at step %d: %s", dt, n.desc, oa, s, saveAt, d) {
				return
			}
			if d := diffSnap(snapshot(ob, true), snapshot(oa, true)); !t.Check(d == "", key+":strategy", "%T: %s", oa, d) {
				return
			}
			t.Event("steps compared", 1)
		}
	}
	t.Checked(1)
	t.Seen(spec.name, rule, dt, steps, saveAt)
	t.Sample("%s %s with %T: %d steps, saved at %d", spec.name, n.desc, oa, steps, saveAt)
}

// limitWriter fails after n bytes.
type limitWriter struct {
	n   int
	err error
	got int
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if len(p) > w.n-w.got {
		k := max(w.n-w.got, 0)
		w.got += k
		return k, w.err
	}
	w.got += len(p)
	return len(p), nil
}

// limitReader fails after its data.
type limitReader struct {
	io.Reader
	err error
}

func (r *limitReader) Read(p []byte) (int, error) {
	n, err := r.Reader.Read(p)
	if err == io.EOF {
		err = r.err
	}
	return n, err
}

type unregistered struct{ X int }

// dumpFaults: what goes wrong is reported.
func dumpFaults(t *T) {
	dt := []dtype{f32, f64}[t.R.Intn(2)]
	h := &holder{X: dt.mk(t.randM(t.R.Range(1, 30), t.R.Range(1, 40), -1, 1), false)}
	for len(h.L) == 0 {
		fillList(t, dt, h, 1)
	}
	before := snapshot(h, true)
	defer func() {
		if d := diffSnap(snapshot(h, true), before); d != "" {
			t.Fail("fault:changed", "a failing dump changed the model: %s", d)
		}
	}()
	var buf bytes.Buffer
	if err := nn.Dump(h, &buf); err != nil {
		t.Fail("fault:error", "%v", err)
		return
	}
	data := buf.Bytes()
	fault := errors.New("fault")
	for k := 0; k < 12; k++ {
		n := t.R.Intn(len(data))
		w := &limitWriter{n: n, err: fault}
		var err error
		if p := panics(func() { err = nn.Dump(h, w) }); p != nil {
			t.Fail("fault:write-panic", "a write failing after %d of %d bytes makes Dump panic: %v", n, len(data), p)
			return
		}
		if !t.Check(errors.Is(err, fault), "fault:write", "a write failing after %d of %d bytes: Dump returns %v", n, len(data), err) {
			return
		}
		t.Event("failing writes", 1)
		// a broken stream
		n = t.R.Intn(len(data))
		var r io.Reader = bytes.NewReader(data[:n])
		if t.R.Bool() {
			r = &limitReader{r, fault}
		}
		var got *holder
		if p := panics(func() { got, err = nn.Load[*holder](r) }); p != nil {
			t.Fail("fault:read-panic", "a stream broken after %d of %d bytes makes Load panic: %v", n, len(data), p)
			return
		}
		_ = got
		if !t.Check(err != nil, "fault:read", "a stream broken after %d of %d bytes: Load succeeds", n, len(data)) {
			return
		}
		t.Event("broken streams", 1)
	}
	// a device without space
	if _, err := os.Stat("/dev/full"); err == nil {
		err := nn.DumpToFile(h, "/dev/full")
		t.Check(err != nil, "fault:full", "saving %d bytes to a full device succeeds", len(data))
		t.Event("full device", 1)
	}
	d, err := os.MkdirTemp("", "fault")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	file := filepath.Join(d, "model")
	_, err = nn.LoadFromFile[*holder](file)
	t.Check(errors.Is(err, os.ErrNotExist), "fault:missing", "loading a missing file: %v", err)
	err = nn.DumpToFile(h, filepath.Join(d, "missing", "model"))
	t.Check(errors.Is(err, os.ErrNotExist), "fault:missing", "saving into a missing folder: %v", err)
	_, err = nn.LoadFromFile[*holder](d)
	t.Check(err != nil, "fault:folder", "loading a folder succeeds")
	t.Check(nn.DumpToFile(h, d) != nil, "fault:folder", "saving onto a folder succeeds")
	if err := nn.DumpToFile(h, file); err != nil {
		t.Fail("fault:error", "%v", err)
		return
	}
	info, err := os.Stat(file)
	t.Check(err == nil && info.Size() == int64(len(data)), "fault:size", "the file has %v bytes, want %d", info.Size(), len(data))
	n := t.R.Intn(len(data))
	if err := os.Truncate(file, int64(n)); err != nil {
		panic(err)
	}
	_, err = nn.LoadFromFile[*holder](file)
	t.Check(err != nil, "fault:truncated", "loading a file truncated to %d of %d bytes succeeds", n, len(data))
	// something that cannot be saved
	h2 := &holder{L: h.L}
	if ps := paramsOf(h2); len(ps) > 0 {
		p := ps[t.R.Intn(len(ps))]
		old := p.State
		p.State = unregistered{1}
		var err error
		if pn := panics(func() { err = nn.Dump(h2, io.Discard) }); pn != nil {
			t.Fail("fault:state-panic", "saving a state of an unknown type panics: %v", pn)
		}
		t.Check(err != nil && strings.Contains(err.Error(), "unregistered"), "fault:state", "saving a state of an unknown type: %v", err)
		p.State = old
	}
	// the wrong type
	_, err = nn.Load[string](bytes.NewReader(data))
	t.Check(err != nil, "fault:type", "loading another type succeeds")
	t.Checked(1)
	t.Seen(len(data))
}

// bigModelCase saves and loads models of several megabytes.
func bigModelCase(t *T, dt dtype) {
	h := &holder{N: 7, Name: "big"}
	var want []*M
	h.M = newEmbModel(dt, t.R.Range(200, 3000), t.R.Pick(16, 33, 100))
	x := dt.quantM(t.randM(t.R.Range(200, 600), t.R.Range(200, 600), -1, 1))
	h.X = dt.mk(x, false)
	for _, p := range paramsOf(h) {
		sh := p.Value().Shape()
		m := dt.quantM(t.randM(sh[0], sh[1], -1, 1))
		setParam(p, m, dt)
		want = append(want, m)
	}
	d, err := os.MkdirTemp("", "dump")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(d)
	file := filepath.Join(d, "model")
	same := func(l *holder, err error) bool {
		if !t.Check(err == nil && l != nil, "big:error", "a large model: %v", err) {
			return false
		}
		ps := paramsOf(l)
		if !t.Check(len(ps) == len(want) && l.N == 7 && l.Name == "big", "big:parameters", "a large model of %d parameters is loaded with %d", len(want), len(ps)) {
			return false
		}
		for i, p := range ps {
			if d := diffM(toM(p), want[i], 0, 0); !t.Check(d == "" && dtypeOf(p) == dt, "big:value", "parameter %d of a large model: %s", i, d) {
				return false
			}
		}
		d := diffM(toM(l.X.(mat.Matrix)), x, 0, 0)
		return t.Check(d == "", "big:value", "a large tensor: %s", d)
	}
	if err := nn.DumpToFile(h, file); !t.Check(err == nil, "big:error", "DumpToFile: %v", err) {
		return
	}
	if !same(nn.LoadFromFile[*holder](file)) {
		return
	}
	data, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	if !same(nn.Load[*holder](iotest.OneByteReader(bytes.NewReader(data)))) {
		return
	}
	_, err = nn.Load[*holder](bytes.NewReader(data[:len(data)-t.R.Range(1, 1000)]))
	t.Check(err != nil, "big:truncated", "a truncated file of %d bytes is accepted", len(data))
	t.Event("megabytes", len(data)>>20)
	t.Event("large models", 1)
	t.Seen(dt, len(data))
}

func init() {
	register(&Property{
		ID: "P12", Boost: 2, Rule: "for every model type and configuration: bit patterns, flags, optimiser states, hyper-parameters, buffers, outputs and gradients equal before and after the round trip; twin trainings, interrupted and not, stay bit-identical; every injected failure is reported",
		Level: "real code under monitors",
		Phases: []Phase{
			{Name: "round-trips", Shards: 8, Run: func(c *C) {
				for _, s := range append(append(allSpecs(), plainSpecs...), listSpec) {
					for _, dt := range []dtype{f32, f64} {
						for i := 0; i < c.N(120, 2500); i++ {
							c.Case(fmt.Sprintf("%s/%s/%d", s.name, dt, i), func(t *T) { dumpCase(t, s, dt) })
						}
					}
				}
			}, MinEvents: map[string]int64{"entries compared": 10000, "outputs compared": 500, "gradients compared": 500, "files": 50, "sub-models": 50, "truncations": 500}},
			{Name: "resumed", Shards: 8, Run: func(c *C) {
				specs := append(allSpecs(), plainSpecs[5], listSpec)
				for _, rule := range ruleNames {
					for _, dt := range []dtype{f32, f64} {
						for i := 0; i < c.N(300, 6000); i++ {
							c.Case(fmt.Sprintf("%s/%s/%d", rule, dt, i), func(t *T) { resumeCase(t, specs[t.R.Intn(len(specs))], rule, dt) })
						}
					}
				}
			}, MinEvents: map[string]int64{"steps compared": 1000, "interruptions": 500}},
			{Name: "faults", Shards: 4, Run: func(c *C) {
				for i := 0; i < c.N(300, 5000); i++ {
					c.Case(fmt.Sprintf("fault/%d", i), dumpFaults)
				}
				for i := 0; i < c.N(6, 60); i++ {
					c.Case(fmt.Sprintf("big/%d", i), func(t *T) { bigModelCase(t, []dtype{f32, f64}[i%2]) })
				}
			}, MinEvents: map[string]int64{"failing writes": 300, "broken streams": 300, "full device": 10}},
		},
	})
}

package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	nn "github.com/cubeflix/nn"
)

func init() { drivers["C19"] = driveC19 }

// digest replaces what is too long for a trace.
func digest(d Ev) interface{} {
	b, err := json.Marshal(d)
	must(err)
	if len(b) < 6000 {
		return d
	}
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

func small(m *nn.Model) bool {
	c := 0
	for _, l := range m.Layers {
		y := wrap(l)
		c += (y.in + 1) * y.out
	}
	return c < 300
}

func parIfSmall(m *nn.Model) []interface{} {
	if small(m) {
		return parOf(m)
	}
	return []interface{}{}
}

// reload saves and loads a model, through a buffer or a file.
func reload(g Rng, m *nn.Model, times int) (_ nn.Model, saved bool, _ error) {
	cur := *m
	for q := 0; q < times; q++ {
		var err error
		if g.Intn(2) == 0 {
			f := filepath.Join(*tmp, fmt.Sprintf("reload%d.nn", g.Intn(3)))
			if err = nn.SaveFile(&cur, f); err == nil {
				saved = true
				cur, err = nn.LoadFile(f)
			}
		} else {
			var buf bytes.Buffer
			if g.Intn(2) == 0 {
				buf.WriteString("something else")
				buf.Next(14)
			}
			s := nn.NewSavedModelData(cur)
			if err = s.Serialize(&buf); err == nil {
				saved = true
				cur, err = nn.LoadModel(&buf)
			}
		}
		if err != nil {
			return cur, saved, err
		}
	}
	return cur, saved, nil
}

func scores(m *nn.Model, d dataset) []string {
	l, err := m.CalculateLoss(d.X, d.Y)
	if err != nil {
		return []string{"err"}
	}
	a, err := m.CalculateAccuracy(d.X, d.Y)
	if err != nil {
		return []string{"err"}
	}
	return []string{num(l), num(a)}
}

func outputs(m *nn.Model, X M) M {
	outs, err := m.Forward(X, false)
	if err != nil || len(outs) == 0 {
		return M{}
	}
	return outs[len(outs)-1]
}

// load makes another run of what is saved of a run.
func (t *tt) load(g Rng, name, base string, of *trun, d dataset, times int) *trun {
	x := &trun{name: name}
	t.r.Track("loadX", d.X)
	e := t.r.Call("load", Ev{"run": name, "of": of.name, "base": base, "was": digest(descModel(of.m)), "pwas": mj(outputs(of.m, d.X)), "swas": scores(of.m, d), "deep": len(of.m.Layers)}, func(e Ev) error {
		m, saved, err := reload(g, of.m, times)
		e["saved"] = saved
		if err != nil {
			return err
		}
		x.m = &m
		e["par"], e["desc"], e["pred"], e["score"] = parIfSmall(&m), digest(descModel(&m)), mj(outputs(&m, d.X)), scores(&m, d)
		return nil
	})
	t.r.Untrack("loadX")
	if e["st"] != "ok" {
		return nil
	}
	t.runs[name] = x
	t.watch(x)
	return x
}

// mut overwrites parameters of one run.
func (t *tt) mut(g Rng, x *trun) {
	t.r.Call("mut", Ev{"run": x.name, "mine": t.names(x)}, func(Ev) error {
		for _, l := range x.m.Layers {
			y := wrap(l)
			y.set(g.dyM(y.in, y.out), g.dyM(1, y.out))
		}
		return nil
	})
}

// of is the architecture with the current parameters of a model.
func (a arch) of(m *nn.Model) arch {
	b := a
	b.W, b.B = nil, nil
	for _, l := range m.Layers {
		y := wrap(l)
		b.W, b.B = append(b.W, cp(y.w())), append(b.B, cp(y.b()))
	}
	return b
}

func driveC19(r *Rec) {
	g := NewRng(*seed)
	for k, p := range trainPrograms() {
		a := randArch(g)
		t := newTt(r, fmt.Sprintf("program %d", k), a)
		t.datasets(g, p)
		t.reference(p)
		d := a.data(g, 1+g.Intn(4))
		x := t.start("F", "a", true)
		f := p.Fits[0]
		t.fit(g, x, f.D, f.E, f.B, 0, 0, "")
		one := t.load(g, "L", "b", x, d, 1+g.Intn(3))
		if one == nil {
			r.End()
			continue
		}
		if len(p.Fits) > 1 {
			t.fit(g, x, p.Fits[1].D, p.Fits[1].E, p.Fits[1].B, 0, 0, "")
		}
		ref := &trun{name: "R", m: a.of(one.m).build(true)}
		t.begin(ref, "b", true)
		for _, b := range p.Steps {
			t.step(ref, b)
		}
		t.fit(g, one, f.D, f.E, f.B, g.Intn(4), g.Intn(2), "")
		two := t.load(g, "M", "c", one, d, 1)
		if len(p.Fits) > 1 {
			t.fit(g, one, p.Fits[1].D, p.Fits[1].E, p.Fits[1].B, 0, 0, "")
		}
		if two != nil && k%2 == 0 {
			ref := &trun{name: "S", m: a.of(two.m).build(true)}
			t.begin(ref, "c", true)
			for _, b := range p.Steps {
				t.step(ref, b)
			}
			for _, f := range p.Fits {
				t.fit(g, two, f.D, f.E, f.B, 0, 0, "")
			}
		}
		r.End()
	}
	// arbitrary values and sizes
	models := func(name string, m *nn.Model) {
		t := newTt(r, name, arch{})
		x := &trun{name: "F", m: m}
		t.runs["F"] = x
		t.watch(x)
		r.Note("start", Ev{"run": "F", "base": "a", "in": m.InputSize, "out": m.OutputSize, "ready": true, "par": parIfSmall(m)})
		d := dataset{g.reM(1+g.Intn(3), m.InputSize, 1), M{}}
		d.Y = g.reM(d.X.Rows, m.OutputSize, 1)
		one := t.load(g, "L", "b", x, d, 1)
		two := t.load(g, "M", "c", x, d, 1+g.Intn(3))
		if one != nil && two != nil {
			t.mut(g, x)
			t.mut(g, one)
			t.mut(g, two)
		}
		r.End()
	}
	for rep := 0; rep < n(150, 3000); rep++ {
		models("arbitrary", storedModel(g, 1+g.Intn(5), 5))
	}
	for _, depth := range []int{16, 63, 64, 100, 126, 127, 128, 200, 255, 256, 257} {
		models("deep", storedModel(g, depth, 2))
	}
	for _, w := range []int{127, 128, 255, 256, 257, 300, 1000} {
		for _, sh := range [][2]int{{w, 1}, {1, w}, {w, 3}} {
			m := nn.NewModel()
			must(m.AddLayer(storedLayer(g, sh[0], sh[1]).l))
			must(m.AddLayer(storedLayer(g, sh[1], 2).l))
			loss, err := newLoss(lossKinds[g.Intn(4)], 2)
			must(err)
			o, err := newOpt("adam", anyHyper(g, "adam"))
			must(err)
			must(m.Finalize(loss, o, nn.AccuracyType(g.Intn(3)), 0.1))
			models("wide", &m)
		}
	}
	// layers
	for rep := 0; rep < n(200, 4000); rep++ {
		in, out := 1+g.Intn(6), 1+g.Intn(6)
		switch rep % 20 {
		case 0:
			in = []int{256, 300, 65536, 70000}[g.Intn(4)]
		case 1:
			out = []int{256, 300, 65536, 70000}[g.Intn(4)]
		}
		y := storedLayer(g, in, out)
		r.Begin("layer " + y.kind)
		m := &nn.Model{Layers: []nn.Layer{y.l}}
		x := &trun{name: "F", m: m}
		t := &tt{r: r, runs: map[string]*trun{}}
		t.watch(x)
		X := g.reM(1+g.Intn(3), in, 1)
		fwd := func(l nn.Layer) (M, error) {
			if d, ok := l.(*nn.DropoutLayer); ok {
				return d.ForwardNoDropout(X)
			}
			return l.Forward(X)
		}
		show := func(l nn.Layer) (Ev, error) { // outputs of wide layers as digests
			o, err := fwd(l)
			if err != nil {
				return nil, err
			}
			if o.Rows*o.Cols < 200 {
				return Ev{"m": mj(o)}, nil
			}
			return Ev{"m": Ev{"r": 0, "c": 0, "m": [][]string{}}, "d": digest(Ev{"o": mj(o)})}, nil
		}
		var l nn.Layer = y.l
		before, err := show(l)
		must(err)
		was := Ev{"l": digest(descLayer(l)), "o": before["d"]}
		if before["d"] == nil {
			delete(was, "o")
		}
		for q := 0; q < 1+g.Intn(3); q++ {
			var got nn.Layer
			e := r.Call("loadlayer", Ev{"was": was, "pwas": before["m"]}, func(e Ev) (err error) {
				var buf bytes.Buffer
				s := nn.NewSavedLayerData(l)
				if err = s.SerializeLayer(&buf); err != nil {
					return
				}
				if got, err = nn.LoadLayer(&buf); err != nil {
					return
				}
				o, bad := show(got)
				if bad != nil {
					return bad
				}
				desc := Ev{"l": digest(descLayer(got)), "o": o["d"]}
				if o["d"] == nil {
					delete(desc, "o")
				}
				e["desc"], e["pred"] = desc, o["m"]
				return
			})
			if e["st"] != "ok" {
				break
			}
			l = got
			z := &trun{name: fmt.Sprint("L", q), m: &nn.Model{Layers: []nn.Layer{got}}}
			t.watch(z)
			if g.Intn(2) == 0 {
				t.mut(g, x)
			}
		}
		r.End()
	}
	for _, rate := range []float64{0.5, 0.2, 0.9} {
		for q := 0; q < n(2, 10); q++ {
			drops(r, g, rate, q%3, false, true)
		}
	}
	dfits(r, g, false, true)
	os.Remove(filepath.Join(*tmp, "reload0.nn"))
}

package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"
)

func init() {
	drivers["C09"] = func(r *Rec) { driveRule(r, "sgd") }
	drivers["C10"] = func(r *Rec) { driveRule(r, "adam") }
	drivers["C11"] = driveC11
}

// hyper are the hyperparameters of an optimizer of either kind.
type hyper struct{ rate, decay, mom, eps, b1, b2 float64 }

func (h hyper) js() Ev {
	return Ev{"rate": num(h.rate), "decay": num(h.decay), "mom": num(h.mom), "eps": num(h.eps), "b1": num(h.b1), "b2": num(h.b2)}
}

func (h hyper) values(kind string) map[string]float64 {
	if kind == "sgd" {
		return map[string]float64{"learningRate": h.rate, "decay": h.decay, "momentum": h.mom}
	}
	return map[string]float64{"learningRate": h.rate, "decay": h.decay, "epsilon": h.eps, "beta1": h.b1, "beta2": h.b2}
}

func newOpt(kind string, h hyper) (nn.Optimizer, error) {
	if kind == "sgd" {
		o, err := nn.NewSGDOptimizer(h.rate, h.decay, h.mom)
		return &o, err
	}
	o, err := nn.NewAdamOptimizer(h.rate, h.decay, h.eps, h.b1, h.b2)
	return &o, err
}

func newOptFromType(kind string, h hyper) (nn.Optimizer, error) {
	v := h.values(kind)
	t := nn.SGDOptimizerType
	if kind == "adam" {
		t = nn.AdamOptimizerType
	}
	o, err := nn.NewOptimizerFromType(t, v)
	for k := range v { // the map is the caller's
		v[k] = 77
	}
	return o, err
}

type prm struct{ W, B M }

// ot drives optimizers within one trace.
type ot struct {
	r *Rec
	o map[string]nn.Optimizer
	p map[string]*prm
}

func newOt(r *Rec, name string) *ot {
	r.Begin(name)
	return &ot{r, map[string]nn.Optimizer{}, map[string]*prm{}}
}

func (t *ot) opt(o, kind string, h hyper, fromType bool) {
	t.r.Call("newopt", Ev{"o": o, "kind": kind, "h": h.js()}, func(e Ev) (err error) {
		if fromType {
			t.o[o], err = newOptFromType(kind, h)
		} else {
			t.o[o], err = newOpt(kind, h)
		}
		return
	})
}

func (t *ot) params(p string, W, B M) {
	q := &prm{cp(W), cp(B)}
	t.p[p] = q
	t.r.Note("params", Ev{"p": p, "W": mj(q.W), "B": mj(q.B)})
	t.r.TrackF(p+".W", func() M { return q.W })
	t.r.TrackF(p+".B", func() M { return q.B })
}

func (t *ot) upd(o, p string, dw, db M) bool {
	dw, db = cp(dw), cp(db)
	t.r.Track("dw", dw)
	t.r.Track("db", db)
	q := t.p[p]
	e := t.r.Call("upd", Ev{"o": o, "p": p, "dw": mj(dw), "db": mj(db)}, func(e Ev) error {
		err := t.o[o].Update(&q.W, &q.B, dw, db)
		e["W"], e["B"] = mj(q.W), mj(q.B)
		return err
	})
	// the gradients are the caller's: what they hold later must not matter
	for i := range dw.M {
		for j := range dw.M[i] {
			dw.M[i][j] = 1e6
		}
	}
	for i := range db.M {
		for j := range db.M[i] {
			db.M[i][j] = -1e6
		}
	}
	return e["st"] == "ok"
}

func hypers(g Rng, kind string) []hyper {
	hs := []hyper{}
	if kind == "sgd" {
		for _, d := range []float64{0, 1e-3, 0.5, 3} {
			for _, m := range []float64{0, 0.9, 0.5, 1, 1.01, 1e-12} {
				hs = append(hs, hyper{rate: []float64{0.1, 1, 1e-4, 0.5}[g.Intn(4)], decay: d, mom: m})
			}
		}
		for _, d := range []float64{1e-5, 1e-6, 1e-7} {
			hs = append(hs, hyper{rate: 1, decay: d, mom: float64(g.Intn(2)) / 2})
		}
		for _, d := range []float64{1, 2, 10, 100} {
			hs = append(hs, hyper{rate: []float64{1, 2, 0.25}[g.Intn(3)], decay: d, mom: []float64{0, 0.25, 0.99, 2}[g.Intn(4)]})
		}
		return hs
	}
	for _, d := range []float64{0, 1e-3, 0.5, 3} {
		for _, b := range [][2]float64{{0.9, 0.999}, {0.5, 0.25}, {0, 0.9}, {0.9, 0}, {0.99, 0.9}, {0.1, 0.9999}} {
			hs = append(hs, hyper{rate: []float64{0.1, 1, 1e-4, 0.001}[g.Intn(4)], decay: d, eps: []float64{1e-7, 1e-3, 1, 1e-8}[g.Intn(4)], b1: b[0], b2: b[1]})
		}
	}
	for _, d := range []float64{1e-5, 1e-6, 1e-7} {
		hs = append(hs, hyper{rate: 1, decay: d, eps: 1e-7, b1: 0.9, b2: 0.999})
	}
	for _, d := range []float64{1, 2, 10, 100} {
		hs = append(hs, hyper{rate: []float64{1, 2, 0.25}[g.Intn(3)], decay: d, eps: []float64{1e-7, 2, 1e-12}[g.Intn(3)], b1: []float64{0.9, 0.25}[g.Intn(2)], b2: []float64{0.999, 0.75}[g.Intn(2)]})
	}
	return hs
}

// grads makes gradients whose sizes vary over the history.
func grads(g Rng, r, c, q int) M {
	switch (q + g.Intn(2)) % 6 {
	case 0:
		return g.dyM(r, c)
	case 1:
		return g.reM(r, c, 1e-6)
	case 2:
		return g.reM(r, c, 100)
	case 3: // zeros in between
		return g.mat(r, c, func() float64 { return float64(g.Intn(2)) * g.re(1) })
	case 4:
		return zeros(r, c)
	}
	return g.reM(r, c, 1)
}

// idle makes k updates with zero gradients.
func (t *ot) idle(o, p string, k int) {
	q := t.p[p]
	dw, db := zeros(q.W.Rows, q.W.Cols), zeros(q.B.Rows, q.B.Cols)
	t.r.Call("idle", Ev{"o": o, "p": p, "k": k}, func(e Ev) error {
		for i := 0; i < k; i++ {
			if err := t.o[o].Update(&q.W, &q.B, dw, db); err != nil {
				return err
			}
		}
		e["W"], e["B"] = mj(q.W), mj(q.B)
		return nil
	})
}

func driveRule(r *Rec, kind string) {
	g := NewRng(*seed)
	// construction
	t := newOt(r, "new")
	for _, v := range []float64{1, 0.5, 1e-300, 0, -1e-300, -1, math.Copysign(0, -1), 100, -5} {
		t.opt("N", kind, hyper{v, 0, 0, 1e-7, 0.9, 0.999}, false)
		t.opt("N", kind, hyper{0.1, v, 0, 1e-7, 0.9, 0.999}, false)
		t.opt("N", kind, hyper{v, v, 0.5, 1e-7, 0.9, 0.999}, false)
		if kind == "sgd" {
			t.opt("N", kind, hyper{0.1, 0, v, 1e-7, 0.9, 0.999}, false)
			t.opt("N", kind, hyper{0.1, v, v, 1e-7, 0.9, 0.999}, false)
		}
	}
	for _, code := range []int{0, 1, 2, 3, 127, -1, -128} {
		h := anyHyper(g, kind)
		r.Call("bycode", Ev{"code": code}, func(e Ev) error {
			o, err := nn.NewOptimizerFromType(nn.OptimizerType(code), h.values(kind))
			switch o.(type) {
			case *nn.SGDOptimizer:
				e["kind"] = "sgd"
			case *nn.AdamOptimizer:
				e["kind"] = "adam"
			default:
				e["kind"] = "none"
			}
			return err
		})
	}
	r.End()
	shapes := [][2]int{{1, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {5, 5}}
	for _, s := range [][2]int{{40, 33}, {2, 601}, {601, 2}, {1, 1101}} {
		h := anyHyper(g, kind)
		t := newOt(r, fmt.Sprintf("large %s %v %v", kind, h, s))
		t.opt("A", kind, h, g.Intn(2) == 0)
		t.params("P", g.reM(s[0], s[1], 1), g.reM(1, s[1], 1))
		for q := 0; q < 3; q++ {
			t.upd("A", "P", grads(g, s[0], s[1], q), grads(g, 1, s[1], q))
		}
		r.End()
	}
	for rep := 0; rep < n(1, 12); rep++ {
		for k, h := range hypers(g, kind) {
			for _, ft := range []bool{false, true} {
				s := shapes[(k+rep)%len(shapes)]
				t := newOt(r, fmt.Sprintf("%s %v %v", kind, h, s))
				t.opt("A", kind, h, ft)
				t.params("P", g.reM(s[0], s[1], 1), g.reM(1, s[1], 1))
				for q := 0; q < n(70, 150); q++ {
					t.upd("A", "P", grads(g, s[0], s[1], q), grads(g, 1, s[1], q/2))
				}
				r.End()
			}
		}
	}
	// tiny and huge parameters and gradients
	for rep := 0; rep < n(2, 20); rep++ {
		scales := []float64{1e-120, 1e-60, 1e-30, 1e-12, 1e12, 1e60, 1e100}
		if kind == "adam" {
			scales = []float64{1e-60, 1e-30, 1e-12, 1e-8, 1e12, 1e60}
		}
		for _, sc := range scales {
			h := anyHyper(g, kind)
			t := newOt(r, fmt.Sprintf("%s %v scale %v", kind, h, sc))
			t.opt("A", kind, h, rep%2 == 0)
			if g.Intn(2) == 0 {
				t.params("P", zeros(2, 2), zeros(1, 2))
			} else {
				t.params("P", g.reM(2, 2, sc), g.reM(1, 2, sc))
			}
			for q := 0; q < 8; q++ {
				t.upd("A", "P", g.reM(2, 2, sc), g.reM(1, 2, sc))
			}
			r.End()
		}
	}
	// very long histories, of which only the end moves anything
	for _, k := range []int{100, 127, 128, 254, 255, 256, 1000, 32767, 32768, 65535, 65536, 100000} {
		for _, decay := range []float64{0, 1e-4, 0.5} {
			h := anyHyper(g, kind)
			h.decay = decay
			t := newOt(r, fmt.Sprintf("late %s %v after %v", kind, h, k))
			t.opt("A", kind, h, g.Intn(2) == 0)
			t.params("P", g.reM(1, 2, 1), g.reM(1, 2, 1))
			t.idle("A", "P", k)
			for q := 0; q < 4; q++ {
				t.upd("A", "P", g.reM(1, 2, 1), g.reM(1, 2, 1))
			}
			r.End()
		}
	}
	// long histories
	for k, h := range hypers(g, kind) {
		if h.mom > 1 || g.Intn(3) != 0 && !*deep {
			continue
		}
		t := newOt(r, fmt.Sprintf("long %s %v", kind, h))
		t.opt("A", kind, h, k%2 == 0)
		t.params("P", g.reM(1, 2, 1), g.reM(1, 2, 1))
		for q := 0; q < n(1100, 6000); q++ {
			sc := 1.0
			if q/200%2 == 1 { // gradients that get small, and large again
				sc = math.Pow(0.8, float64(q%200/4))
			}
			t.upd("A", "P", g.reM(1, 2, sc), g.reM(1, 2, sc))
		}
		r.End()
	}
}

func driveC11(r *Rec) {
	g := NewRng(*seed)
	pick := func() (string, hyper) {
		kind := []string{"sgd", "adam"}[g.Intn(2)]
		hs := hypers(g, kind)
		h := hs[g.Intn(len(hs))]
		if kind == "sgd" && h.mom == 0 { // plain descent keeps nothing: any parameters will do
			h.mom = 0.7
		}
		return kind, h
	}
	shape := map[string][2]int{"P": {2, 3}, "Q": {2, 3}, "R": {3, 2}}
	prog := func(name string, p []map[string]interface{}, same bool) {
		t := newOt(r, name)
		kind, h := pick()
		t.opt("A", kind, h, g.Intn(2) == 0)
		if !same {
			kind, h = pick()
		}
		t.opt("B", kind, h, g.Intn(2) == 0)
		for k, s := range shape {
			t.params(k, g.dyM(s[0], s[1]), g.dyM(1, s[1]))
		}
		for _, c := range p {
			o, p := c["o"].(string), c["p"].(string)
			s := shape[p]
			wr, wc, br, bc := s[0], s[1], 1, s[1]
			switch c["bad"].(string) {
			case "wt":
				wr, wc = wc, wr
			case "wr":
				wr++
			case "wc":
				wc++
			case "bc":
				bc--
			case "br":
				br++
			}
			t.upd(o, p, g.reM(wr, wc, 1), g.reM(br, bc, 1))
		}
		// what the history amounts to
		for _, o := range []string{"A", "B", "A"} {
			for _, p := range []string{"P", "R"} {
				s := shape[p]
				t.upd(o, p, g.reM(s[0], s[1], 1), g.reM(1, s[1], 1))
			}
		}
		r.End()
	}
	for k, p := range programs() {
		prog(fmt.Sprintf("program %d", k), p, k%2 == 0)
	}
	// long random programs
	for rep := 0; rep < n(40, 600); rep++ {
		p := []map[string]interface{}{}
		for q := 0; q < 40; q++ {
			bad := ""
			if g.Intn(3) == 0 {
				bad = []string{"wt", "wr", "wc", "bc", "br"}[g.Intn(5)]
			}
			p = append(p, map[string]interface{}{"o": []string{"A", "B"}[g.Intn(2)], "p": []string{"P", "Q", "R"}[g.Intn(3)], "bad": bad})
		}
		prog("random program", p, rep%2 == 0)
	}
	// plain descent: gradients that do not fit
	for rep := 0; rep < n(10, 100); rep++ {
		t := newOt(r, "plain descent")
		t.opt("A", "sgd", hyper{rate: 0.25, decay: []float64{0, 0.5}[rep%2]}, g.Intn(2) == 0)
		t.params("P", g.dyM(2, 3), g.dyM(1, 3))
		for q := 0; q < 20; q++ {
			wr, wc, br, bc := 2, 3, 1, 3
			switch g.Intn(8) {
			case 0:
				wr, wc = 3, 2
			case 1:
				wr = 1
			case 2:
				wc = 4
			case 3:
				bc = 2
			case 4:
				br = 2
			}
			t.upd("A", "P", g.dyM(wr, wc), g.dyM(br, bc))
		}
		r.End()
	}
	// plain descent keeps nothing of the parameters: it takes any, after any others
	for rep := 0; rep < n(6, 60); rep++ {
		t := newOt(r, "plain descent of many shapes")
		t.opt("A", "sgd", hyper{rate: 0.25, decay: []float64{0, 0.5}[rep%2]}, g.Intn(2) == 0)
		ss := [][4]int{{2, 3, 1, 3}, {3, 2, 1, 2}, {1, 4, 1, 4}, {4, 1, 1, 1}, {2, 3, 1, 4}, {2, 3, 2, 3}}
		for i, s := range ss {
			t.params(fmt.Sprint("p", i), g.dyM(s[0], s[1]), g.dyM(s[2], s[3]))
		}
		for q := 0; q < 25; q++ {
			i := g.Intn(len(ss))
			if s := ss[i]; g.Intn(5) > 0 {
				t.upd("A", fmt.Sprint("p", i), g.dyM(s[0], s[1]), g.dyM(s[2], s[3]))
			} else {
				s := ss[g.Intn(len(ss))]
				t.upd("A", fmt.Sprint("p", i), g.dyM(s[0], s[1]), g.dyM(s[2], s[3]))
			}
		}
		r.End()
	}
	// parameters of which only one half fits what an optimizer remembers
	for rep := 0; rep < n(8, 80); rep++ {
		kind, h := pick()
		t := newOt(r, "half fitting parameters")
		t.opt("A", kind, h, g.Intn(2) == 0)
		ss := [][4]int{{2, 3, 1, 3}, {2, 3, 1, 4}, {2, 3, 1, 2}, {2, 3, 2, 3}, {3, 3, 1, 3}, {1, 3, 1, 3}, {2, 4, 1, 3}, {3, 2, 1, 3}, {2, 3, 1, 3}}
		for i, s := range ss {
			t.params(fmt.Sprint("p", i), g.dyM(s[0], s[1]), g.dyM(s[2], s[3]))
		}
		for q := 0; q < 24; q++ {
			i := 0
			if q > 0 && g.Intn(3) > 0 {
				i = g.Intn(len(ss))
			}
			s := ss[i]
			t.upd("A", fmt.Sprint("p", i), g.dyM(s[0], s[1]), g.dyM(s[2], s[3]))
		}
		r.End()
	}
	// the optimizers of models: one per layer, of the shape of that layer, nothing shared
	for rep := 0; rep < n(40, 400); rep++ {
		kind, h := pick()
		if rep%4 == 3 { // plain descent remembers the number of updates
			kind, h = "sgd", hyper{rate: 0.25, decay: []float64{0.5, 1e-3}[g.Intn(2)]}
		}
		t := newOt(r, "model optimizers")
		proto, err := newOpt(kind, h)
		must(err)
		t.opt("X", kind, h, false) // what is given to Finalize
		proto = t.o["X"]
		mk := func(o string, ls []*lay) {
			m := nn.NewModel()
			for _, y := range ls {
				must(m.AddLayer(y.l))
			}
			loss, err := newLoss("mse", m.OutputSize)
			must(err)
			os := []string{}
			st := t.r.Call("fresh", Ev{"kind": kind, "h": h.js()}, func(e Ev) error {
				err := m.Finalize(loss, proto, nn.RegressionAccuracyType, 0.5)
				for i := range m.Optimizers {
					os = append(os, fmt.Sprint(o, i))
				}
				e["os"] = os
				return err
			})
			if st["st"] == "ok" {
				for i := range os {
					t.o[os[i]] = m.Optimizers[i]
				}
			}
		}
		ls := []*lay{}
		in := 1 + g.Intn(3)
		first := in
		for k, depth := 0, []int{1, 2, 3, 4, 6}[g.Intn(5)]; k < depth; k++ {
			out := 1 + g.Intn(3)
			if k == 1 {
				out = first
			}
			y, err := newLay(kinds[g.Intn(len(kinds))], in, out, 0)
			must(err)
			ls = append(ls, y)
			in = out
		}
		mk("m", ls)
		mk("k", ls) // a second model, with the same prototype
		names := []string{}
		for i, y := range ls {
			p := fmt.Sprint("p", i)
			t.params(p, g.dyM(y.in, y.out), g.dyM(1, y.out))
			for _, o := range []string{"m", "k"} {
				if t.o[fmt.Sprint(o, i)] != nil {
					names = append(names, fmt.Sprint(o, i))
				}
			}
		}
		for q := 0; q < 30 && len(names) > 0; q++ {
			o := names[g.Intn(len(names))]
			i := int(o[1] - '0')
			y := ls[i]
			if g.Intn(6) == 0 { // the optimizer that was given to Finalize is not part of the models
				o = "X"
				y, i = ls[0], 0
			}
			p := fmt.Sprint("p", i)
			if g.Intn(4) == 0 {
				t.upd(o, p, g.dyM(y.in+1, y.out), g.dyM(1, y.out))
			} else if g.Intn(5) == 0 {
				t.upd(o, p, g.dyM(y.in, y.out), g.dyM(1, y.out+1))
			} else {
				t.upd(o, p, g.reM(y.in, y.out, 1), g.reM(1, y.out, 1))
			}
		}
		r.End()
	}
}

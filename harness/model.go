package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"
)

func init() {
	drivers["C12"] = driveC12
	drivers["C13"] = driveC13
	drivers["C14"] = driveC14
}

// mt drives one model within one trace.
type mt struct {
	r      *Rec
	m      *nn.Model
	lays   map[int]*lay
	losses map[int]nn.Loss
	next   int
	outs   []M
}

func newMt(r *Rec, name string) *mt {
	r.Begin(name)
	m := nn.NewModel()
	return &mt{r: r, m: &m, lays: map[int]*lay{}, losses: map[int]nn.Loss{}}
}

// lay gives the k-th layer (from 1) of the model.
func (t *mt) lay(k int) *lay { return wrap(t.m.Layers[k-1]) }

// obs is what can be seen of the model.
func (t *mt) obs() Ev {
	m := t.m
	ids := []int{}
	for _, l := range m.Layers {
		id := -1
		for k, y := range t.lays {
			if y.l == l {
				id = k
			}
		}
		ids = append(ids, id)
	}
	loss := 0
	if m.Loss != nil {
		loss = -1
		for k, l := range t.losses {
			if l == m.Loss {
				loss = k
			}
		}
	}
	v := m.OptimizerValues
	return Ev{"n": m.ModelSize, "in": m.InputSize, "out": m.OutputSize, "ids": ids, "loss": loss, "acc": int(m.AccuracyType), "prec": num(m.AccuracyPercision),
		"nopt": len(m.Optimizers), "lcode": int(m.LossType), "ocode": int(m.OptimizerType),
		"h": hyper{v["learningRate"], v["decay"], v["momentum"], v["epsilon"], v["beta1"], v["beta2"]}.js()}
}

func (t *mt) add(g Rng, kind string, in, out int, par float64) {
	y, err := newLay(kind, in, out, par)
	must(err)
	y.set(g.reM(in, out, 1), g.reM(1, out, 0.5))
	t.next++
	t.lays[t.next] = y
	t.addLay(y)
	t.watch(t.next)
}

func (t *mt) addLay(y *lay) {
	id := 0
	for k := range t.lays {
		if t.lays[k] == y {
			id = k
		}
	}
	t.r.Call("add", Ev{"id": id, "kind": y.kind, "in": y.in, "out": y.out, "par": num(y.par), "W": mj(y.w()), "B": mj(y.b())}, func(e Ev) error {
		err := t.m.AddLayer(y.l)
		e["obs"] = t.obs()
		return err
	})
}

func (t *mt) watch(id int) {
	y := t.lays[id]
	t.r.TrackF(fmt.Sprint("W", id), y.w)
	t.r.TrackF(fmt.Sprint("B", id), y.b)
}

func (t *mt) fin(lossKind string, size int, kind string, h hyper, acc int, prec float64, o nn.Optimizer) bool {
	loss, err := newLoss(lossKind, size)
	must(err)
	if o == nil {
		o, err = newOpt(kind, h)
		must(err)
	}
	t.next++
	id := t.next
	t.losses[id] = loss
	return t.r.Call("fin", Ev{"lid": id, "loss": lossKind, "size": size, "kind": kind, "h": h.js(), "acc": acc, "prec": num(prec)}, func(e Ev) error {
		err := t.m.Finalize(loss, o, nn.AccuracyType(acc), prec)
		e["obs"] = t.obs()
		return err
	})["st"] == "ok"
}

// use makes one update with the optimizer of every layer.
func (t *mt) use(g Rng) {
	for k := 1; k <= len(t.m.Optimizers) && k <= len(t.m.Layers); k++ {
		y := t.lay(k)
		id := -1
		for i, x := range t.lays {
			if x.l == y.l {
				id = i
			}
		}
		dw, db := g.dyM(y.in, y.out), g.dyM(1, y.out)
		t.r.Call("upd", Ev{"k": k, "dw": mj(dw), "db": mj(db), "w": fmt.Sprint("W", id), "b": fmt.Sprint("B", id)}, func(e Ev) error {
			w, b := y.params()
			err := t.m.Optimizers[k-1].Update(w, b, dw, db)
			e["W"], e["B"] = mj(*w), mj(*b)
			return err
		})
	}
}

func anyHyper(g Rng, kind string) hyper {
	hs := hypers(g, kind)
	return hs[g.Intn(len(hs))]
}

func driveC12(r *Rec) {
	g := NewRng(*seed)
	run := func(name string, p []map[string]interface{}) {
		t := newMt(r, name)
		used := map[string]hyper{}
		for _, c := range p {
			switch c["op"].(string) {
			case "add":
				kind := kinds[g.Intn(len(kinds))]
				t.add(g, kind, int(c["in"].(float64)), int(c["out"].(float64)), par(g, kind))
			case "fin":
				kind := c["kind"].(string)
				prec := []float64{0, 0.5, 1e-9, 3, 0.25, 1, math.Copysign(0, -1), math.Inf(1), 1e300, 2.5e6, 5e-324}[g.Intn(11)]
				if c["neg"].(bool) {
					prec = []float64{-1, -1e-300, -0.5, math.Inf(-1), -math.MaxFloat64, -5e-324}[g.Intn(6)]
				}
				h := anyHyper(g, kind)
				if u, ok := used[kind]; ok && g.Intn(2) == 0 { // the same settings again
					h = u
				}
				used[kind] = h
				o, err := newOpt(kind, h)
				must(err)
				if g.Intn(2) == 0 { // an optimizer that has been used before
					W, B := g.dyM(2, 3), g.dyM(1, 3)
					for q := 0; q < 3; q++ {
						o.Update(&W, &B, g.dyM(2, 3), g.dyM(1, 3))
					}
				}
				t.fin(lossKinds[g.Intn(4)], int(c["size"].(float64)), kind, h, g.Intn(4), prec, o)
			case "use":
				t.use(g)
			case "again": // a layer that is part of the model already, or was refused
				if t.next > 0 {
					if y := t.lays[1+g.Intn(t.next)]; y != nil {
						t.addLay(y)
					}
				}
			}
		}
		t.use(g)
		r.End()
	}
	for k, p := range programs() {
		run(fmt.Sprintf("program %d", k), p)
	}
	for rep := 0; rep < n(60, 800); rep++ {
		p := []map[string]interface{}{}
		out := float64(1 + g.Intn(4))
		for q := 0; q < 25; q++ {
			switch g.Intn(5) {
			case 4:
				p = append(p, map[string]interface{}{"op": "again"})
			case 0, 1:
				in := out
				o := float64(1 + g.Intn(4))
				if g.Intn(3) == 0 && len(p) > 0 { // may or may not fit
					in = float64(1 + g.Intn(5))
				}
				p = append(p, map[string]interface{}{"op": "add", "in": in, "out": o})
				if in == out {
					out = o
				}
			case 2:
				sz := out
				if g.Intn(3) == 0 {
					sz = float64(1 + g.Intn(6))
				}
				p = append(p, map[string]interface{}{"op": "fin", "size": sz, "neg": g.Intn(4) == 0, "kind": []string{"sgd", "adam"}[g.Intn(2)]})
			case 3:
				p = append(p, map[string]interface{}{"op": "use"})
			}
		}
		run("random program", p)
	}
	// sizes that differ by a power of two
	for rep := 0; rep < n(12, 100); rep++ {
		a := float64(1 + g.Intn(4))
		d := []float64{128, 256, 512, 1024}[g.Intn(4)]
		p := []map[string]interface{}{
			{"op": "add", "in": float64(1 + g.Intn(2)), "out": a + d},
			{"op": "add", "in": a, "out": 2.0},
			{"op": "add", "in": a + d, "out": a},
			{"op": "add", "in": a + d, "out": 1.0},
			{"op": "fin", "size": a + d, "neg": false, "kind": "sgd"},
			{"op": "fin", "size": a, "neg": false, "kind": "sgd"},
			{"op": "add", "in": a, "out": a + d},
			{"op": "fin", "size": a, "neg": false, "kind": "adam"},
			{"op": "fin", "size": a + d, "neg": false, "kind": "adam"},
		}
		run("sizes apart by a power of two", p)
	}
}

// ---- passes ----

func (t *mt) setp(k int, W, B M) {
	y := t.lay(k)
	t.r.Note2("setp", Ev{"k": k, "W": mj(W), "B": mj(B)}, func() { y.set(W, B) })
	for id := range t.lays {
		if t.lays[id].l == y.l {
			t.watch(id)
		}
	}
}

func (t *mt) keep(outs []M) {
	for i := range t.outs {
		t.r.Untrack(fmt.Sprint("out", i))
	}
	t.outs = outs
	for i := range outs {
		m := outs[i]
		t.r.TrackF(fmt.Sprint("out", i), func() M { return m })
	}
}

func (t *mt) fwd(X M, tr bool) bool {
	var outs []M
	e := t.r.Call("fwd", Ev{"x": mj(X), "tr": tr}, func(e Ev) (err error) {
		outs, err = t.m.Forward(X, tr)
		e["outs"] = mjs(outs)
		return
	})
	if e["st"] == "ok" {
		t.keep(outs)
		return true
	}
	return false
}

func (t *mt) value(op string, X, Y M) {
	t.r.Call(op, Ev{"x": mj(X), "y": mj(Y)}, func(e Ev) error {
		var v float64
		var err error
		if op == "loss" {
			v, err = t.m.CalculateLoss(X, Y)
		} else {
			v, err = t.m.CalculateAccuracy(X, Y)
		}
		e["val"] = num(v)
		return err
	})
}

func (t *mt) pred(X M) {
	t.r.Call("pred", Ev{"x": mj(X)}, func(e Ev) error {
		res, err := t.m.Predict(X)
		e["res"] = mj(res)
		return err
	})
}

func (t *mt) bwd(outs []M, Y M) {
	t.r.Call("bwd", Ev{"outs": mjs(outs), "y": mj(Y)}, func(e Ev) error {
		gs, err := t.m.Backward(outs, Y)
		ws, bs := []interface{}{}, []interface{}{}
		for _, x := range gs {
			ws = append(ws, mj(x.DWeights))
			bs = append(bs, mj(x.DBiases))
		}
		e["dws"], e["dbs"] = ws, bs
		return err
	})
}

// build adds random layers that chain.
func (t *mt) build(g Rng, depth, in int, last string, random bool) {
	for k := 1; k <= depth; k++ {
		kind := kinds[g.Intn(len(kinds))]
		if k == depth && last != "" {
			kind = last
		}
		out := 1 + g.Intn(5)
		p := par(g, kind)
		if !random {
			p = fixedPar(g, kind)
		}
		t.add(g, kind, in, out, p)
		in = out
	}
}

func labelsFor(g Rng, loss string, rows, c int) M {
	switch loss {
	case "ce":
		return oneHot(g, rows, c)
	case "bce":
		return binaryLabels(g, rows, c)
	}
	return g.dyM(rows, c)
}

// binaryLabels makes labels of two classes, now and then with some that are only partly in the class.
func binaryLabels(g Rng, rows, c int) M {
	soft := g.Intn(3) == 0
	return g.mat(rows, c, func() float64 {
		if soft && g.Intn(2) == 0 {
			return []float64{0.25, 0.5, 0.9, 0.125, g.Float64()}[g.Intn(5)]
		}
		return float64(g.Intn(2))
	})
}

// refill overwrites a matrix of the caller.
func refill(m, v M) {
	for i := range m.M {
		copy(m.M[i], v.M[i])
	}
}

func driveC13(r *Rec) {
	g := NewRng(*seed)
	for rep := 0; rep < n(120, 2500); rep++ {
		t := newMt(r, "passes")
		depth := 1 + g.Intn(4)
		in := 1 + g.Intn(4)
		loss := lossKinds[rep%4]
		acc := (rep / 4) % 3
		last := ""
		if loss == "ce" {
			last = "softmax"
		} else if loss == "bce" {
			last = "sigmoid"
		} else if g.Intn(2) == 0 {
			last = "linear"
		}
		if g.Intn(4) == 0 {
			last = ""
		}
		if rep%30 == 17 { // deep
			depth = 8 + g.Intn(30)
		}
		t.build(g, depth, in, last, true)
		for k := 1; k <= depth && rep%3 == 0; k++ { // exact arithmetic, many ties
			y := t.lay(k)
			t.setp(k, g.mat(y.in, y.out, func() float64 { return float64(g.Intn(3)-1) / 2 }), g.mat(1, y.out, func() float64 { return float64(g.Intn(3)-1) / 2 }))
		}
		if rep%10 == 9 { // every output is the same
			y := t.lay(depth)
			t.setp(depth, zeros(y.in, y.out), zeros(1, y.out))
		}
		out := t.lay(depth).out
		X := g.dyM(1+g.Intn(4), in)
		if rep%7 == 3 { // many samples
			X = g.dyM([]int{20, 33, 65, 130, 600, 1003}[g.Intn(6)], in)
		}
		Y := labelsFor(g, loss, X.Rows, out)
		if rep%20 == 9 || rep%20 == 13 { // the labels are exactly what the model says
			if outs, err := t.m.Forward(X, false); err == nil && len(outs) > 0 {
				if q := outs[len(outs)-1]; loss == "mse" || loss == "mae" {
					Y = cp(q)
				}
			}
		}
		r.Track("X", X)
		r.Track("Y", Y)
		if rep%5 == 0 { // no loss yet
			t.value("loss", X, Y)
		}
		if rep%11 == 10 {
			acc = 3 + g.Intn(100)
		}
		if !t.fin(loss, out, "sgd", hyper{rate: 0.1}, acc, []float64{0, 0.25, 0.5, 1, 2}[g.Intn(5)], nil) {
			r.End()
			continue
		}
		for q := 0; q < 14; q++ {
			switch g.Intn(9) {
			case 0:
				t.fwd(X, true)
			case 1:
				t.fwd(X, false)
			case 2:
				t.value("loss", X, Y)
			case 3:
				t.value("acc", X, Y)
			case 4:
				t.pred(X)
			case 5: // other data
				X = g.reM(1+g.Intn(5), in, 1.5)
				if g.Intn(2) == 0 {
					X = g.dyM(X.Rows, in)
				}
				Y = labelsFor(g, loss, X.Rows, out)
				r.Track("X", X)
				r.Track("Y", Y)
				t.value("loss", X, Y)
				t.pred(X)
			case 6: // the same matrices with other contents
				refill(X, g.dyM(X.Rows, in))
				refill(Y, labelsFor(g, loss, X.Rows, out))
				r.Track("X", X)
				r.Track("Y", Y)
				t.keep(nil)
				t.value("acc", X, Y)
				t.pred(X)
				t.value("loss", X, Y)
			case 7: // other parameters
				k := 1 + g.Intn(depth)
				y := t.lay(k)
				t.setp(k, g.dyM(y.in, y.out), g.dyM(1, y.out))
			case 8: // misuse
				bad := g.dyM(X.Rows, in+1)
				t.fwd(bad, g.Intn(2) == 0)
				t.pred(bad)
				t.value("loss", bad, Y)
				t.value("acc", bad, Y)
				t.value("loss", X, labelsFor(g, loss, X.Rows+1, out))
				t.value("loss", X, labelsFor(g, loss, X.Rows, out+1))
				t.value("acc", X, labelsFor(g, loss, X.Rows+1, out))
				t.value("acc", X, labelsFor(g, loss, X.Rows, out+1))
				if X.Rows > 1 {
					t.value("acc", X, labelsFor(g, loss, X.Rows-1, out))
					t.value("loss", X, labelsFor(g, loss, X.Rows-1, out))
				}
				if out > 1 {
					t.value("acc", X, labelsFor(g, loss, X.Rows, out-1))
					t.value("loss", X, labelsFor(g, loss, X.Rows, out-1))
				}
				if in > 1 {
					t.fwd(g.dyM(X.Rows, in-1), false)
				}
			}
		}
		r.End()
	}
	for rep := 0; rep < n(2, 12); rep++ {
		wideC13(r, g, 1, 520+g.Intn(60))
	}
}

// wideC13 evaluates a model with many outputs.
func wideC13(r *Rec, g Rng, in, out int) {
	t := newMt(r, "many outputs")
	t.add(g, "linear", in, out, 0)
	X := g.dyM(3, in)
	r.Track("X", X)
	for acc := 0; acc < 3; acc++ {
		loss := []string{"mse", "mae"}[g.Intn(2)]
		Y := labelsFor(g, loss, 3, out)
		r.Track("Y", Y)
		t.setp(1, g.reM(in, out, 1), g.reM(1, out, 1))
		if t.fin(loss, out, "sgd", hyper{rate: 0.1}, acc, 0.5, nil) {
			t.pred(X)
			t.fwd(X, false)
			t.value("acc", X, Y)
			t.value("loss", X, Y)
		}
	}
	r.End()
}

func driveC14(r *Rec) {
	g := NewRng(*seed)
	pass := func(t *mt, loss string, in, out, rows int) {
		X := g.reM(rows, in, 1)
		if g.Intn(3) == 0 {
			X = g.dyM(rows, in)
		}
		Y := labelsFor(g, loss, rows, out)
		r.Track("X", X)
		r.Track("Y", Y)
		if !t.fwd(X, true) {
			return
		}
		t.bwd(t.outs, Y)
		if g.Intn(2) == 0 { // the same values in other matrices
			c := []M{}
			for _, o := range t.outs {
				c = append(c, cp(o))
			}
			t.bwd(c, Y)
		}
		if g.Intn(3) == 0 {
			t.bwd(t.outs, Y)
			Y = labelsFor(g, loss, rows, out)
			r.Track("Y", Y)
			t.bwd(t.outs, Y)
		}
		if g.Intn(3) == 0 { // misuse
			t.bwd(t.outs[:len(t.outs)-1], Y)
			t.bwd(append(append([]M{}, t.outs...), t.outs[len(t.outs)-1]), Y)
			t.bwd([]M{}, Y)
			t.bwd(t.outs[1:], Y)
			t.bwd(t.outs, labelsFor(g, loss, rows+1, out))
			t.bwd(t.outs, labelsFor(g, loss, rows, out+1))
			if rows > 1 {
				t.bwd(t.outs, labelsFor(g, loss, rows-1, out))
			}
			if out > 1 {
				t.bwd(t.outs, labelsFor(g, loss, rows, out-1))
			}
			t.bwd(t.outs, Y)
		}
	}
	run := func(name string, depth int, loss, last string) {
		t := newMt(r, name)
		in := 1 + g.Intn(4)
		t.build(g, depth, in, last, true)
		out := t.lay(depth).out
		if g.Intn(6) == 0 {
			X := g.dyM(2, in)
			if t.fwd(X, true) {
				t.bwd(t.outs, labelsFor(g, loss, 2, out))
			}
		}
		if t.fin(loss, out, []string{"sgd", "adam"}[g.Intn(2)], hyper{rate: 0.1, eps: 1e-7, b1: 0.9, b2: 0.999}, g.Intn(3), 0.5, nil) {
			for q := 0; q < 3; q++ {
				pass(t, loss, in, out, []int{1, 2, 3, 5, 4}[g.Intn(5)])
			}
			if name == "large" {
				pass(t, loss, in, out, []int{33, 130, 300, 1003}[g.Intn(4)])
			}
			k := 1 + g.Intn(depth)
			y := t.lay(k)
			t.setp(k, g.dyM(y.in, y.out), g.dyM(1, y.out))
			pass(t, loss, in, out, 1+g.Intn(4))
			// outputs near their limits
			y = t.lay(depth)
			sc := []float64{8, 20, 40}[g.Intn(3)]
			t.setp(depth, g.reM(y.in, y.out, sc), g.reM(1, y.out, sc))
			for q := 0; q < 2; q++ {
				pass(t, loss, in, out, 1+g.Intn(4))
			}
		}
		r.End()
	}
	for rep := 0; rep < n(4, 80); rep++ {
		for _, loss := range lossKinds {
			for _, last := range kinds {
				run(fmt.Sprintf("chain %s %s", loss, last), 1+g.Intn(4), loss, last)
			}
		}
		for _, loss := range lossKinds {
			last := map[string]string{"ce": []string{"softmax", "softmax", "sigmoid"}[g.Intn(3)], "bce": "sigmoid", "mse": "linear", "mae": "leaky"}[loss]
			run("large", 1+g.Intn(3), loss, last)
			run("deep", 6+g.Intn(14), loss, last)
		}
		// finalized again, with another loss
		for _, last := range []string{"softmax", "sigmoid"} {
			t := newMt(r, "other losses "+last)
			t.build(g, 1+g.Intn(2), 2, last, true)
			out := t.lay(len(t.m.Layers)).out
			for q := 0; q < 4; q++ {
				loss := lossKinds[g.Intn(4)]
				if q%2 == rep%2 {
					loss = "ce"
				}
				if t.fin(loss, out, "sgd", hyper{rate: 0.1}, g.Intn(3), 0.5, nil) {
					pass(t, loss, 2, out, 1+g.Intn(3))
				}
			}
			r.End()
		}
		// softmax layers in every place
		for _, loss := range lossKinds {
			t := newMt(r, "softmax everywhere "+loss)
			for k := 0; k < 3; k++ {
				t.add(g, "softmax", 3, 3, 0)
			}
			if rep%2 == 0 {
				t.add(g, "linear", 3, 3, 0)
			}
			if t.fin(loss, 3, "sgd", hyper{rate: 0.1}, 1, 0.5, nil) {
				pass(t, loss, 3, 3, 2)
				pass(t, loss, 3, 3, 5)
			}
			r.End()
		}
	}
}

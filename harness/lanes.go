package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	nn "github.com/cubeflix/nn"
)

func init() { drivers["C27"] = driveC27 }

// A lane is a sequence of calls on objects of its own.
type lane struct {
	kind  string
	steps []func() ([]M, error)
	own   []func() M // objects that the calls may change
}

func one(f float64) M { return M{Rows: 1, Cols: 1, M: [][]float64{{f}}} }

func b2f(b bool) float64 {
	if b {
		return 1
	}
	return 0
}

var laneKinds = []string{"matrix", "hidden", "linear", "sigmoid", "leaky", "softmax", "dropout", "random dropout", "sgd", "adam",
	"mse", "mae", "ce", "bce", "misc", "metrics", "activations", "shuffle", "init", "model", "store", "layerstore"}

// newLane makes a lane; lanes of the same shape seed have the same shapes.
func newLane(kind string, shape, value int64) *lane {
	s, g := NewRng(shape), NewRng(value)
	y := &lane{kind: kind}
	do := func(f func() ([]M, error)) { y.steps = append(y.steps, f) }
	vals := func(f func() []M) { do(func() ([]M, error) { return f(), nil }) }
	r, c, d := 1+s.Intn(3), 1+s.Intn(3), 1+s.Intn(3)
	switch kind {
	case "matrix":
		A, B, C := g.reM(r, c, 1), g.reM(r, c, 1), g.reM(c, d, 1)
		y.own = append(y.own, func() M { return A })
		do(func() ([]M, error) { x, err := A.Add(B); return []M{x}, err })
		do(func() ([]M, error) { x, err := A.Dot(C); return []M{x}, err })
		vals(func() []M { return []M{A.T(), A.Neg(), A.AddScalar(2), A.MulScalar(3), A.PowScalar(2)} })
		vals(func() []M { return []M{A.Sum(0), A.Sum(1), nn.Clip(A)} })
		do(func() ([]M, error) { return []M{}, A.SetRow(r-1, B.M[0]) })
		do(func() ([]M, error) { x, err := A.Sub(B); return []M{x, one(b2f(A.Equals(B)))}, err })
		do(func() ([]M, error) {
			x, err := A.GetColumn(c - 1)
			return []M{{Rows: 1, Cols: len(x), M: [][]float64{x}}}, err
		})
		do(func() ([]M, error) { x, err := nn.NewMatrix(r, c); return []M{x}, err })
	case "hidden", "linear", "sigmoid", "leaky", "softmax", "dropout":
		p := 0.0
		if kind == "leaky" {
			p = g.Float64()
		}
		l, err := newLay(kind, c, d, p)
		must(err)
		l.set(g.reM(c, d, 1), g.reM(1, d, 1))
		y.own = append(y.own, l.w, l.b)
		for q := 0; q < 3; q++ {
			X, D := g.reM(r, c, 1), g.reM(r, d, 1)
			do(func() ([]M, error) { o, err := l.l.Forward(X); return []M{o}, err })
			do(func() ([]M, error) { a, b, e, err := l.l.Backward(X, D); return []M{a, b, e}, err })
		}
		if kind == "softmax" {
			X, D := g.reM(r, c, 1), oneHot(g, r, d)
			do(func() ([]M, error) {
				o, err := l.l.Forward(X)
				if err != nil {
					return nil, err
				}
				a, b, e, err := l.l.(*nn.SoftmaxLayer).BackwardCrossEntropy(X, D, o)
				return []M{o, a, b, e}, err
			})
		}
	case "random dropout": // positive sums: what is not zero has been kept
		l, err := newLay("dropout", c, 4, 0.5)
		must(err)
		pos := func() float64 { return 0.1 + g.Float64() }
		l.set(g.mat(c, 4, pos), g.mat(1, 4, pos))
		for q := 0; q < 6; q++ {
			X, D := g.mat(1, c, pos), g.mat(1, 4, pos)
			do(func() ([]M, error) {
				o, err := l.l.Forward(X)
				if err != nil {
					return nil, err
				}
				runtime.Gosched()
				_, b, _, err := l.l.Backward(X, D)
				if err != nil {
					return nil, err
				}
				_ = b
				a, e, _, err := l.l.Backward(X, D)
				if err != nil {
					return nil, err
				}
				wrong := 0.0
				for j := 0; j < 4; j++ {
					kept := false
					for _, m := range []M{a, b, e} {
						if m.Rows == 1 && m.Cols == 4 && m.M[0][j] != 0 {
							kept = true
						}
						if m.Rows == c && m.Cols == 4 && m.M[0][j] != 0 {
							kept = true
						}
					}
					if kept != (o.M[0][j] != 0) {
						wrong++
					}
				}
				return []M{one(wrong)}, nil
			})
		}
	case "sgd", "adam":
		// half of them with hyperparameters that nothing has used before
		h := hyper{rate: 0.1, decay: 0.01, mom: 0.9, eps: 1e-7, b1: 0.9, b2: 0.999}
		if s.Intn(2) == 0 {
			h = hyper{rate: 0.1 * s.Float64(), decay: 0.1 * s.Float64(), mom: s.Float64(), eps: 1e-7, b1: s.Float64(), b2: 0.9 + 0.1*s.Float64()}
		}
		o, err := newOpt(kind, h)
		must(err)
		W, B := g.reM(c, d, 1), g.reM(1, d, 1)
		y.own = append(y.own, func() M { return W }, func() M { return B })
		for q := 0; q < 6; q++ {
			dw, db := g.reM(c, d, 1), g.reM(1, d, 1)
			do(func() ([]M, error) { err := o.Update(&W, &B, dw, db); return []M{cp(W), cp(B)}, err })
		}
	case "mse", "mae", "ce", "bce":
		l, err := newLoss(kind, d+1)
		must(err)
		for q := 0; q < 3; q++ {
			P := g.mat(r, d+1, func() float64 { return 0.05 + 0.9*g.Float64() })
			Y := labelsFor(g, kind, r, d+1)
			do(func() ([]M, error) { v, err := l.Forward(P, Y); return []M{one(v)}, err })
			do(func() ([]M, error) { m, err := l.Backward(P, Y); return []M{m}, err })
		}
	case "misc":
		for q := 0; q < 3; q++ {
			X, I := g.reM(r, c, 1), g.mat(r, 1, func() float64 { return float64(g.Intn(4)) })
			vals(func() []M { return []M{nn.RowMax(X), nn.OutputBinaryValues(cp(X))} })
			do(func() ([]M, error) { m, err := nn.SparseToOneHot(I, 4); return []M{m}, err })
		}
	case "metrics":
		for q := 0; q < 6; q++ {
			P, Y := g.reM(r, c, 1), g.mat(r, c, func() float64 { return float64(g.Intn(2)) })
			H := oneHot(g, r, c)
			vals(func() []M {
				return []M{one(nn.RegressionAccuracy(P, Y, 0.5)), one(nn.CategoricalAccuracy(P, H)), one(nn.BinaryCategoricalAccuracy(cp(P), Y))}
			})
		}
	case "activations":
		for q := 0; q < 6; q++ {
			X, D := g.reM(r, c, 2), g.reM(r, c, 1)
			vals(func() []M {
				return []M{nn.RELU(cp(X)), nn.Sigmoid(cp(X)), nn.LeakyRELU(cp(X), 0.1), nn.Softmax(cp(X)), nn.RELUPrime(cp(D), cp(X)), nn.LeakyRELUPrime(cp(D), cp(X), 0.1)}
			})
		}
	case "shuffle":
		for q := 0; q < 6; q++ {
			n := 2 + s.Intn(6)
			X, Y := g.reM(n, 2, 1), zeros(n, 1)
			for i := range X.M {
				Y.M[i][0] = 2 * X.M[i][0]
			}
			vals(func() []M {
				A, B := nn.ShuffleDataset(X, Y)
				wrong := 0.0
				for i := range A.M {
					wrong += b2f(B.M[i][0] != 2*A.M[i][0])
				}
				A = cp(A)
				sort.Slice(A.M, func(i, j int) bool { return A.M[i][0] < A.M[j][0] })
				return []M{A, one(wrong)}
			})
		}
	case "init":
		ls := []*lay{}
		for _, k := range kinds {
			l, err := newLay(k, c, d, 0.5)
			must(err)
			ls = append(ls, l)
			y.own = append(y.own, l.w, l.b)
		}
		for _, l := range ls {
			l := l
			vals(func() []M {
				l.l.Init()
				w := l.w()
				z := 0.0
				for i := range w.M {
					for j := range w.M[i] {
						z += b2f(w.M[i][j] == 0)
					}
				}
				return []M{one(float64(w.Rows)), one(float64(w.Cols)), one(z)}
			})
		}
	case "model":
		a := randArch(s)
		for k := range a.W {
			a.W[k], a.B[k] = g.reM(a.W[k].Rows, a.W[k].Cols, 0.7), g.reM(1, a.B[k].Cols, 0.4)
		}
		m := a.build(true)
		for _, l := range m.Layers {
			w := wrap(l)
			y.own = append(y.own, w.w, w.b)
		}
		par := func() []M {
			o := []M{}
			for _, l := range m.Layers {
				o = append(o, cp(wrap(l).w()), cp(wrap(l).b()))
			}
			return o
		}
		D, E := a.data(g, 3), a.data(g, 2)
		do(func() ([]M, error) { err := m.Fit(D.X, D.Y, 2, 2, E.X, E.Y, 1); return par(), err })
		do(func() ([]M, error) { p, err := m.Predict(E.X); return []M{p}, err })
		do(func() ([]M, error) {
			l, err := m.CalculateLoss(D.X, D.Y)
			if err != nil {
				return nil, err
			}
			v, err := m.CalculateAccuracy(D.X, D.Y)
			return []M{one(l), one(v)}, err
		})
		do(func() ([]M, error) { err := m.Fit(E.X, E.Y, 1, 0, M{}, M{}, 0); return par(), err })
		var outs []M
		do(func() (o []M, err error) { outs, err = m.Forward(D.X, true); return outs, err })
		do(func() ([]M, error) {
			gs, err := m.Backward(outs, D.Y)
			o := []M{}
			for _, x := range gs {
				o = append(o, x.DWeights, x.DBiases)
			}
			return o, err
		})
	case "store", "layerstore":
		m := storedModel(g, 2, 3)
		file := filepath.Join(*tmp, fmt.Sprintf("lane%d-%d.nn", value, g.Intn(1<<30)))
		show := func(m *nn.Model) []M {
			o := []M{one(float64(m.LossType)), one(float64(m.OptimizerType)), one(m.AccuracyPercision)}
			for _, k := range valKeys {
				o = append(o, one(m.OptimizerValues[k]))
			}
			for _, l := range m.Layers {
				o = append(o, wrap(l).w(), wrap(l).b())
			}
			return o
		}
		for q := 0; q < 6; q++ {
			q := q
			do(func() ([]M, error) {
				if kind == "layerstore" {
					var buf bytes.Buffer
					d := nn.NewSavedLayerData(m.Layers[q%2])
					if err := d.SerializeLayer(&buf); err != nil {
						return nil, err
					}
					l, err := nn.LoadLayer(&buf)
					if err != nil {
						return nil, err
					}
					return []M{wrap(l).w(), wrap(l).b()}, nil
				}
				if q%2 == 0 {
					if err := nn.SaveFile(m, file); err != nil {
						return nil, err
					}
					x, err := nn.LoadFile(file)
					os.Remove(file)
					return show(&x), err
				}
				var buf bytes.Buffer
				d := nn.NewSavedModelData(*m)
				if err := d.Serialize(&buf); err != nil {
					return nil, err
				}
				if q == 3 { // another version: a message
					b := buf.Bytes()
					b[4] = '7'
				}
				x, err := nn.LoadModel(&buf)
				if err == nil {
					err = nn.SaveFile(m, "/no/such/directory/file")
					if err == nil {
						err = errors.New("saved to nowhere")
					} else {
						err = nil
					}
				}
				return show(&x), err
			})
		}
	}
	return y
}

type laneSpec struct {
	kind         string
	shape, value int64
}

type lt27 struct{ r *Rec }

// mine are the names of what belongs to a lane.
func (t *lt27) mine(run string, i int) []string {
	o := []string{}
	p := fmt.Sprintf("%s.%d.", run, i)
	for _, x := range t.r.objs {
		if strings.HasPrefix(x.name, p) {
			o = append(o, x.name)
		}
	}
	return o
}

// step makes the next call of a lane and keeps watching what it returned.
func (t *lt27) step(op, run string, i, k int, y *lane) {
	var ms []M
	t.r.Call(op, Ev{"run": run, "lane": i, "k": k + 1, "what": y.kind, "mine": t.mine(run, i)}, func(e Ev) (err error) {
		ms, err = y.steps[k]()
		e["res"] = mjs(ms)
		return
	})
	for q, m := range ms {
		m := m
		t.r.TrackF(fmt.Sprintf("%s.%d.%d.%d", run, i, k, q), func() M { return m })
	}
}

func (t *lt27) make(run string, i int, s laneSpec) *lane {
	y := newLane(s.kind, s.shape, s.value)
	for q, f := range y.own {
		t.r.TrackF(fmt.Sprintf("%s.%d.own%d", run, i, q), f)
	}
	return y
}

func (t *lt27) alone(specs []laneSpec) {
	for i, s := range specs {
		y := t.make("alone", i+1, s)
		for k := range y.steps {
			t.step("alone", "alone", i+1, k, y)
		}
	}
}

// concurrent runs every lane in a goroutine of its own.
func (t *lt27) concurrent(run string, specs []laneSpec) {
	type got struct {
		st, msg string
		now     []M
		later   []M
	}
	res := make([][]got, len(specs))
	t.r.Begin2(run)
	st, msg := t.r.guard("concurrent", func() error {
		var wg sync.WaitGroup
		start := make(chan bool)
		for i, s := range specs {
			y := newLane(s.kind, s.shape, s.value)
			res[i] = make([]got, len(y.steps))
			wg.Add(1)
			go func(i int, y *lane) {
				defer wg.Done()
				<-start
				for k := range y.steps {
					func() {
						x := &res[i][k]
						defer func() {
							if p := recover(); p != nil {
								x.st, x.msg = "panic", clean(fmt.Sprint(p))
							}
						}()
						ms, err := y.steps[k]()
						x.st, x.later = "ok", ms
						if err != nil {
							x.st, x.msg = "err", clean(err.Error())
						}
						for _, m := range ms {
							x.now = append(x.now, cp(m))
						}
					}()
				}
			}(i, y)
		}
		close(start)
		wg.Wait()
		return nil
	})
	if st != "ok" {
		t.r.ev = append(t.r.ev, Ev{"op": "step", "run": run, "lane": 1, "k": 1, "st": st, "msg": msg, "res": []Ev{}, "mine": []string{}, "chg": []string{}})
		return
	}
	for i := range res {
		for k := range res[i] {
			x := res[i][k]
			chg := []string{}
			for q := range x.now { // results must keep their values, unless the lane itself changed them
				if !sameM(x.now[q], x.later[q]) && specs[i].kind != "shuffle" && specs[i].kind != "store" {
					chg = append(chg, fmt.Sprintf("result %d of call %d", q, k+1))
				}
			}
			t.r.ev = append(t.r.ev, Ev{"op": "step", "run": run, "lane": i + 1, "k": k + 1, "what": specs[i].kind, "st": x.st, "msg": x.msg, "res": mjs(x.now), "mine": []string{}, "chg": chg})
		}
	}
}

// Begin2 forgets what is watched: concurrent calls are compared afterwards.
func (r *Rec) Begin2(string) { r.objs = nil }

func pickLanes(g Rng, k int) []laneSpec {
	o := []laneSpec{}
	kind := laneKinds[g.Intn(len(laneKinds))]
	shape := g.Int63()
	for i := 0; i < k; i++ {
		s := laneSpec{kind, shape, g.Int63()}
		if g.Intn(10) < 3 {
			s.kind = laneKinds[g.Intn(len(laneKinds))]
		}
		if g.Intn(10) < 3 {
			s.shape = g.Int63()
		}
		o = append(o, s)
	}
	return o
}

func driveC27(r *Rec) {
	g := NewRng(*seed)
	b, err := os.ReadFile(*progs)
	if err != nil {
		fatal(err)
	}
	count := 0
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var p struct{ S []int }
		if err := json.Unmarshal([]byte(l), &p); err != nil {
			fatal(err, l)
		}
		count++
		lanes := 0
		for _, i := range p.S {
			if i > lanes {
				lanes = i
			}
		}
		specs := pickLanes(g, lanes)
		if count <= len(laneKinds) { // every kind against itself
			for i := range specs {
				specs[i].kind, specs[i].shape = laneKinds[count-1], specs[0].shape
			}
		}
		t := &lt27{r}
		r.Begin(fmt.Sprintf("interleaved %d", count))
		t.alone(specs)
		ls := []*lane{}
		at := make([]int, lanes)
		for i, s := range specs {
			ls = append(ls, t.make("I", i+1, s))
		}
		advance := func(i int) {
			if at[i] < len(ls[i].steps) {
				t.step("step", "I", i+1, at[i], ls[i])
				at[i]++
			}
		}
		for _, i := range p.S {
			advance(i - 1)
		}
		for i := range ls {
			for at[i] < len(ls[i].steps) {
				advance(i)
			}
		}
		r.End()
	}
	if count == 0 {
		fatal("no programs")
	}
	for rep := 0; rep < n(6, 60)*len(laneKinds); rep++ {
		specs := pickLanes(g, 4)
		for i := range specs {
			if rep%2 == 0 {
				specs[i].kind = laneKinds[(rep/2)%len(laneKinds)]
			}
		}
		t := &lt27{r}
		r.Begin(fmt.Sprintf("concurrent %d", rep))
		first := []Ev{}
		if rep%4 < 2 { // nothing of the kind has been called before; the order of the events is that of the specification
			t.concurrent("F", specs)
			first, r.ev = r.ev, nil
		}
		t.alone(specs)
		r.ev = append(r.ev, first...)
		for q := 0; q < 3; q++ {
			t.concurrent(fmt.Sprint("C", q), specs)
		}
		r.End()
	}
}

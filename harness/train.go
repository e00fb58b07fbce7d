package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	nn "github.com/cubeflix/nn"
)

func init() {
	drivers["C15"] = driveC15
	drivers["C16"] = driveC16
	drivers["C17"] = driveC17
	drivers["C18"] = driveC18
}

// arch says how to build a model.
type arch struct {
	kinds   []string
	sizes   []int
	pars    []float64
	W, B    []M
	loss    string
	optKind string
	h       hyper
	acc     int
	prec    float64
	zero    bool // see deadArch
}

func (a arch) in() int  { return a.sizes[0] }
func (a arch) out() int { return a.sizes[len(a.sizes)-1] }

// randArch picks layers whose training is not random.
func randArch(g Rng) arch {
	a := arch{loss: lossKinds[g.Intn(4)], acc: g.Intn(3), prec: []float64{0, 0.1, 0.5, 1}[g.Intn(4)]}
	depth := 1 + g.Intn(3)
	if g.Intn(10) == 0 {
		depth = 4 + g.Intn(6)
	}
	a.sizes = []int{1 + g.Intn(3)}
	for k := 1; k <= depth; k++ {
		kind := kinds[g.Intn(len(kinds))]
		if k == depth {
			switch a.loss {
			case "ce":
				kind = []string{"softmax", "softmax", "sigmoid"}[g.Intn(3)]
			case "bce":
				kind = []string{"sigmoid", "sigmoid", "softmax"}[g.Intn(3)]
			default:
				kind = []string{"linear", "leaky", "sigmoid", "hidden", "linear"}[g.Intn(5)]
			}
		}
		p := 0.0
		if kind == "leaky" {
			p = []float64{0, 0.01, 0.5, 0.25}[g.Intn(4)]
		} else if kind == "dropout" && k < depth && g.Intn(4) == 0 {
			p = 1
		}
		out := 1 + g.Intn(4)
		a.W = append(a.W, g.reM(a.sizes[k-1], out, 0.7))
		a.B = append(a.B, g.reM(1, out, 0.4))
		a.kinds, a.sizes, a.pars = append(a.kinds, kind), append(a.sizes, out), append(a.pars, p)
	}
	a.optKind = []string{"sgd", "sgd", "adam"}[g.Intn(3)]
	a.h = hyper{rate: []float64{0.05, 0.01, 0.1}[g.Intn(3)], decay: []float64{0, 0, 0.1, 1e-3, 1e-4, 1e-6}[g.Intn(6)], mom: []float64{0, 0.9, 0.5}[g.Intn(3)],
		eps: []float64{1e-7, 1e-3}[g.Intn(2)], b1: 0.9, b2: []float64{0.999, 0.9}[g.Intn(2)]}
	return a
}

// deadArch makes an architecture that has no loss at all on data of dead, only on others.
func deadArch(g Rng) arch {
	a := randArch(g)
	depth := 1 + g.Intn(2)
	a.loss, a.zero, a.kinds, a.sizes, a.pars, a.W, a.B = []string{"mse", "mae"}[g.Intn(2)], true, nil, []int{1 + g.Intn(2)}, nil, nil, nil
	for k := 0; k < depth; k++ {
		out := 1 + g.Intn(2)
		a.kinds, a.pars, a.sizes = append(a.kinds, "hidden"), append(a.pars, 0), append(a.sizes, out)
		a.W = append(a.W, g.mat(a.sizes[k], out, func() float64 { return 1 + g.Float64() }))
		a.B = append(a.B, zeros(1, out))
	}
	a.h.rate = 0.001
	a.h.mom = []float64{0.9, 0.5}[g.Intn(2)]
	return a
}

// dead is data that leaves every unit of a deadArch off, as the labels want.
func (a arch) dead(g Rng, rows int) dataset {
	return dataset{g.mat(rows, a.in(), func() float64 { return -20 - 5*g.Float64() }), zeros(rows, a.out())}
}

func (a arch) layers() []*lay {
	ls := []*lay{}
	for k, kind := range a.kinds {
		y, err := newLay(kind, a.sizes[k], a.sizes[k+1], a.pars[k])
		must(err)
		y.set(a.W[k], a.B[k])
		ls = append(ls, y)
	}
	return ls
}

func (a arch) build(finalize bool) *nn.Model {
	m := nn.NewModel()
	for _, y := range a.layers() {
		must(m.AddLayer(y.l))
	}
	if finalize {
		a.finalize(&m)
	}
	return &m
}

func (a arch) finalize(m *nn.Model) {
	loss, err := newLoss(a.loss, a.out())
	must(err)
	o, err := newOpt(a.optKind, a.h)
	must(err)
	must(m.Finalize(loss, o, nn.AccuracyType(a.acc), a.prec))
}

type dataset struct{ X, Y M }

// into copies the data into a matrix pair that the caller uses again and again.
func (d dataset) into(b *dataset) dataset {
	fill := func(old *M, m M) M {
		for len(old.M) < m.Rows {
			old.M = append(old.M, make([]float64, m.Cols))
		}
		for i := range m.M {
			copy(old.M[i], m.M[i])
		}
		return M{Rows: m.Rows, Cols: m.Cols, M: old.M[:m.Rows]}
	}
	return dataset{fill(&b.X, d.X), fill(&b.Y, d.Y)}
}

func (a arch) data(g Rng, rows int) dataset {
	if a.zero && g.Intn(2) == 0 {
		return a.dead(g, rows)
	}
	X := g.reM(rows, a.in(), 0.8)
	if g.Intn(3) == 0 {
		X = g.mat(rows, a.in(), func() float64 { return float64(g.Intn(5)-2) / 2 })
	}
	Y := labelsFor(g, a.loss, rows, a.out())
	if a.loss == "mse" || a.loss == "mae" {
		Y = g.reM(rows, a.out(), 0.7)
		if !a.zero && a.in() == a.out() && g.Intn(2) == 0 { // to reproduce the input: one and the same matrix
			Y = X
		}
	}
	return dataset{X, Y}
}

func rows(m M, lo, hi int) M { // lo..hi from 1
	return cp(M{Rows: hi - lo + 1, Cols: m.Cols, M: m.M[lo-1 : hi]})
}

// trun is a training run of one model.
type trun struct {
	name string
	m    *nn.Model
	opts []nn.Optimizer
}

type tt struct {
	r    *Rec
	a    arch
	d    map[int]dataset
	runs map[string]*trun
	log  *logFile
	buf  *dataset // where the data of fits is put, if they all use the same matrices
}

func newTt(r *Rec, name string, a arch) *tt {
	r.Begin(name)
	return &tt{r: r, a: a, d: map[int]dataset{}, runs: map[string]*trun{}}
}

func (t *tt) put(k int, d dataset) {
	t.d[k] = d
	t.r.TrackF(fmt.Sprint("X", k), func() M { return d.X })
	t.r.TrackF(fmt.Sprint("Y", k), func() M { return d.Y })
}

func parOf(m *nn.Model) []interface{} {
	o := []interface{}{}
	for _, l := range m.Layers {
		y := wrap(l)
		o = append(o, Ev{"W": mj(y.w()), "B": mj(y.b())})
	}
	return o
}

func (t *tt) names(x *trun) []string {
	o := []string{}
	for k := range x.m.Layers {
		o = append(o, fmt.Sprint(x.name, "W", k), fmt.Sprint(x.name, "B", k))
	}
	return o
}

func (t *tt) watch(x *trun) {
	for k, l := range x.m.Layers {
		y := wrap(l)
		t.r.TrackF(fmt.Sprint(x.name, "W", k), y.w)
		t.r.TrackF(fmt.Sprint(x.name, "B", k), y.b)
	}
}

// start begins a run with the parameters of the architecture.
func (t *tt) start(name, base string, ready bool) *trun {
	x := &trun{name: name, m: t.a.build(ready)}
	t.begin(x, base, ready)
	return x
}

func (t *tt) begin(x *trun, base string, ready bool) {
	for range x.m.Layers {
		o, err := newOpt(t.a.optKind, t.a.h)
		must(err)
		x.opts = append(x.opts, o)
	}
	t.runs[x.name] = x
	t.watch(x)
	t.r.Note("start", Ev{"run": x.name, "base": base, "in": x.m.InputSize, "out": x.m.OutputSize, "ready": ready, "par": parOf(x.m)})
}

// step makes one update by hand.
func (t *tt) step(x *trun, b []int) {
	d := t.d[b[0]]
	X, Y := rows(d.X, b[1], b[2]), rows(d.Y, b[1], b[2])
	t.r.Call("step", Ev{"run": x.name, "batch": b}, func(e Ev) error {
		outs, err := x.m.Forward(X, true)
		if err != nil {
			return err
		}
		gs, err := x.m.Backward(outs, Y)
		if err != nil {
			return err
		}
		for k, l := range x.m.Layers {
			w, bb := wrap(l).params()
			q := gs[len(gs)-1-k]
			if err := x.opts[k].Update(w, bb, q.DWeights, q.DBiases); err != nil {
				return err
			}
		}
		e["par"] = parOf(x.m)
		return nil
	})
}

func (t *tt) eval(x *trun, k int) {
	d := t.d[k]
	t.r.Call("eval", Ev{"run": x.name, "d": k}, func(e Ev) error {
		v, err := x.m.CalculateLoss(d.X, d.Y)
		if err != nil {
			return err
		}
		a, err := x.m.CalculateAccuracy(d.X, d.Y)
		e["loss"], e["acc"] = num(v), num(a)
		return err
	})
}

// fitArgs are the data of a fit; bad says what is wrong with them.
func fitArgs(g Rng, d dataset, bad string) (X, Y M) {
	X, Y = d.X, d.Y
	switch bad {
	case "xwide":
		X = g.dyM(X.Rows, X.Cols+1)
	case "xnarrow":
		X = g.dyM(X.Rows, X.Cols-1)
	case "ywide":
		Y = g.dyM(Y.Rows, Y.Cols+1)
	case "ynarrow":
		Y = g.dyM(Y.Rows, Y.Cols-1)
	case "fewer":
		Y = rows(Y, 1, Y.Rows-1)
	case "more":
		Y = g.dyM(Y.Rows+1, Y.Cols)
	case "morex":
		X = g.dyM(X.Rows+2, X.Cols)
	case "empty":
		X, Y = M{}, M{}
	case "emptyx":
		X = M{}
	case "emptyy":
		Y = M{}
	}
	return
}

func (t *tt) fit(g Rng, x *trun, k, e, b, val, logEvery int, bad string) {
	d := t.d[k]
	if bad == "fewer" && d.Y.Rows == 1 || bad == "xnarrow" && d.X.Cols == 1 || bad == "ynarrow" && d.Y.Cols == 1 {
		bad = "more"
	}
	if t.buf != nil {
		d = d.into(t.buf)
	}
	X, Y := fitArgs(g, d, bad)
	if bad == "negative" {
		b = -b
	}
	if bad == "minus one" {
		b = -1
	}
	if bad == "big negative" {
		b = []int{-(1 << 30), -(1 << 31), math.MinInt64, math.MinInt64 + 1, math.MinInt32, -(1 << 32)}[g.Intn(6)]
	}
	var v dataset
	if val != 0 {
		v = t.d[val]
	}
	if t.buf != nil {
		t.r.Track("bufX", d.X)
		t.r.Track("bufY", d.Y)
		defer func() {
			t.r.Untrack("bufX")
			t.r.Untrack("bufY")
		}()
	}
	t.r.Call("fit", Ev{"run": x.name, "d": k, "xr": X.Rows, "xc": X.Cols, "yr": Y.Rows, "yc": Y.Cols, "e": e, "b": narrow(b), "val": val, "log": logEvery, "mine": t.names(x)}, func(ev Ev) error {
		err := x.m.Fit(X, Y, e, b, v.X, v.Y, logEvery)
		ev["par"] = parOf(x.m)
		if t.log != nil {
			ev["lines"] = t.log.next()
		}
		return err
	})
}

type tprog struct {
	N    []int `json:"n"`
	Fits []struct {
		E, B, D int
		Bad     string
	} `json:"fits"`
	Steps [][]int `json:"steps"`
}

// trainPrograms reads what TrainProto enumerated.
func trainPrograms() []tprog {
	b, err := os.ReadFile(*progs)
	if err != nil {
		fatal(err)
	}
	ps := []tprog{}
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var p tprog
		if err := json.Unmarshal([]byte(l), &p); err != nil {
			fatal(err, l)
		}
		ps = append(ps, p)
	}
	if len(ps) == 0 {
		fatal("no programs")
	}
	return ps
}

// reference makes the run that does every step by hand.
func (t *tt) reference(p tprog, evals ...int) {
	x := t.start("T", "a", true)
	for _, b := range p.Steps {
		t.step(x, b)
		for _, k := range evals {
			t.eval(x, k)
		}
	}
}

// archFor picks an architecture for programs.
func archFor(g Rng) arch {
	if g.Intn(12) == 0 {
		return deadArch(g)
	}
	return randArch(g)
}

func (t *tt) datasets(g Rng, p tprog) {
	if g.Intn(4) == 0 {
		t.buf = &dataset{}
	}
	t.put(1, t.a.data(g, p.N[0]))
	t.put(2, t.a.data(g, p.N[1]))
	t.put(3, t.a.data(g, 1+g.Intn(6)))
}

// smallArch is cheap enough for long runs.
func smallArch(g Rng) arch {
	for {
		a := randArch(g)
		n := 0
		for k := range a.kinds {
			n += a.W[k].Rows*a.W[k].Cols + a.B[k].Cols
		}
		if n <= 8 {
			return a
		}
	}
}

// longProgram is one fit of e epochs over n samples in batches of b.
func longProgram(n, b, e int) tprog {
	p := tprog{N: []int{n, 1}}
	for q := 0; q < e; q++ {
		for lo := 1; lo <= n; lo += b {
			hi := lo + b - 1
			if hi > n {
				hi = n
			}
			p.Steps = append(p.Steps, []int{1, lo, hi})
		}
	}
	return p
}

func driveC15(r *Rec) {
	g := NewRng(*seed)
	for k, p := range trainPrograms() {
		t := newTt(r, fmt.Sprintf("program %d", k), archFor(g))
		t.datasets(g, p)
		t.reference(p)
		x := t.start("F", "a", true)
		for _, f := range p.Fits {
			val, logEvery := 0, 0
			if g.Intn(4) == 0 {
				val, logEvery = g.Intn(4), g.Intn(3)
			}
			t.fit(g, x, f.D, f.E, f.B, val, logEvery, "")
		}
		r.End()
	}
	for rep := 0; rep < n(24, 300); rep++ {
		diverge(r, g, nil)
	}
	// many batches in an epoch
	for _, q := range [][3]int{{300, 1, 1}, {260, 1, 2}, {1030, 2, 1}, {140, 1, 2}}[:n(3, 4)] {
		t := newTt(r, "many batches", smallArch(g))
		p := longProgram(q[0], q[1], q[2])
		t.datasets(g, p)
		t.reference(p)
		x := t.start("F", "a", true)
		t.fit(g, x, 1, q[2], q[1], 0, 0, "")
		r.End()
	}
	dfits(r, g, false, false)
}

// diverge trains on values that are too large to be trained on.
func diverge(r *Rec, g Rng, log *logFile) {
	a := randArch(g)
	for a.loss != "mse" && a.loss != "mae" {
		a = randArch(g)
	}
	if g.Intn(2) == 0 {
		a.h.rate = []float64{30, 1e4, 1e100}[g.Intn(3)]
	}
	t := newTt(r, "diverging", a)
	t.log = log
	b, epochs := 1+g.Intn(3), 2+g.Intn(4)
	p := longProgram(1+g.Intn(5), b, epochs)
	t.datasets(g, p)
	for k, d := range t.d {
		f := []float64{1, 1e7, 1e40, 1e160, 1e300}[g.Intn(5)]
		for _, m := range []M{d.X, d.Y} {
			for _, row := range m.M {
				for j := range row {
					row[j] *= f
				}
			}
			if g.Intn(6) == 0 {
				m.M[g.Intn(m.Rows)][g.Intn(m.Cols)] = []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[g.Intn(3)]
			}
		}
		t.put(k, d)
	}
	val, every := 0, 0
	if log != nil {
		val, every = []int{0, 3, 2}[g.Intn(3)], 1
		t.reference(p, 1, 2, 3)
	} else {
		t.reference(p)
	}
	x := t.start("F", "a", true)
	t.fit(g, x, 1, epochs, b, val, every, "")
	r.End()
}

// look makes some call that must not matter.
func (t *tt) look(g Rng, x *trun) {
	d := t.d[1+g.Intn(3)]
	if g.Intn(3) == 0 {
		d = t.a.data(g, 1+g.Intn(5))
	}
	r := t.r
	r.Track("lookX", d.X)
	r.Track("lookY", d.Y)
	what := g.Intn(9)
	bad := g.Intn(4) == 0
	if bad { // data that does not fit
		what = g.Intn(5)
		switch g.Intn(3) {
		case 0:
			d.X = g.dyM(d.X.Rows, d.X.Cols+1)
		case 1:
			d.Y = g.dyM(d.Y.Rows+1, d.Y.Cols)
		case 2:
			d = dataset{g.dyM(2, d.X.Cols+2), g.dyM(3, d.Y.Cols+1)}
		}
		r.Track("lookX", d.X)
		r.Track("lookY", d.Y)
	}
	r.Call("look", Ev{"run": x.name, "what": what, "bad": bad}, func(e Ev) error {
		var err error
		switch what {
		case 0:
			_, err = x.m.Predict(d.X)
		case 1:
			_, err = x.m.CalculateLoss(d.X, d.Y)
		case 2:
			_, err = x.m.CalculateAccuracy(d.X, d.Y)
		case 3:
			_, err = x.m.Forward(d.X, false)
		case 4:
			_, err = x.m.Forward(d.X, true)
		case 5:
			var buf bytes.Buffer
			s := nn.NewSavedModelData(*x.m)
			err = s.Serialize(&buf)
		case 6:
			err = nn.SaveFile(x.m, filepath.Join(*tmp, "look.nn"))
		case 7:
			var outs []M
			if outs, err = x.m.Forward(d.X, true); err == nil {
				_, err = x.m.Backward(outs, d.Y)
			}
		case 8:
			err = nn.SaveFile(x.m, filepath.Join(*tmp, "look.nn"))
			if err == nil {
				var m nn.Model
				if m, err = nn.LoadFile(filepath.Join(*tmp, "look.nn")); err == nil { // training the copy is no business of the original
					err = m.Fit(d.X, d.Y, 1, 0, M{}, M{}, 0)
				}
			}
		}
		return err
	})
	r.Untrack("lookX")
	r.Untrack("lookY")
}

func driveC16(r *Rec) {
	g := NewRng(*seed)
	must(nn.InitLogger(true, true, filepath.Join(*tmp, "log")))
	for k, p := range trainPrograms() {
		t := newTt(r, fmt.Sprintf("program %d", k), archFor(g))
		t.datasets(g, p)
		t.reference(p)
		for q, name := range []string{"logged", "looked at"} {
			x := t.start(name, "a", true)
			for _, f := range p.Fits {
				val, logEvery := 0, 0
				if q == 0 || g.Intn(2) == 0 {
					val, logEvery = g.Intn(4), 1+g.Intn(2)
				}
				for q == 1 && g.Intn(4) > 0 {
					t.look(g, x)
				}
				t.fit(g, x, f.D, f.E, f.B, val, logEvery, "")
			}
			if q == 1 {
				t.look(g, x)
			}
		}
		r.End()
	}
	// dropout layers still drop as often as configured when the model is observed
	for _, rate := range []float64{0.5, 0.2} {
		for _, acc := range []int{0, 1, 2} {
			drops(r, g, rate, acc, true, false)
		}
	}
	dfits(r, g, true, false)
}

// drops counts the units of a dropout layer that learn something in single-sample training steps.
func drops(r *Rec, g Rng, rate float64, acc int, look, loaded bool) {
	r.Begin(fmt.Sprintf("training drops %v", rate))
	r.Call("drops", Ev{"rate": num(rate)}, func(e Ev) error {
		learnt, total := 0, 0
		d, err := nn.NewDropoutLayer(1, 8, rate)
		must(err)
		l, err := nn.NewLinearLayer(8, 2)
		must(err)
		m := nn.NewModel()
		must(m.AddLayer(&d))
		must(m.AddLayer(&l))
		loss, err := newLoss("mse", 2)
		must(err)
		o, err := newOpt("sgd", hyper{rate: 0.01})
		must(err)
		must(m.Finalize(loss, o, nn.AccuracyType(acc), 0.5))
		if loaded {
			var buf bytes.Buffer
			s := nn.NewSavedModelData(m)
			if err := s.Serialize(&buf); err != nil {
				return err
			}
			if m, err = nn.LoadModel(&buf); err != nil {
				return err
			}
		}
		first, second := wrap(m.Layers[0]), wrap(m.Layers[1])
		X, Y := g.mat(1, 1, func() float64 { return 1 }), g.mat(1, 2, func() float64 { return 50 })
		for q := 0; q < 300; q++ {
			first.set(g.mat(1, 8, func() float64 { return 1 }), zeros(1, 8))
			second.set(g.mat(8, 2, func() float64 { return 0.1 }), zeros(1, 2))
			if look {
				bad := g.dyM(2, 3)
				if q%4 == 3 {
					m.Predict(bad)
					m.CalculateLoss(bad, Y)
					m.CalculateAccuracy(X, bad)
				}
				switch q % 6 {
				case 0:
					_, err = m.Predict(X)
				case 1:
					_, err = m.CalculateLoss(X, Y)
				case 2:
					_, err = m.Forward(X, false)
				case 3:
					_, err = m.CalculateAccuracy(X, Y)
				case 4:
					var buf bytes.Buffer
					s := nn.NewSavedModelData(m)
					err = s.Serialize(&buf)
				}
				if err != nil {
					return err
				}
			}
			if q%2 == 0 {
				err = m.Fit(X, Y, 1, 0, M{}, M{}, 0)
			} else {
				err = m.Fit(X, Y, 1, 1, X, Y, 1)
			}
			if err != nil {
				return err
			}
			w := first.w()
			for j := 0; j < 8; j++ {
				total++
				if w.M[0][j] != 1 {
					learnt++
				}
			}
		}
		e["n"], e["k"] = total, learnt
		return nil
	})
	r.End()
}

// layJ describes layers for the specification.
func layJ(ls []*lay) []interface{} {
	o := []interface{}{}
	for _, y := range ls {
		o = append(o, Ev{"kind": y.kind, "in": y.in, "out": y.out, "par": num(y.par), "W": mj(y.w()), "B": mj(y.b())})
	}
	return o
}

// dropArch makes an architecture with one layer that really drops, of at most cells units.
func dropArch(g Rng, cells int) (arch, int) {
	a := randArch(g)
	for len(a.kinds) < 2 || a.loss != "mse" && a.loss != "mae" && a.kinds[len(a.kinds)-1] == "dropout" {
		a = randArch(g)
	}
	for k, kind := range a.kinds {
		if kind == "dropout" {
			a.kinds[k], a.pars[k] = "hidden", 0
		}
	}
	last := len(a.kinds) - 1
	d := g.Intn(last)
	if (a.loss == "mse" || a.loss == "mae") && g.Intn(3) == 0 {
		d = last
	}
	for a.sizes[d+1] > cells {
		a.sizes[d+1]--
	}
	a.kinds[d], a.pars[d] = "dropout", []float64{0.5, 0.2, 0.25, 0.75, 0.1, 0.9}[g.Intn(6)]
	for k := range a.kinds {
		a.W[k] = g.reM(a.sizes[k], a.sizes[k+1], 0.7)
		a.B[k] = g.reM(1, a.sizes[k+1], 0.4)
	}
	a.optKind, a.h = "sgd", hyper{rate: []float64{0.1, 0.5, 0.05}[g.Intn(3)]}
	return a, d
}

// dfits trains models that drop units, for few enough steps that every draw can be tried.
func dfits(r *Rec, g Rng, logging, loaded bool) {
	for rep := 0; rep < n(60, 900); rep++ {
		r.Begin("training with dropout")
		two := rep%4 == 0 // two steps
		a, d := dropArch(g, map[bool]int{true: 3, false: 6}[two])
		units := a.sizes[d+1]
		rows, b, e := 1, 0, 1
		if two {
			if rep%8 == 0 {
				rows, b = 2, 1
			} else {
				e = 2
			}
		} else {
			for (rows+1)*units <= 6 && g.Intn(3) > 0 {
				rows++
			}
			b = []int{0, rows, rows + 3}[g.Intn(3)]
		}
		m := a.build(true)
		ds := a.data(g, rows)
		if loaded {
			var buf bytes.Buffer
			s := nn.NewSavedModelData(*m)
			if s.Serialize(&buf) != nil {
				r.End()
				continue
			}
			l, err := nn.LoadModel(&buf)
			if err != nil {
				r.End()
				continue
			}
			m = &l
		}
		ls := []*lay{}
		for k, l := range m.Layers {
			if k >= len(a.kinds) {
				break
			}
			y := wrap(l)
			y.kind, y.in, y.out, y.par = a.kinds[k], a.sizes[k], a.sizes[k+1], a.pars[k]
			ls = append(ls, y)
		}
		r.Track("X", ds.X)
		r.Track("Y", ds.Y)
		var v dataset
		logEvery := 0
		if logging {
			if g.Intn(2) == 0 {
				v = a.data(g, 1+g.Intn(4))
			}
			logEvery = g.Intn(3)
			for q := g.Intn(3); q > 0; q-- {
				x := a.data(g, 1+g.Intn(3)).X
				if _, err := m.Forward(x, g.Intn(2) == 0); err != nil {
					break
				}
				m.Predict(x)
				if g.Intn(2) == 0 {
					m.Predict(g.dyM(2, a.in()+1))
					m.Forward(g.dyM(2, a.in()+1), false)
				}
			}
		}
		r.Call("dfit", Ev{"lay": layJ(ls), "loss": a.loss, "rate": num(a.h.rate), "x": mj(ds.X), "y": mj(ds.Y), "e": e, "b": b}, func(ev Ev) error {
			err := m.Fit(ds.X, ds.Y, e, b, v.X, v.Y, logEvery)
			ev["par"] = parOf(m)
			return err
		})
		r.End()
	}
}

func driveC17(r *Rec) {
	g := NewRng(*seed)
	for k, p := range trainPrograms() {
		t := newTt(r, fmt.Sprintf("program %d", k), archFor(g))
		t.datasets(g, p)
		t.reference(p)
		x := t.start("F", "a", true)
		for _, f := range p.Fits {
			val, logEvery := 0, 0
			if g.Intn(3) == 0 {
				val, logEvery = g.Intn(4), g.Intn(3)
			}
			t.fit(g, x, f.D, f.E, f.B, val, logEvery, f.Bad)
		}
		r.End()
	}
	// models that are not complete
	for rep := 0; rep < n(60, 600); rep++ {
		t := newTt(r, "not finalized", randArch(g))
		p := tprog{N: []int{1 + g.Intn(5), 3}, Steps: [][]int{}}
		t.datasets(g, p)
		bs := []int{0, 1, 2}
		x := t.start("N", "a", false)
		t.fit(g, x, 1, 1+g.Intn(2), bs[g.Intn(3)], g.Intn(4), g.Intn(2), "")
		t.fit(g, x, 2, 1, bs[g.Intn(3)], 0, 0, "xwide")
		if rep%3 == 0 { // no layers at all
			m := nn.NewModel()
			e := &trun{name: "E", m: &m}
			t.begin(e, "empty", false)
			t.fit(g, e, 1, 1, 0, 0, 0, "")
			t.fit(g, e, 1, 1, 1, 0, 0, "empty")
		}
		// complete, then a layer too many
		y := t.start("L", "a", true)
		twin := t.start("T", "a", true)
		b := 1 + g.Intn(3)
		steps := [][]int{}
		for lo := 1; lo <= p.N[0]; lo += b {
			hi := lo + b - 1
			if hi > p.N[0] {
				hi = p.N[0]
			}
			steps = append(steps, []int{1, lo, hi})
		}
		for _, s := range steps {
			t.step(twin, s)
		}
		t.fit(g, y, 1, 1, b, 0, 0, "")
		out := y.m.OutputSize
		if rep%2 == 0 {
			out = 1 + g.Intn(4)
		}
		z, err := newLay("linear", y.m.OutputSize, out, 0)
		must(err)
		z.set(g.reM(z.in, z.out, 1), g.reM(1, z.out, 1))
		t.r.Call("addlayer", Ev{"run": "L"}, func(Ev) error { return y.m.AddLayer(z.l) })
		t.watch(y)
		for q := 0; q < 2; q++ {
			t.fit(g, y, 1+g.Intn(2), 1, bs[g.Intn(3)], 0, 0, "")
		}
		r.End()
	}
}

// ---- progress lines ----

type logFile struct {
	path string
	off  int64
}

func openLog(name string) *logFile {
	p := filepath.Join(*tmp, name)
	must(nn.InitLogger(true, true, p))
	return &logFile{path: p}
}

var (
	reEpoch = regexp.MustCompile(`(?i)epoch\D{0,3}(-?\d+)`)
	reLoss  = regexp.MustCompile(`(?i)loss\D{0,3}?([-+]?(?:[0-9.]+(?:e[-+]?[0-9]+)?|nan|inf))`)
	reAcc   = regexp.MustCompile(`(?i)accuracy\D{0,3}?([-+]?(?:[0-9.]+(?:e[-+]?[0-9]+)?|nan|inf))`)
)

// next parses the info lines written since the last call.
func (l *logFile) next() []Ev {
	b, err := os.ReadFile(l.path)
	must(err)
	s := string(b[l.off:])
	l.off = int64(len(b))
	out := []Ev{}
	for _, x := range strings.Split(s, "\n") {
		if x == "" {
			continue
		}
		e := Ev{"epoch": -1, "val": false, "loss": "NaN", "acc": "NaN", "info": strings.Contains(x, "[info]"), "told": 0}
		if m := reEpoch.FindStringSubmatch(x); m != nil {
			e["epoch"], _ = strconv.Atoi(m[1])
		}
		e["val"] = strings.Contains(strings.ToLower(x), "validation")
		for k, re := range map[string]*regexp.Regexp{"loss": reLoss, "acc": reAcc} {
			if m := re.FindStringSubmatch(x); m != nil {
				if f, err := strconv.ParseFloat(m[1], 64); err == nil {
					e[k] = num(f)
					e["told"] = e["told"].(int) + 1
				}
			}
		}
		out = append(out, e)
	}
	return out
}

func driveC18(r *Rec) {
	g := NewRng(*seed)
	log := openLog("log")
	for k, p := range trainPrograms() {
		a := archFor(g)
		t := newTt(r, fmt.Sprintf("program %d", k), a)
		t.log = log
		t.datasets(g, p)
		t.reference(p, 1, 2, 3)
		x := t.start("F", "a", true)
		for q, f := range p.Fits {
			t.fit(g, x, f.D, f.E, f.B, []int{0, 3, 1, 2}[(k+q)%4], []int{1, 2, 3, 0, 5, 1, 4, 100}[g.Intn(8)], "")
		}
		r.End()
	}
	for rep := 0; rep < n(40, 500); rep++ {
		diverge(r, g, log)
	}
	// units are dropped while training, but not when the loss is measured
	for rep := 0; rep < n(60, 800); rep++ {
		r.Begin("progress with dropout")
		a, d := dropArch(g, 9)
		a.pars[d] = []float64{0.5, 0.3, 0.75, 0.05}[g.Intn(4)]
		if rep%3 == 0 {
			a.optKind, a.h = "adam", hyper{rate: 0.01, eps: 1e-7, b1: 0.9, b2: 0.999}
		}
		m := a.build(true)
		ls := a.layers()
		ds := a.data(g, []int{1, 3, 8, 26, 40, 70, 129}[rep%7])
		v, val := dataset{}, 0
		if g.Intn(2) == 0 {
			v, val = a.data(g, []int{1, 2, 30, 66}[g.Intn(4)]), 1
		}
		e, every := 1+g.Intn(4), 1
		if e%2 == 1 && g.Intn(2) == 0 {
			every = 2
		}
		ev := Ev{"lay": layJ(ls), "loss": a.loss, "acc": a.acc, "prec": num(a.prec), "x": mj(ds.X), "y": mj(ds.Y), "e": e, "log": every, "val": val}
		if val != 0 {
			ev["vx"], ev["vy"] = mj(v.X), mj(v.Y)
		}
		r.Call("dreport", ev, func(ev Ev) error {
			err := m.Fit(ds.X, ds.Y, e, []int{0, 2, 7, 64}[g.Intn(4)], v.X, v.Y, every)
			ev["par"] = parOf(m)
			ev["lines"] = log.next()
			return err
		})
		r.End()
	}
	_ = math.Pi
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"
)

func init() {
	drivers["C03"] = driveC03
	drivers["C04"] = driveC04
	drivers["C05"] = driveC05
	drivers["C06"] = driveC06
	drivers["C26"] = driveC26
}

var kinds = []string{"hidden", "linear", "sigmoid", "leaky", "softmax", "dropout"}

// lay is a layer of any kind.
type lay struct {
	kind    string
	l       nn.Layer
	in, out int
	par     float64
}

func newLay(kind string, in, out int, par float64) (*lay, error) {
	y := &lay{kind: kind, in: in, out: out, par: par}
	var err error
	switch kind {
	case "hidden":
		var l nn.HiddenLayer
		l, err = nn.NewLayer(in, out)
		y.l = &l
	case "linear":
		var l nn.LinearLayer
		l, err = nn.NewLinearLayer(in, out)
		y.l = &l
	case "sigmoid":
		var l nn.SigmoidLayer
		l, err = nn.NewSigmoidLayer(in, out)
		y.l = &l
	case "leaky":
		var l nn.LeakyLayer
		l, err = nn.NewLeakyLayer(in, out, par)
		y.l = &l
	case "softmax":
		var l nn.SoftmaxLayer
		l, err = nn.NewSoftmaxLayer(in, out)
		y.l = &l
	case "dropout":
		var l nn.DropoutLayer
		l, err = nn.NewDropoutLayer(in, out, par)
		y.l = &l
	}
	return y, err
}

// wrap makes a lay of a layer of the library.
func wrap(l nn.Layer) *lay {
	switch v := l.(type) {
	case *nn.HiddenLayer:
		return &lay{"hidden", l, v.InputSize, v.OutputSize, 0}
	case *nn.LinearLayer:
		return &lay{"linear", l, v.InputSize, v.OutputSize, 0}
	case *nn.SigmoidLayer:
		return &lay{"sigmoid", l, v.InputSize, v.OutputSize, 0}
	case *nn.LeakyLayer:
		return &lay{"leaky", l, v.InputSize, v.OutputSize, v.Slope}
	case *nn.SoftmaxLayer:
		return &lay{"softmax", l, v.InputSize, v.OutputSize, 0}
	case *nn.DropoutLayer:
		return &lay{"dropout", l, v.InputSize, v.OutputSize, v.Dropout}
	}
	return nil
}

// params are the layer's weights and biases.
func (y *lay) params() (*M, *M) {
	switch l := y.l.(type) {
	case *nn.HiddenLayer:
		return l.Weights, l.Biases
	case *nn.LinearLayer:
		return l.Weights, l.Biases
	case *nn.SigmoidLayer:
		return l.Weights, l.Biases
	case *nn.LeakyLayer:
		return l.Weights, l.Biases
	case *nn.SoftmaxLayer:
		return l.Weights, l.Biases
	case *nn.DropoutLayer:
		return l.Weights, l.Biases
	}
	return nil, nil
}

func (y *lay) w() M { w, _ := y.params(); return *w }
func (y *lay) b() M { _, b := y.params(); return *b }

// set writes the values of W and B into the layer.
func (y *lay) set(W, B M) {
	w, b := y.params()
	for i := range W.M {
		copy(w.M[i], W.M[i])
	}
	for i := range B.M {
		copy(b.M[i], B.M[i])
	}
}

// clone is a new layer with the same parameters, made through the constructors.
func (y *lay) clone() *lay {
	c, err := newLay(y.kind, y.in, y.out, y.par)
	must(err)
	c.set(y.w(), y.b())
	return c
}

// lt drives layers within one trace.
type lt struct {
	r *Rec
	k int // counter for names
	m map[string]*M

	grads []string // the gradients of the latest backward pass
}

func (t *lt) add(o, kind string, in, out int, par float64) *lay {
	var y *lay
	t.r.Call("new", Ev{"o": o, "kind": kind, "in": in, "out": out, "par": num(par)}, func(e Ev) (err error) {
		y, err = newLay(kind, in, out, par)
		if err == nil {
			e["W"], e["B"] = mj(y.w()), mj(y.b())
		}
		return
	})
	return y
}

func (t *lt) watch(o string, y *lay) {
	t.r.TrackF(o+".W", y.w)
	t.r.TrackF(o+".B", y.b)
}

func (t *lt) setp(o string, y *lay, W, B M) {
	t.r.Note2("setp", Ev{"o": o, "W": mj(W), "B": mj(B)}, func() { y.set(W, B) })
	t.watch(o, y)
}

// let names a matrix of the caller and watches it.
func (t *lt) let(m M) string {
	t.k++
	n := fmt.Sprintf("m%d", t.k)
	p := &m
	t.m[n] = p
	t.r.TrackF(n, func() M { return *p })
	return n
}

func newLt(r *Rec, name string) *lt {
	r.Begin(name)
	return &lt{r: r, m: map[string]*M{}}
}

// fwd runs a forward pass; it returns the name of the output, or "".
func (t *lt) fwd(o string, y *lay, x string, nodrop bool) string {
	op := "fwd"
	if nodrop {
		op = "nodrop"
	}
	var res M
	X := *t.m[x]
	e := t.r.Call(op, Ev{"o": o, "x": mj(X)}, func(e Ev) (err error) {
		if d, ok := y.l.(*nn.DropoutLayer); ok && nodrop {
			res, err = d.ForwardNoDropout(X)
		} else {
			res, err = y.l.Forward(X)
		}
		e["res"] = mj(res)
		return
	})
	if e["st"] == "ok" {
		return t.let(res)
	}
	return ""
}

func (t *lt) bwd(o string, y *lay, x, dv string) {
	X, D := *t.m[x], *t.m[dv]
	var a, b, c M
	e := t.r.Call("bwd", Ev{"o": o, "x": mj(X), "dv": mj(D)}, func(e Ev) (err error) {
		a, b, c, err = y.l.Backward(X, D)
		if err == nil {
			e["dw"], e["db"], e["dx"] = mj(a), mj(b), mj(c)
		}
		return
	})
	if e["st"] == "ok" {
		t.grads = []string{t.let(a), t.let(b), t.let(c)}
	}
}

func (t *lt) bce(o string, y *lay, x, lab, p string) {
	X, Y, P := *t.m[x], *t.m[lab], *t.m[p]
	t.r.Call("bce", Ev{"o": o, "x": mj(X), "y": mj(Y), "p": mj(P)}, func(e Ev) error {
		a, b, c, err := y.l.(*nn.SoftmaxLayer).BackwardCrossEntropy(X, Y, P)
		if err == nil {
			e["dw"], e["db"], e["dx"] = mj(a), mj(b), mj(c)
		}
		return err
	})
}

// mut overwrites a matrix of the caller.
func (t *lt) mut(g Rng, name string) {
	t.r.Note2("mut", Ev{"a": name}, func() {
		m := *t.m[name]
		for i := range m.M {
			for j := range m.M[i] {
				m.M[i][j] = g.dy() + 100
			}
		}
	})
}

// refill overwrites a matrix of the caller with ordinary values.
func (t *lt) refill(g Rng, name string) {
	t.r.Note2("mut", Ev{"a": name}, func() {
		for _, row := range t.m[name].M {
			for j := range row {
				row[j] = g.re(1.5)
			}
		}
	})
}

// swap gives the layer other matrices as weights and biases.
func (t *lt) swap(o string, y *lay, W, B M) {
	t.r.Note2("setp", Ev{"o": o, "W": mj(W), "B": mj(B)}, func() {
		W, B := cp(W), cp(B)
		switch l := y.l.(type) {
		case *nn.HiddenLayer:
			l.Weights, l.Biases = &W, &B
		case *nn.LinearLayer:
			l.Weights, l.Biases = &W, &B
		case *nn.SigmoidLayer:
			l.Weights, l.Biases = &W, &B
		case *nn.LeakyLayer:
			l.Weights, l.Biases = &W, &B
		case *nn.SoftmaxLayer:
			l.Weights, l.Biases = &W, &B
		case *nn.DropoutLayer:
			l.Weights, l.Biases = &W, &B
		}
	})
	t.watch(o, y)
}

// reload saves the layer and puts the loaded one in its place.
func (t *lt) reload(o string, y *lay) {
	t.r.Call("reload", Ev{"o": o}, func(e Ev) error {
		var buf bytes.Buffer
		s := nn.NewSavedLayerData(y.l)
		if err := s.SerializeLayer(&buf); err != nil {
			return err
		}
		l, err := nn.LoadLayer(&buf)
		if err != nil {
			return err
		}
		got := wrap(l)
		if got == nil {
			return errors.New("no such layer")
		}
		*y = *got
		e["kind"], e["in"], e["out"], e["par"], e["W"], e["B"] = y.kind, y.in, y.out, num(y.par), mj(y.w()), mj(y.b())
		return nil
	})
	t.watch(o, y)
}

// repar sets the slope or the dropout rate.
func (t *lt) repar(o string, y *lay, p float64) {
	t.r.Note2("repar", Ev{"o": o, "par": num(p)}, func() {
		y.par = p
		switch l := y.l.(type) {
		case *nn.LeakyLayer:
			l.Slope = p
		case *nn.DropoutLayer:
			l.Dropout = p
		}
	})
}

func par(g Rng, kind string) float64 {
	switch kind {
	case "leaky":
		return []float64{0, 0.01, 0.5, 1, 2, 0.25}[g.Intn(6)]
	case "dropout":
		return []float64{0, 0.5, 0.25, 1, 0.9, 0.1, 0.01, 0.03, 0.99}[g.Intn(9)]
	}
	return 0
}

// trainable picks parameters for which a pass is not random.
func fixedPar(g Rng, kind string) float64 {
	if kind == "dropout" {
		return 0
	}
	return par(g, kind)
}

func oneHot(g Rng, r, c int) M {
	m := zeros(r, c)
	for i := range m.M {
		m.M[i][g.Intn(c)] = 1
	}
	return m
}

var layerShapes = [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 5}, {5, 1}, {4, 4}, {3, 7}, {7, 3}}

func driveC03(r *Rec) {
	g := NewRng(*seed)
	for rep := 0; rep < n(2, 30); rep++ {
		for _, kind := range kinds {
			for si, s := range layerShapes {
				t := newLt(r, fmt.Sprintf("%s %v", kind, s))
				y := t.add("L", kind, s[0], s[1], par(g, kind))
				if y == nil {
					r.End()
					continue
				}
				t.watch("L", y)
				nodrop := kind == "dropout"
				x0 := t.let(g.dyM(2, s[0]))
				t.fwd("L", y, x0, nodrop) // zero parameters
				for q, rows := range []int{1, 3, 2, 5, 4} {
					dyadic := (q+si)%2 == 0
					if dyadic {
						t.setp("L", y, g.dyM(s[0], s[1]), g.dyM(1, s[1]))
					} else {
						t.setp("L", y, g.reM(s[0], s[1], 1.5), g.reM(1, s[1], 1))
					}
					var x string
					switch {
					case dyadic:
						x = t.let(g.dyM(rows, s[0]))
					case q == 3: // large values
						x = t.let(g.reM(rows, s[0], 300))
					default:
						x = t.let(g.reM(rows, s[0], 2))
					}
					t.fwd("L", y, x, nodrop)
					t.fwd("L", y, x, nodrop)
					if g.Intn(2) == 0 {
						t.fwd("L", y, t.let(g.dyM(rows, s[0]+1+g.Intn(2))), nodrop)
						if s[0] > 1 {
							t.fwd("L", y, t.let(g.dyM(rows, s[0]-1)), nodrop)
						}
						t.fwd("L", y, t.let(g.dyM(1+g.Intn(3), s[0])), nodrop)
					}
				}
				r.End()
			}
		}
	}
	// all zero pre-activations, ties, single rows and columns
	for _, kind := range kinds {
		t := newLt(r, "extreme "+kind)
		p := fixedPar(g, kind)
		y := t.add("L", kind, 3, 4, p)
		t.watch("L", y)
		nodrop := kind == "dropout"
		id := zeros(3, 4)
		for i := 0; i < 3; i++ {
			id.M[i][i] = 1
		}
		t.setp("L", y, id, zeros(1, 4))
		big := []float64{1, 30, 700, 745, 800, 1e4, 1e6, 1e15, 1e100, 1e300}
		for _, b := range big {
			for k := 0; k < 3; k++ {
				x := g.mat(2, 3, func() float64 { return b * float64(g.Intn(5)-2) })
				if k == 0 {
					x.M[0] = []float64{b, b, b}
					x.M[1] = []float64{-b, -b, -2 * b}
				}
				t.fwd("L", y, t.let(x), nodrop)
			}
		}
		t.setp("L", y, g.dyM(3, 4), g.mat(1, 4, func() float64 { return float64(g.Intn(7)-3) * 1000 }))
		for k := 0; k < 4; k++ {
			t.fwd("L", y, t.let(g.dyM(1+k, 3)), nodrop)
		}
		r.End()
	}
	// values close to 0
	for _, kind := range kinds {
		t := newLt(r, "tiny "+kind)
		y := t.add("L", kind, 3, 3, map[bool]float64{true: 0, false: 0.25}[kind == "dropout"])
		t.watch("L", y)
		W := zeros(3, 3)
		for i := range W.M {
			W.M[i][i] = []float64{1, -1, 0.5}[i]
		}
		t.setp("L", y, W, zeros(1, 3))
		for _, b := range []float64{1e-5, 1e-9, 1e-12, 1e-13, 1e-15, 1e-16, 1e-18, 1e-30, 1e-100, 1e-200, 1e-300} {
			t.fwd("L", y, t.let(g.mat(4, 3, func() float64 { return b * (g.Float64() - 0.5) })), kind == "dropout")
		}
		for _, b := range []float64{1e-5, 1e-10, 1e-14, 1e-50} { // and biases of that size
			t.setp("L", y, g.reM(3, 3, b), g.reM(1, 3, b))
			t.fwd("L", y, t.let(g.reM(3, 3, 1)), kind == "dropout")
			t.fwd("L", y, t.let(g.reM(3, 3, b)), kind == "dropout")
		}
		r.End()
	}
	// the same matrices with other contents
	for rep := 0; rep < n(3, 20); rep++ {
		for _, kind := range kinds {
			t := newLt(r, "refilled "+kind)
			in, out := 1+g.Intn(3), 1+g.Intn(4)
			y := t.add("L", kind, in, out, fixedPar(g, kind))
			t.watch("L", y)
			t.setp("L", y, g.reM(in, out, 1), g.reM(1, out, 1))
			x := t.let(g.reM(1+g.Intn(4), in, 1))
			for q := 0; q < 4; q++ {
				t.fwd("L", y, x, kind == "dropout" && g.Intn(2) == 0)
				switch q {
				case 0, 2:
					t.refill(g, x)
				case 1:
					t.swap("L", y, g.reM(in, out, 1), g.reM(1, out, 1))
					t.repar("L", y, fixedPar(g, kind))
				}
			}
			r.End()
		}
	}
	// rows on one side of 0, with the largest entry anywhere
	for _, kind := range kinds {
		for _, s := range [][2]int{{3, 3}, {2, 12}, {1, 40}, {4, 7}} {
			t := newLt(r, fmt.Sprintf("wide %s %v", kind, s))
			y := t.add("L", kind, s[0], s[1], fixedPar(g, kind))
			t.watch("L", y)
			nodrop := kind == "dropout"
			for _, b := range []float64{1, 100, 800, 1e4} {
				for _, off := range []float64{-4 * b, 4 * b, 0} {
					B := g.mat(1, s[1], func() float64 { return off + b*g.Float64() })
					B.M[0][g.Intn(s[1])] += 3 * b
					t.setp("L", y, g.reM(s[0], s[1], 0.5), B)
					t.fwd("L", y, t.let(g.reM(1+g.Intn(3), s[0], 1)), nodrop)
				}
			}
			r.End()
		}
	}
	// larger layers and batches
	for _, kind := range kinds {
		for _, s := range [][3]int{{33, 17, 65}, {130, 3, 2}, {2, 129, 3}, {64, 64, 4}, {1, 1, 300}, {6, 12, 40}, {3, 2, 1003}, {2, 1, 4099}, {1101, 2, 2}, {2, 1101, 2}, {66, 72, 65}} {
			t := newLt(r, fmt.Sprintf("large %s %v", kind, s))
			y := t.add("L", kind, s[0], s[1], fixedPar(g, kind))
			t.watch("L", y)
			t.setp("L", y, g.reM(s[0], s[1], 0.5), g.reM(1, s[1], 1))
			nodrop := kind == "dropout"
			x := t.let(g.reM(s[2], s[0], 1))
			t.fwd("L", y, x, nodrop)
			t.fwd("L", y, t.let(g.reM(2, s[0], 1)), nodrop)
			r.End()
		}
	}
}

func driveC04(r *Rec) {
	g := NewRng(*seed)
	ks := kinds[:5]
	for rep := 0; rep < n(3, 40); rep++ {
		for _, kind := range ks {
			for si, s := range layerShapes {
				t := newLt(r, fmt.Sprintf("%s %v", kind, s))
				y := t.add("L", kind, s[0], s[1], par(g, kind))
				if y == nil {
					r.End()
					continue
				}
				t.watch("L", y)
				for q := 0; q < 4; q++ {
					rows := []int{1, 2, 3, 5, 8}[g.Intn(5)]
					mk := func(a, b int) M { return g.reM(a, b, 1.2) }
					if (q+si+rep)%2 == 0 {
						mk = g.dyM
					}
					t.setp("L", y, mk(s[0], s[1]), mk(1, s[1]))
					if g.Intn(2) == 0 { // an older pass, of the same or another batch size
						old := rows
						if g.Intn(2) == 0 {
							old = 1 + g.Intn(6)
						}
						t.fwd("L", y, t.let(mk(old, s[0])), false)
						if g.Intn(2) == 0 {
							t.fwd("L", y, t.let(mk(1+g.Intn(3), s[0]+1)), false) // refused
						}
					}
					x := t.let(mk(rows, s[0]))
					out := t.fwd("L", y, x, false)
					if out != "" && g.Intn(3) == 0 {
						t.mut(g, out)
					}
					dv := t.let(mk(rows, s[1]))
					t.bwd("L", y, x, dv)
					if len(t.grads) > 0 && g.Intn(2) == 0 {
						t.mut(g, t.grads[g.Intn(len(t.grads))])
					}
					if g.Intn(2) == 0 {
						t.bwd("L", y, x, dv)
					}
					dv2 := t.let(mk(rows, s[1]))
					t.bwd("L", y, x, dv2)
					if g.Intn(3) == 0 {
						t.fwd("L", y, t.let(mk(1+g.Intn(4), s[0]+1)), false) // refused
						t.bwd("L", y, x, dv)
					}
				}
				r.End()
			}
		}
	}
	// pre-activations exactly at 0, and saturated ones
	for _, kind := range ks {
		for rep := 0; rep < 4; rep++ {
			t := newLt(r, "special "+kind)
			y := t.add("L", kind, 2, 3, []float64{0.25, 0, 1, 0.5}[rep])
			t.watch("L", y)
			W := zeros(2, 3)
			W.M[0][0], W.M[1][1], W.M[0][2], W.M[1][2] = 1, 1, 1, -1
			t.setp("L", y, W, zeros(1, 3))
			for _, b := range []float64{8, 14, 20, 24, 28, 35} { // flat, but not yet 0
				x := g.mat(3, 2, func() float64 { return b * (0.8 + 0.4*g.Float64()) })
				for i := range x.M {
					if i != 1 {
						x.M[i][i/2] = -x.M[i][i/2]
					}
				}
				xn := t.let(x)
				t.fwd("L", y, xn, false)
				t.bwd("L", y, xn, t.let(g.reM(3, 3, 1)))
			}
			for _, b := range []float64{0, 1, 20, 40, 800, 1e5} {
				x := g.mat(4, 2, func() float64 { return b * float64(g.Intn(3)-1) })
				x.M[0] = []float64{0, 0}
				x.M[1] = []float64{b, b}
				xn := t.let(x)
				t.fwd("L", y, xn, false)
				t.bwd("L", y, xn, t.let(g.dyM(4, 3)))
				t.bwd("L", y, xn, t.let(g.mat(4, 3, func() float64 { return 1 })))
			}
			r.End()
		}
	}
	// values close to 0, far from each other, and matrices that are used again with other contents
	for _, kind := range ks {
		for rep := 0; rep < n(2, 12); rep++ {
			t := newLt(r, "tiny "+kind)
			y := t.add("L", kind, 2, 3, 0.25)
			t.watch("L", y)
			for q, b := range []float64{1e-5, 1e-9, 1e-13, 1e-18, 1e-100} {
				t.setp("L", y, g.reM(2, 3, []float64{b, 1, 1}[(q+rep)%3]), g.reM(1, 3, []float64{b, b, 0}[(q+rep)%3]))
				x := t.let(g.reM(3, 2, []float64{1, b, b}[(q+rep)%3]))
				t.fwd("L", y, x, false)
				t.bwd("L", y, x, t.let(g.reM(3, 3, 1)))
				t.bwd("L", y, x, t.let(g.reM(3, 3, b)))
				t.bwd("L", y, x, t.let(g.reM(3, 3, 1/b)))
			}
			r.End()
			t = newLt(r, "refilled "+kind)
			y = t.add("L", kind, 2, 3, fixedPar(g, kind))
			t.watch("L", y)
			t.setp("L", y, g.reM(2, 3, 1), g.reM(1, 3, 1))
			x, dv := t.let(g.reM(3, 2, 1)), t.let(g.reM(3, 3, 1))
			for q := 0; q < 5; q++ {
				t.fwd("L", y, x, false)
				t.bwd("L", y, x, dv)
				t.refill(g, dv)
				t.bwd("L", y, x, dv)
				if q == 2 {
					t.swap("L", y, g.reM(2, 3, 1), g.reM(1, 3, 1))
					t.repar("L", y, fixedPar(g, kind))
				} else {
					t.refill(g, x)
				}
			}
			r.End()
		}
	}
	for _, kind := range ks {
		for _, s := range [][3]int{{33, 17, 40}, {2, 66, 3}, {130, 3, 2}, {20, 20, 5}, {1, 1, 300}, {6, 12, 33}, {3, 2, 1003}, {2, 1, 4099}, {601, 2, 2}, {2, 601, 2}, {66, 72, 65}} {
			t := newLt(r, fmt.Sprintf("large %s %v", kind, s))
			y := t.add("L", kind, s[0], s[1], fixedPar(g, kind))
			t.watch("L", y)
			t.setp("L", y, g.reM(s[0], s[1], 0.4), g.reM(1, s[1], 1))
			x := t.let(g.reM(s[2], s[0], 1))
			t.fwd("L", y, x, false)
			t.bwd("L", y, x, t.let(g.reM(s[2], s[1], 1)))
			r.End()
		}
	}
	// two layers of one kind take turns
	for _, kind := range ks {
		for rep := 0; rep < n(4, 40); rep++ {
			t := newLt(r, "two "+kind)
			a := t.add("L", kind, 2, 2, fixedPar(g, kind))
			b := t.add("K", kind, 2, 2, fixedPar(g, kind))
			t.watch("L", a)
			t.watch("K", b)
			t.setp("L", a, g.reM(2, 2, 1), g.reM(1, 2, 1))
			t.setp("K", b, g.reM(2, 2, 1), g.reM(1, 2, 1))
			xa, xb := t.let(g.reM(3, 2, 1)), t.let(g.reM(3, 2, 1))
			for q := 0; q < 3; q++ {
				t.fwd("L", a, xa, false)
				t.fwd("K", b, xb, false)
				t.bwd("L", a, xa, t.let(g.reM(3, 2, 1)))
				t.fwd("L", a, xb, false)
				t.bwd("K", b, xb, t.let(g.reM(3, 2, 1)))
				t.bwd("L", a, xb, t.let(g.reM(3, 2, 1)))
			}
			r.End()
		}
	}
}

func driveC05(r *Rec) {
	g := NewRng(*seed)
	// construction
	for _, kind := range kinds {
		t := newLt(r, "new "+kind)
		for _, s := range [][2]int{{1, 1}, {0, 1}, {1, 0}, {0, 0}, {-1, 1}, {1, -1}, {-2, -3}, {3, 5}, {-1, 0}, {1 << 20, -1}, {2, 1}} {
			ps := []float64{0}
			if kind == "leaky" || kind == "dropout" {
				ps = []float64{0, 0.5, 1, 1.5, -0.001, -1, math.Nextafter(1, 2), math.Nextafter(0, -1), 2, -1e300, 1e-300}
			}
			for _, p := range ps {
				t.add("N", kind, s[0], s[1], p)
			}
		}
		r.End()
	}
	// layers without a past, and with one that is forgotten
	for _, kind := range kinds {
		for rep := 0; rep < n(4, 30); rep++ {
			t := newLt(r, "no past "+kind)
			in, out := 1+g.Intn(3), 1+g.Intn(3)
			y := t.add("L", kind, in, out, fixedPar(g, kind))
			t.watch("L", y)
			t.setp("L", y, g.dyM(in, out), g.dyM(1, out))
			past := rep%2 == 1
			for q := 0; q < 3; q++ {
				if q > 0 || past {
					t.fwd("L", y, t.let(g.dyM(1+g.Intn(3), in)), false)
				}
				if rep < 2 || g.Intn(2) == 0 {
					t.reload("L", y)
				}
				for _, rows := range []int{1, in, out, 2, 3} {
					t.bwd("L", y, t.let(g.dyM(rows, in)), t.let(g.dyM(rows, out)))
				}
			}
			r.End()
		}
	}
	// programs enumerated by TLC, on every kind of layer
	for k, p := range programs() {
		kind := kinds[k%len(kinds)]
		reps := 1
		if *deep {
			reps = len(kinds)
		}
		for q := 0; q < reps; q++ {
			runLayerProgram(r, g, kinds[(k+q)%len(kinds)], p, fmt.Sprintf("program %d", k))
		}
		_ = kind
	}
	for rep := 0; rep < n(150, 3000); rep++ {
		kind := kinds[rep%len(kinds)]
		p := []map[string]interface{}{}
		in, out := 1+g.Intn(4), 1+g.Intn(4)
		w := func(v int) float64 { return float64(v + g.pick(0, 0, 0, 0, 1, -1, 2)) }
		rr := func() float64 { return float64(1 + g.Intn(3)) }
		for s := 0; s < 10; s++ {
			a, b := rr(), rr()
			if g.Intn(3) > 0 {
				b = a
			}
			q := map[string]interface{}{"op": []string{"fwd", "bwd", "bwd", "nodrop", "bce", "fwd", "bwd", "reload"}[g.Intn(8)], "xr": a, "xc": w(in), "dr": b, "dc": w(out), "in": float64(in), "out": float64(out)}
			p = append(p, q)
		}
		runLayerProgram(r, g, kind, p, "random")
	}
}

// runLayerProgram runs calls with given shapes: xr, xc of the input, dr, dc of the upstream gradient.
func runLayerProgram(r *Rec, g Rng, kind string, p []map[string]interface{}, name string) {
	in, out := 2, 3
	if v, ok := p[0]["in"]; ok {
		in, out = toInt(v), toInt(p[0]["out"])
	}
	t := newLt(r, name+" "+kind)
	pr := fixedPar(g, kind)
	if kind == "dropout" {
		pr = []float64{0, 0.5, 1}[g.Intn(3)]
	}
	y := t.add("L", kind, in, out, pr)
	if y == nil {
		r.End()
		return
	}
	t.watch("L", y)
	t.setp("L", y, g.dyM(in, out), g.dyM(1, out))
	xs := map[string]string{} // the input of the latest forward pass by rows
	get := func(rr, c int) string {
		if rr < 1 || c < 1 {
			return ""
		}
		return t.let(g.dyM(rr, c))
	}
	for _, q := range p {
		xr, xc := toInt(q["xr"]), toInt(q["xc"])
		key := fmt.Sprint(xr, "x", xc)
		op := q["op"].(string)
		if op == "reload" {
			t.reload("L", y)
			continue
		}
		x := xs[key]
		if x == "" || op != "bwd" {
			x = get(xr, xc)
		}
		if x == "" {
			continue
		}
		if op == "nodrop" && kind != "dropout" {
			op = "fwd"
		}
		if op == "bce" && kind != "softmax" {
			op = "bwd"
		}
		switch op {
		case "fwd", "nodrop":
			if t.fwd("L", y, x, op == "nodrop") != "" {
				xs = map[string]string{key: x}
			}
		case "bwd":
			dv := get(toInt(q["dr"]), toInt(q["dc"]))
			if dv != "" {
				t.bwd("L", y, x, dv)
			}
		case "bce":
			dr, dc := toInt(q["dr"]), toInt(q["dc"])
			if dr < 1 || dc < 1 {
				continue
			}
			yr, yc, pr, pc := dr, dc, dr, dc
			switch g.Intn(4) { // sometimes only the labels or only the outputs are wrong
			case 0:
				yr, yc = xr, out
			case 1:
				pr, pc = xr, out
			}
			t.bce("L", y, x, t.let(oneHot(g, yr, yc)), t.let(g.mat(pr, pc, func() float64 { return float64(1+g.Intn(7)) / 8 })))
		}
	}
	// still usable
	x := t.let(g.dyM(2, in))
	t.fwd("L", y, x, false)
	t.bwd("L", y, x, t.let(g.dyM(2, out)))
	r.End()
}

func driveC06(r *Rec) {
	g := NewRng(*seed)
	rates := []float64{0, 1, 0.5, 0.25, 0.1, 0.9, 0.75, 0.01, 0.99, 1.0 / 3}
	for rep := 0; rep < n(4, 60); rep++ {
		for _, rate := range rates {
			s := layerShapes[g.Intn(len(layerShapes))]
			if rep%4 == 3 {
				s = [2]int{3, 20}
			}
			t := newLt(r, fmt.Sprintf("dropout %v rate %v", s, rate))
			y := t.add("L", "dropout", s[0], s[1], rate)
			t.watch("L", y)
			for q := 0; q < 5; q++ {
				mk := func(a, b int) M { return g.reM(a, b, 1.2) }
				if (q+rep)%2 == 0 {
					mk = g.dyM
				}
				t.setp("L", y, mk(s[0], s[1]), mk(1, s[1]))
				rows := 1 + g.Intn(5)
				x := t.let(mk(rows, s[0]))
				if g.Intn(3) == 0 { // an earlier pass
					t.fwd("L", y, t.let(mk(rows, s[0])), g.Intn(2) == 0)
				}
				nd := g.Intn(4) == 0
				out := t.fwd("L", y, x, nd)
				if out != "" && g.Intn(3) == 0 {
					t.mut(g, out)
				}
				dv := t.let(mk(rows, s[1]))
				t.bwd("L", y, x, dv)
				if len(t.grads) > 0 && g.Intn(2) == 0 {
					t.mut(g, t.grads[g.Intn(len(t.grads))])
				}
				t.bwd("L", y, x, dv)
				if g.Intn(2) == 0 {
					t.fwd("L", y, x, !nd)
					t.bwd("L", y, x, dv)
				}
				t.bwd("L", y, x, t.let(mk(rows, s[1])))
				if rep%2 == 1 && q == 2 { // another rate from now on
					t.repar("L", y, rates[g.Intn(len(rates))])
				}
			}
			r.End()
		}
	}
	// larger layers and batches
	for q, s := range [][3]int{{3, 40, 33}, {2, 3, 1003}, {2, 1101, 2}, {130, 2, 5}} {
		for _, rate := range []float64{0.5, 0.1} {
			t := newLt(r, fmt.Sprintf("large dropout %v rate %v", s, rate))
			y := t.add("L", "dropout", s[0], s[1], rate)
			t.watch("L", y)
			t.setp("L", y, g.reM(s[0], s[1], 1), g.reM(1, s[1], 1))
			x := t.let(g.reM(s[2], s[0], 1))
			dv := t.let(g.reM(s[2], s[1], 1))
			t.fwd("L", y, x, q%2 == 1)
			t.bwd("L", y, x, dv)
			t.fwd("L", y, x, q%2 == 0)
			t.bwd("L", y, x, dv)
			r.End()
		}
	}
	// statistics: all ReLU values are 1, so every 0 is a dropped unit
	for _, rate := range []float64{0, 1, 0.5, 0.25, 0.1, 0.9, 0.8, 0.02, 0.01, 0.001, 0.98, 0.99, 0.999, 0.0005} {
		for _, s := range [][3]int{{1, 1, 1}, {1, 24, 16}, {1, 1, 64}, {1, 64, 1}} {
			keptStats(r, rate, s[1], s[2], n(1, 10))
		}
	}
	// rates next to 0 and to 1: enough decisions for the rare kind to show
	for _, rate := range []float64{0.0002, 0.001, 0.005, 0.009, 0.995, 0.999, 0.9998} {
		keptStats(r, rate, 64, 256, int(math.Ceil(float64(n(300, 3000))/math.Min(rate, 1-rate)/40000)))
		t := newLt(r, fmt.Sprintf("rare rate %v", rate))
		y := t.add("L", "dropout", 2, 2501, rate)
		t.watch("L", y)
		t.setp("L", y, g.reM(2, 2501, 1), g.reM(1, 2501, 1))
		x, dv := t.let(g.reM(5, 2, 1)), t.let(g.reM(5, 2501, 1))
		t.fwd("L", y, x, false)
		t.bwd("L", y, x, dv)
		r.End()
	}
	// ... whatever their depth, and wherever the dropout layers are
	for rep := 0; rep < n(24, 200); rep++ {
		t := newLt(r, "deep inference")
		in0 := 1 + g.Intn(3)
		in := in0
		depth := 2 + rep%4
		m := nn.NewModel()
		lays := []*lay{}
		for k := 0; k < depth; k++ {
			kind := kinds[g.Intn(len(kinds))]
			if k == (rep/4)%depth || g.Intn(3) == 0 {
				kind = "dropout"
			}
			out := 1 + g.Intn(6)
			p := fixedPar(g, kind)
			if kind == "dropout" {
				p = []float64{0.5, 0.9, 1, 0.75}[g.Intn(4)]
			}
			o := fmt.Sprint("L", k)
			y := t.add(o, kind, in, out, p)
			if y == nil {
				break
			}
			t.watch(o, y)
			t.setp(o, y, g.reM(in, out, 1), g.reM(1, out, 1))
			must(m.AddLayer(y.l))
			lays = append(lays, y)
			in = out
		}
		if len(lays) < depth {
			r.End()
			continue
		}
		loss, err := nn.NewMeanSquaredLoss(in)
		must(err)
		opt, err := nn.NewSGDOptimizer(0.1, 0, 0)
		must(err)
		must(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.1))
		for q := 0; q < 4; q++ {
			X := g.reM([]int{1, 3, 1, 5}[q], in0, 1)
			if q > 1 {
				m.Forward(X, true)
			}
			var outs []M
			if r.Call("nodrop", Ev{"o": "L0", "x": mj(X)}, func(e Ev) error {
				var err error
				outs, err = m.Forward(X, false)
				if err == nil {
					e["res"] = mj(outs[1])
				}
				return err
			})["st"] != "ok" {
				break
			}
			for k := 1; k < depth; k++ {
				r.Note("nodrop", Ev{"o": fmt.Sprint("L", k), "x": mj(outs[k]), "res": mj(outs[k+1]), "st": "ok"})
			}
			X2, last := cp(X), cp(outs[depth-1])
			r.Call("nodrop", Ev{"o": fmt.Sprint("L", depth-1), "x": mj(last)}, func(e Ev) error {
				p, err := m.Predict(X2)
				e["res"] = mj(p)
				return err
			})
		}
		r.End()
	}
	// inference passes of models never drop
	for rep := 0; rep < n(10, 200); rep++ {
		t := newLt(r, "model inference")
		rate := rates[g.Intn(len(rates))]
		in, out := 1+g.Intn(3), 1+g.Intn(8)
		y := t.add("L", "dropout", in, out, rate)
		t.watch("L", y)
		t.setp("L", y, g.reM(in, out, 1), g.reM(1, out, 1))
		m := nn.NewModel()
		must(m.AddLayer(y.l))
		loss, err := nn.NewMeanSquaredLoss(out)
		must(err)
		opt, err := nn.NewSGDOptimizer(0.1, 0, 0)
		must(err)
		must(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.1))
		for q := 0; q < 4; q++ {
			x := t.let(g.reM(1+g.Intn(4), in, 1))
			X := *t.m[x]
			if q%2 == 0 {
				r.Call("nodrop", Ev{"o": "L", "x": mj(X)}, func(e Ev) error {
					outs, err := m.Forward(X, false)
					if err == nil {
						e["res"] = mj(outs[len(outs)-1])
					}
					return err
				})
			} else {
				r.Call("nodrop", Ev{"o": "L", "x": mj(X)}, func(e Ev) error {
					p, err := m.Predict(X)
					e["res"] = mj(p)
					return err
				})
			}
			r.Call("fwd", Ev{"o": "L", "x": mj(X)}, func(e Ev) error {
				outs, err := m.Forward(X, true)
				if err == nil {
					e["res"] = mj(outs[len(outs)-1])
				}
				return err
			})
			t.bwd("L", y, x, t.let(g.reM(X.Rows, out, 1)))
		}
		r.End()
	}
}

// keptStats counts which units survive many passes of one layer.
func keptStats(r *Rec, rate float64, out, rows, mult int) {
	l, err := nn.NewDropoutLayer(1, out, rate)
	must(err)
	for j := range l.Biases.M[0] {
		l.Biases.M[0][j] = 1
	}
	X := zeros(rows, 1)
	passes := 40000 * mult / (out * rows)
	if passes > 4000*mult {
		passes = 4000 * mult
	}
	type cnt struct{ n, k int }
	var total cnt
	units, rowsC := make([]cnt, out), make([]cnt, rows)
	// pairs of decisions at a distance, each decision in one pair per distance
	lag := out*rows - 1
	if lag > 200 {
		lag = 200
	}
	flat := make([]cnt, lag+1)
	across := make([]cnt, 9)
	inc := func(c *cnt, b bool) {
		c.n++
		if b {
			c.k++
		}
	}
	r.Begin(fmt.Sprintf("statistics rate %v %dx%d", rate, rows, out))
	r.Call("kept", Ev{"rate": num(rate)}, func(e Ev) error {
		old := make([][]bool, 9)
		for p := 0; p < passes; p++ {
			Y, err := l.Forward(X)
			if err != nil {
				return err
			}
			cur := make([]bool, rows*out)
			for i := 0; i < rows; i++ {
				for j := 0; j < out; j++ {
					b := Y.M[i][j] != 0
					cur[i*out+j] = b
					inc(&total, b)
					inc(&units[j], b)
					inc(&rowsC[i], b)
				}
			}
			for d := 1; d <= lag; d++ {
				for i := 0; i+d < len(cur); i++ {
					if i/d%2 == 0 {
						inc(&flat[d], cur[i] && cur[i+d])
					}
				}
			}
			for d := 1; d < len(across); d++ {
				if q := old[(p-d+9)%9]; p >= d && (p-d)/d%2 == 0 {
					for i := range cur {
						inc(&across[d], cur[i] && q[i])
					}
				}
			}
			old[p%9] = cur
		}
		e["n"], e["k"] = total.n, total.k
		ps, qs := []Ev{}, []Ev{}
		for j, c := range units {
			ps = append(ps, Ev{"name": fmt.Sprint("unit ", j), "n": c.n, "k": c.k})
		}
		for i, c := range rowsC {
			ps = append(ps, Ev{"name": fmt.Sprint("row ", i), "n": c.n, "k": c.k})
		}
		for d, c := range flat {
			if c.n > 0 {
				qs = append(qs, Ev{"name": fmt.Sprint("decisions ", d, " apart"), "n": c.n, "both": c.k})
			}
		}
		for d, c := range across {
			if c.n > 0 {
				qs = append(qs, Ev{"name": fmt.Sprint("passes ", d, " apart"), "n": c.n, "both": c.k})
			}
		}
		e["part"], e["pair"] = ps, qs
		return nil
	})
	r.End()
}

func driveC26(r *Rec) {
	g := NewRng(*seed)
	// every weight of every shape is drawn anew, biases stay
	for _, kind := range kinds {
		for _, s := range append(append([][2]int{}, layerShapes...), [][2]int{{16, 9}, {1, 20}, {20, 1}, {110, 101}, {1, 1101}, {1101, 1}}...) {
			t := newLt(r, fmt.Sprintf("init %s %v", kind, s))
			y := t.add("L", kind, s[0], s[1], par(g, kind))
			t.watch("L", y)
			init := func() {
				t.r.Call("init", Ev{"o": "L", "w": "L.W"}, func(e Ev) error {
					y.l.Init()
					e["W"] = mj(y.w())
					return nil
				})
			}
			init()
			t.setp("L", y, g.dyM(s[0], s[1]), g.dyM(1, s[1]))
			init()
			init()
			r.End()
		}
	}
	// distribution: standardized weights of many initializations
	for _, kind := range kinds {
		for _, s := range [][2]int{{1, 1}, {2, 1}, {1, 2}, {8, 3}, {3, 8}, {50, 2}, {2, 50}, {1, 64}, {40, 40}, {600, 7}, {7, 600}, {1030, 2}, {300, 500}, {5000, 2}, {20000, 1}} {
			initStats(r, kind, s[0], s[1], n(6000, 100000), nil)
		}
	}
	// initialization of models
	for rep := 0; rep < n(4, 20); rep++ {
		in := 1 + g.Intn(6)
		m := nn.NewModel()
		lays := []*lay{}
		for _, k := range g.Perm(len(kinds)) {
			out := 1 + g.Intn(6)
			y, err := newLay(kinds[k], in, out, fixedPar(g, kinds[k]))
			must(err)
			must(m.AddLayer(y.l))
			lays = append(lays, y)
			in = out
		}
		t := newLt(r, "init model")
		ws := []string{}
		for i, y := range lays {
			o := fmt.Sprint("L", i)
			t.r.Call("new", Ev{"o": o, "kind": y.kind, "in": y.in, "out": y.out, "par": num(y.par), "W": mj(y.w()), "B": mj(y.b())}, func(Ev) error { return nil })
			y.set(zeros(y.in, y.out), g.dyM(1, y.out))
			t.r.Note("setp", Ev{"o": o, "W": mj(y.w()), "B": mj(y.b())})
			t.watch(o, y)
			ws = append(ws, o+".W")
		}
		t.r.Call("initmodel", Ev{"ws": ws}, func(e Ev) error { m.InitLayers(); return nil })
		for i, y := range lays {
			o := fmt.Sprint("L", i)
			// what the initialization of the model did to each layer
			t.r.Call("init", Ev{"o": o, "w": o + ".W", "W": mj(y.w())}, func(e Ev) error { return nil })
		}
		r.End()
		initStats(r, "model", lays[0].in, lays[0].out, 6000, func() { m.InitLayers() }, lays...)
	}
}

func initStats(r *Rec, kind string, in, out, want int, initAll func(), lays ...*lay) {
	if initAll == nil {
		y, err := newLay(kind, in, out, 0)
		must(err)
		lays = []*lay{y}
		initAll = y.l.Init
	}
	r.Begin(fmt.Sprintf("statistics %s %dx%d", kind, in, out))
	r.Call("normal", Ev{}, func(e Ev) error {
		var s1, s2, s3 float64
		nn_, pos, dup := 0, 0, 0
		within := map[string]int{"0.25": 0, "1": 0, "2": 0, "3": 0}
		type part struct {
			n      int
			s1, s2 float64
		}
		parts := map[string]*part{}
		inPart := func(k string, x float64) {
			p := parts[k]
			if p == nil {
				p = &part{}
				parts[k] = p
			}
			p.n++
			p.s1 += x
			p.s2 += x * x
		}
		type pr struct {
			s float64
			n int
		}
		prods := map[string]*pr{}
		prod := func(k string, x float64) {
			p := prods[k]
			if p == nil {
				p = &pr{}
				prods[k] = p
			}
			p.s += x
			p.n++
		}
		var prev [][][]float64
		for it := 0; nn_ < want && it < 20000; it++ {
			initAll()
			cur := [][][]float64{}
			for _, y := range lays {
				W := y.w()
				z := make([][]float64, W.Rows)
				for i := range z {
					z[i] = make([]float64, W.Cols)
					for j := range z[i] {
						x := W.M[i][j] * math.Sqrt(float64(W.Rows)/2)
						z[i][j] = x
						s1 += x
						s2 += x * x
						s3 += x * x * x
						nn_++
						a := math.Abs(x)
						for k, lim := range map[string]float64{"0.25": 0.25, "1": 1, "2": 2, "3": 3} {
							if a < lim {
								within[k]++
							}
						}
						inPart(fmt.Sprint("row ", i), x)
						inPart(fmt.Sprint("column ", j), x)
						if x > 0 {
							pos++
						}
						if j%2 == 1 {
							prod("adjacent columns", x*z[i][j-1])
						}
						if i%2 == 1 {
							prod("adjacent rows", x*z[i-1][j])
						}
					}
				}
				cur = append(cur, z)
			}
			same, cells := 0, 0
			if prev != nil && it%2 == 1 {
				for k := range cur {
					for i := range cur[k] {
						for j := range cur[k][i] {
							prod("successive initializations", cur[k][i][j]*prev[k][i][j])
							cells++
							if cur[k][i][j] == prev[k][i][j] {
								same++
							}
						}
					}
				}
			}
			if cells > 0 && 2*same > cells {
				dup++
			}
			for k := 1; k < len(cur); k += 2 { // two layers initialized together
				a, b := flat(cur[k]), flat(cur[k-1])
				for i := 0; i < len(a) && i < len(b); i++ {
					prod("two layers", a[i]*b[i])
				}
			}
			prev = cur
		}
		e["n"], e["sum"], e["sq"], e["cube"] = nn_, num(s1), num(s2), num(s3)
		e["within"], e["pos"], e["dup"] = within, pos, dup
		pp := []Ev{}
		for k, p := range parts {
			pp = append(pp, Ev{"name": k, "n": p.n, "sum": num(p.s1), "sq": num(p.s2)})
		}
		e["part"] = pp
		ps := []Ev{}
		for k, p := range prods {
			ps = append(ps, Ev{"name": k, "n": p.n, "sum": num(p.s)})
		}
		e["prod"] = ps
		return nil
	})
	r.End()
}

func flat(z [][]float64) []float64 {
	o := []float64{}
	for _, r := range z {
		o = append(o, r...)
	}
	return o
}

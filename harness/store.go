package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"strings"
	"syscall"

	nn "github.com/cubeflix/nn"
)

func init() {
	drivers["C20"] = driveC20
	drivers["C21"] = driveC21
	drivers["C22"] = driveC22
}

// ---- what an object is, bit by bit ----

func bits(f float64) []int {
	u := math.Float64bits(f)
	o := make([]int, 8)
	for i := range o {
		o[i] = int(u>>(8*i)) & 255
	}
	return o
}

func bitsM(m M) [][]int {
	o := [][]int{}
	for i := range m.M {
		for j := range m.M[i] {
			o = append(o, bits(m.M[i][j]))
		}
	}
	return o
}

func intsOf(b []byte) []int {
	o := make([]int, len(b))
	for i, v := range b {
		o[i] = int(v)
	}
	return o
}

func codeOf(kind string, names []string) int {
	for i, k := range names {
		if k == kind {
			return i
		}
	}
	return -1
}

func descLayer(l nn.Layer) Ev {
	y := wrap(l)
	if y == nil {
		return Ev{"code": -1, "in": -1, "out": -1, "wr": 0, "wc": 0, "br": 0, "bc": 0, "w": [][]int{}, "b": [][]int{}, "slope": bits(0), "drop": bits(0)}
	}
	w, b := y.params()
	d := Ev{"code": codeOf(y.kind, kinds), "in": y.in, "out": y.out, "wr": w.Rows, "wc": w.Cols, "br": b.Rows, "bc": b.Cols, "w": bitsM(*w), "b": bitsM(*b), "slope": bits(0), "drop": bits(0)}
	switch v := l.(type) {
	case *nn.LeakyLayer:
		d["slope"] = bits(v.Slope)
	case *nn.DropoutLayer:
		d["drop"] = bits(v.Dropout)
	}
	return d
}

var valKeys = []string{"learningRate", "decay", "momentum", "epsilon", "beta1", "beta2"}

func descVals(v map[string]float64) Ev {
	o := Ev{}
	for _, k := range valKeys {
		o[k] = bits(v[k])
	}
	return o
}

func descModel(m *nn.Model) Ev {
	lossobj, losssize := -1, -1
	switch l := m.Loss.(type) {
	case *nn.MeanSquaredLoss:
		lossobj, losssize = 0, l.Size
	case *nn.MeanAbsoluteLoss:
		lossobj, losssize = 1, l.Size
	case *nn.CrossEntropyLoss:
		lossobj, losssize = 2, l.Size
	case *nn.BinaryCrossEntropyLoss:
		lossobj, losssize = 3, l.Size
	}
	opts := []Ev{}
	for _, o := range m.Optimizers {
		switch v := o.(type) {
		case *nn.SGDOptimizer:
			opts = append(opts, Ev{"code": 0, "vals": descVals(map[string]float64{"learningRate": v.LearningRate, "decay": v.Decay, "momentum": v.Momentum})})
		case *nn.AdamOptimizer:
			opts = append(opts, Ev{"code": 1, "vals": descVals(map[string]float64{"learningRate": v.LearningRate, "decay": v.Decay, "epsilon": v.Epsilon, "beta1": v.Beta1, "beta2": v.Beta2})})
		default:
			opts = append(opts, Ev{"code": -1, "vals": descVals(nil)})
		}
	}
	ls := []Ev{}
	for _, l := range m.Layers {
		ls = append(ls, descLayer(l))
	}
	return Ev{"n": m.ModelSize, "in": m.InputSize, "out": m.OutputSize, "loss": int(m.LossType), "lossobj": lossobj, "losssize": losssize,
		"acc": int(m.AccuracyType), "prec": bits(m.AccuracyPercision), "opt": int(m.OptimizerType), "vals": descVals(m.OptimizerValues), "opts": opts, "layers": ls}
}

// ---- random objects ----

var extremes = []float64{math.Copysign(0, -1), 0, 5e-324, -2.2e-308, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1, -1, 1e-9, 0.1, math.Pi}

func (g Rng) odd() float64 {
	if g.Intn(3) == 0 {
		return extremes[g.Intn(len(extremes))]
	}
	return math.Float64frombits(g.Uint64() &^ (1 << 52)) // never NaN
}

// storedLayer has arbitrary parameters.
func storedLayer(g Rng, in, out int) *lay {
	kind := kinds[g.Intn(len(kinds))]
	y, err := newLay(kind, in, out, par(g, kind))
	must(err)
	switch g.Intn(3) {
	case 0:
		y.set(g.mat(in, out, g.odd), g.mat(1, out, g.odd))
	case 1: // every value another one
		k := 0.0
		y.set(g.mat(in, out, func() float64 { k++; return k }), g.mat(1, out, func() float64 { k++; return -k }))
	case 2:
		y.set(g.reM(in, out, 1), g.reM(1, out, 1))
	}
	return y
}

func storedModel(g Rng, depth, width int) *nn.Model {
	m := nn.NewModel()
	in := 1 + g.Intn(width)
	for k := 0; k < depth; k++ {
		out := 1 + g.Intn(width)
		must(m.AddLayer(storedLayer(g, in, out).l))
		in = out
	}
	loss, err := newLoss(lossKinds[g.Intn(4)], in)
	must(err)
	kind := []string{"sgd", "adam"}[g.Intn(2)]
	o, err := newOpt(kind, anyHyper(g, kind))
	must(err)
	must(m.Finalize(loss, o, nn.AccuracyType(g.Intn(3)), []float64{0, 0.1, 0.5, 5e-324, 1e300, g.ExpFloat64()}[g.Intn(6)]))
	return &m
}

// wideModel has one layer of random parameters.
func wideModel(g Rng, in, out int) *nn.Model {
	kind := kinds[g.Intn(len(kinds))]
	y, err := newLay(kind, in, out, par(g, kind))
	must(err)
	y.set(g.reM(in, out, 1), g.reM(1, out, 1))
	m := nn.NewModel()
	must(m.AddLayer(y.l))
	loss, err := newLoss("mse", out)
	must(err)
	o, err := newOpt("sgd", hyper{rate: 0.1, mom: 0.5})
	must(err)
	must(m.Finalize(loss, o, nn.AccuracyType(g.Intn(3)), 0.5))
	return &m
}

// bitsOf lists the parameters of a model.
func bitsOf(m *nn.Model) []byte {
	var o []byte
	for _, l := range m.Layers {
		w, b := wrap(l).params()
		for _, p := range []*M{w, b} {
			for _, row := range p.M {
				for _, x := range row {
					o = binary.LittleEndian.AppendUint64(o, math.Float64bits(x))
				}
			}
		}
	}
	return o
}

func bytesOf(m *nn.Model) []byte {
	var b bytes.Buffer
	s := nn.NewSavedModelData(*m)
	must(s.Serialize(&b))
	return b.Bytes()
}

func layerBytes(l nn.Layer) []byte {
	var b bytes.Buffer
	s := nn.NewSavedLayerData(l)
	must(s.SerializeLayer(&b))
	return b.Bytes()
}

// ---- calls ----

type st struct {
	r    *Rec
	buf  map[string]*bytes.Buffer
	data map[string][]byte
	dir  string
}

func newSt(r *Rec, name string) *st {
	r.Begin(name)
	return &st{r: r, buf: map[string]*bytes.Buffer{}, data: map[string][]byte{}}
}

func (t *st) put(d string, b []byte) {
	t.data[d] = b
	t.buf[d] = bytes.NewBuffer(append([]byte{}, b...))
	t.r.Note("data", Ev{"d": d, "bytes": intsOf(b)})
}

func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// decode loads what is next in a buffer, or a file.
func decode(e Ev, what string, buf *bytes.Buffer, file string) error {
	a := totalAlloc()
	var m nn.Model
	var l nn.Layer
	var err error
	switch {
	case what == "layer":
		l, err = nn.LoadLayer(buf)
	case buf == nil:
		m, err = nn.LoadFile(file)
	default:
		m, err = nn.LoadModel(buf)
	}
	d := totalAlloc() - a
	if d > 1<<30 {
		d = 1 << 30
	}
	e["alloc"] = int(d)
	if buf != nil {
		e["left"] = buf.Len()
	}
	if err == nil {
		if what == "layer" {
			e["desc"] = descLayer(l)
		} else {
			e["desc"] = descModel(&m)
		}
	}
	return err
}

func (t *st) read(d, what string) bool {
	return t.r.Call("read", Ev{"d": d, "what": what}, func(e Ev) error { return decode(e, what, t.buf[d], "") })["st"] == "ok"
}

// load loads a changed copy of d.
func (t *st) load(d, what string, cut int, patch [][2]int, file bool) {
	b := append([]byte{}, t.data[d]...)
	for _, p := range patch {
		b[p[0]] = byte(p[1])
	}
	if cut > len(b) {
		cut = len(b)
	}
	if cut >= 0 {
		b = b[:cut]
	}
	if patch == nil {
		patch = [][2]int{}
	}
	f := ""
	buf := bytes.NewBuffer(b)
	if file {
		f, buf = filepath.Join(*tmp, "load.nn"), nil
		must(os.WriteFile(f, b, 0644))
	}
	t.r.Call("load", Ev{"d": d, "what": what, "cut": cut, "patch": patch, "file": file}, func(e Ev) error { return decode(e, what, buf, f) })
}

func (t *st) saveModel(d string, m *nn.Model) bool {
	return t.r.Call("save", Ev{"d": d, "what": "model", "desc": descModel(m), "version": intsOf([]byte(nn.VERSION))}, func(e Ev) error {
		s := nn.NewSavedModelData(*m)
		err := s.Serialize(t.buf[d])
		e["bytes"] = intsOf(t.buf[d].Bytes())
		return err
	})["st"] == "ok"
}

func (t *st) saveLayer(d string, l nn.Layer) bool {
	return t.r.Call("save", Ev{"d": d, "what": "layer", "desc": descLayer(l), "version": []int{}}, func(e Ev) error {
		s := nn.NewSavedLayerData(l)
		err := s.SerializeLayer(t.buf[d])
		e["bytes"] = intsOf(t.buf[d].Bytes())
		return err
	})["st"] == "ok"
}

type bprog struct {
	B  []int  `json:"b"`
	Tw string `json:"tw"`
}

// bytePrograms reads the hand-written models of CodecModel.
func bytePrograms() []bprog {
	b, err := os.ReadFile(*progs)
	if err != nil {
		fatal(err)
	}
	ps := []bprog{}
	for _, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var p bprog
		if err := json.Unmarshal([]byte(l), &p); err != nil {
			fatal(err, l)
		}
		ps = append(ps, p)
	}
	if len(ps) == 0 {
		fatal("no programs")
	}
	return ps
}

func (p bprog) bytes() []byte {
	o := make([]byte, len(p.B))
	for i, v := range p.B {
		o[i] = byte(v)
	}
	return o
}

func driveC20(r *Rec) {
	g := NewRng(*seed)
	for k, p := range bytePrograms() {
		t := newSt(r, fmt.Sprintf("program %d %s", k, p.Tw))
		b := p.bytes()
		tail := make([]byte, g.Intn(40))
		g.Read(tail)
		if g.Intn(2) == 0 && p.Tw == "" { // two in a row
			tail = b
		}
		t.put("a", append(append([]byte{}, b...), tail...))
		if t.read("a", "model") && len(tail) == len(b) {
			t.read("a", "model")
		}
		if p.Tw == "" { // as a file, and with any version
			t.put("b", b)
			t.load("b", "model", -1, nil, true)
			v := [][2]int{}
			for q := 4; q < 9; q++ {
				v = append(v, [2]int{q, g.Intn(256)})
			}
			t.load("b", "model", -1, v, g.Intn(2) == 0)
		}
		r.End()
	}
	for _, v := range []string{"     ", "%d%s%", "9.9.9", "1.0.2", "\x00\x00\x00\x00\x00", "\xff\xfe\n\r\t", "1.0.3"} {
		for rep := 0; rep < 4; rep++ {
			t := newSt(r, "version")
			b := bytesOf(storedModel(g, 1+g.Intn(3), 3))
			copy(b[4:9], v)
			t.put("a", b)
			t.load("a", "model", -1, nil, rep%2 == 0)
			t.read("a", "model")
			r.End()
		}
	}
	// several objects in one buffer, written and read in any order
	for rep := 0; rep < n(150, 3000); rep++ {
		t := newSt(r, "stream")
		start := make([]byte, 0)
		t.put("a", start)
		ms := []*nn.Model{storedModel(g, 1+g.Intn(3), 4), storedModel(g, 1+g.Intn(5), 3)}
		ls := []nn.Layer{storedLayer(g, 1+g.Intn(5), 1+g.Intn(5)).l, storedLayer(g, 1+g.Intn(5), 1+g.Intn(5)).l}
		queue := []string{}
		for q := 0; q < 8; q++ {
			switch k := g.Intn(6); {
			case k < 2:
				if t.saveModel("a", ms[k]) {
					queue = append(queue, "model")
				}
			case k < 4:
				if t.saveLayer("a", ls[k-2]) {
					queue = append(queue, "layer")
				}
			case len(queue) > 0:
				if !t.read("a", queue[0]) {
					q = 100
				}
				queue = queue[1:]
			}
			if g.Intn(5) == 0 { // other parameters
				y := wrap(ls[0])
				y.set(g.mat(y.in, y.out, g.odd), g.mat(1, y.out, g.odd))
			}
		}
		for _, w := range queue {
			if !t.read("a", w) {
				break
			}
		}
		r.End()
	}
	// long and wide ones
	for _, sh := range [][2]int{{300, 1}, {1, 300}, {17, 19}, {256, 2}, {2, 256}, {128, 1}, {1, 128}, {1, 257}, {32768, 1}, {1, 40000}, {65537, 1}, {1, 66000}} {
		t := newSt(r, "wide")
		t.put("a", nil)
		if t.saveLayer("a", storedLayer(g, sh[0], sh[1]).l) {
			t.read("a", "layer")
		}
		r.End()
	}
	for _, d := range []int{10, 64, 126, 127, 128, 129, 200, 256, 257} {
		t := newSt(r, "deep")
		t.put("a", nil)
		if t.saveModel("a", storedModel(g, d, 2)) {
			t.read("a", "model")
		}
		r.End()
	}
}

func le32(x int) []int { return intsOf([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}) }

func at32(p, x int) [][2]int {
	o := [][2]int{}
	for i, b := range le32(x) {
		o = append(o, [2]int{p + i, b})
	}
	return o
}

var sizes32 = []int{0, -1, 1, 2, 3, 127, 128, 255, 256, 65535, 65536, 1 << 20, 1 << 24, 1 << 28, 1 << 29, 1 << 30, 1<<31 - 1, 1<<31 - 2, -1 << 31, -1<<31 + 1, 46341, 23170, -2, -65536}

// layersAt finds where the layers of a saved model are.
func layersAt(b []byte) []int {
	p := 30
	for k := 0; k < int(b[29]); k++ {
		p += 1 + int(b[p]) + 8
	}
	o := []int{}
	for k := 0; k < int(b[9]); k++ {
		o = append(o, p)
		in, out := int(b[p+3])+256*int(b[p+4]), int(b[p+7])+256*int(b[p+8])
		p += 27 + 8*(in+1)*out
	}
	return o
}

func byte64(x float64) []byte {
	return binary.LittleEndian.AppendUint64(nil, math.Float64bits(x))
}

// handHead is the head of a model with that many layers, input and output size s, mse, regression, sgd.
func handHead(layers, s int) []byte {
	b := append([]byte(nil), "NNML1.0.3"...)
	b = append(b, byte(layers))
	for k := 0; k < 2; k++ {
		b = append(b, byte(s), byte(s>>8), byte(s>>16), byte(s>>24))
	}
	b = append(b, 0, 0)
	b = append(b, byte64(0.5)...)
	return append(b, 0, 0)
}

func driveC21(r *Rec) {
	g := NewRng(*seed)
	for k, p := range bytePrograms() {
		t := newSt(r, fmt.Sprintf("program %d %s", k, p.Tw))
		t.put("a", p.bytes())
		t.load("a", "model", -1, nil, k%2 == 0)
		t.load("a", "model", g.Intn(len(p.B)), nil, k%4 == 0)
		r.End()
	}
	cuts := func(what string, b []byte, step int) {
		t := newSt(r, "every cut of a "+what)
		t.put("a", b)
		for c := 0; c <= len(b); c += step {
			t.load("a", strings.TrimSuffix(what, " file"), c, nil, what == "model file")
		}
		r.End()
	}
	// few layers so that every byte matters; and what follows may look like data
	for rep := 0; rep < n(6, 60); rep++ {
		cuts("model", bytesOf(storedModel(g, 1+g.Intn(3), 2)), 1)
		cuts("model file", bytesOf(storedModel(g, 1+g.Intn(2), 2)), 1)
		cuts("layer", layerBytes(storedLayer(g, 1+g.Intn(3), 1+g.Intn(3)).l), 1)
	}
	cuts("model", bytesOf(storedModel(g, 20, 3)), 7)
	// bytes changed
	for rep := 0; rep < n(6, 40); rep++ {
		for _, what := range []string{"model", "layer"} {
			b := bytesOf(storedModel(g, 1+g.Intn(3), 2))
			if what == "layer" {
				b = layerBytes(storedLayer(g, 1+g.Intn(3), 1+g.Intn(3)).l)
			}
			t := newSt(r, "every byte of a "+what)
			t.put("a", b)
			for p := range b {
				for _, v := range []int{0, 255, int(b[p]) ^ 128, int(b[p]+1) & 255, int(b[p]-1) & 255, g.Intn(256)} {
					if v != int(b[p]) && (rep == 0 || g.Intn(3) == 0) {
						t.load("a", what, -1, [][2]int{{p, v}}, what == "model" && g.Intn(8) == 0)
					}
				}
			}
			r.End()
		}
	}
	// sizes and counts changed
	for rep := 0; rep < n(5, 40); rep++ {
		b := bytesOf(storedModel(g, 1+g.Intn(3), 3))
		t := newSt(r, "sizes of a model")
		t.put("a", b)
		for _, v := range sizes32 {
			t.load("a", "model", -1, at32(10, v), false)
			t.load("a", "model", -1, at32(14, v), false)
			for _, p := range layersAt(b) {
				t.load("a", "model", -1, at32(p+3, v), false)
				t.load("a", "model", -1, at32(p+7, v), false)
				w := sizes32[g.Intn(len(sizes32))]
				t.load("a", "model", -1, append(at32(p+3, v), at32(p+7, w)...), g.Intn(4) == 0)
			}
		}
		for v := 0; v < 256; v++ {
			t.load("a", "model", -1, [][2]int{{9, v}}, false)
			t.load("a", "model", -1, [][2]int{{29, v}}, false)
			t.load("a", "model", -1, [][2]int{{30, v}}, false)
			t.load("a", "model", -1, [][2]int{{18, v}}, false)
			t.load("a", "model", -1, [][2]int{{28, v}}, false)
			t.load("a", "model", -1, [][2]int{{layersAt(b)[0] + 2, v}}, false)
		}
		r.End()
		b = layerBytes(storedLayer(g, 1+g.Intn(4), 1+g.Intn(4)).l)
		t = newSt(r, "sizes of a layer")
		t.put("a", b)
		for _, v := range sizes32 {
			for _, w := range sizes32 {
				t.load("a", "layer", -1, append(at32(3, v), at32(7, w)...), false)
			}
		}
		r.End()
	}
	// negative counts and lengths, in data that make sense if these are read as something else
	for rep := 0; rep < n(3, 20); rep++ {
		one := func(key string, v float64) []byte {
			return append(append([]byte{byte(len(key))}, key...), byte64(v)...)
		}
		for _, c := range []int{-1, -2, -128, -100, -56} {
			for _, have := range []int{0, 1, -c, 256 + c} {
				t := newSt(r, "count misread")
				b := handHead(have, 1)
				b[9], b[29] = byte(c), 0
				for q := 0; q < have; q++ {
					b = append(b, layerBytes(storedLayer(g, 1, 1).l)...)
				}
				t.put("a", b)
				t.load("a", "model", -1, nil, rep%2 == 0)
				b = handHead(1, 1)
				b[29] = byte(c)
				for q := 0; q < have; q++ {
					b = append(b, one(fmt.Sprint("k", q), float64(q))...)
				}
				b = append(b, layerBytes(storedLayer(g, 1, 1).l)...)
				t.put("a", b)
				t.load("a", "model", -1, nil, rep%2 == 0)
				b = handHead(1, 1)
				b[29] = 2
				b = append(append(b, byte(c)), make([]byte, have)...)
				b = append(append(b, byte64(0.25)...), one("decay", 0.5)...)
				b = append(b, layerBytes(storedLayer(g, 1, 1).l)...)
				t.put("a", b)
				t.load("a", "model", -1, nil, rep%2 == 0)
				r.End()
			}
		}
	}
	// larger models, cut
	for rep := 0; rep < n(3, 20); rep++ {
		t := newSt(r, "cuts of a larger model")
		b := bytesOf(wideModel(g, 15+g.Intn(20), 20+g.Intn(20)))
		t.put("a", b)
		for _, c := range []int{len(b), len(b) - 1, len(b) - 7, len(b) - 8, len(b) - 9, len(b) / 2, 4096, 512, 1024} {
			t.load("a", "model", c, nil, true)
			t.load("a", "model", c, nil, false)
		}
		for q := 0; q < 10; q++ {
			t.load("a", "model", g.Intn(len(b)), nil, q%2 == 0)
		}
		r.End()
	}
	// parts put together wrongly
	for rep := 0; rep < n(150, 3000); rep++ {
		a, c := bytesOf(storedModel(g, 1+g.Intn(3), 2)), bytesOf(storedModel(g, 1+g.Intn(3), 2))
		t := newSt(r, "splices")
		for q := 0; q < 6; q++ {
			i, j := g.Intn(len(a)), g.Intn(len(c))
			if g.Intn(2) == 0 { // at the layers, or within the header
				i = layersAt(a)[g.Intn(len(layersAt(a)))]
				j = layersAt(c)[g.Intn(len(layersAt(c)))]
			}
			var b []byte
			switch g.Intn(4) {
			case 0:
				b = append(append(b, a[:i]...), c[j:]...)
			case 1: // something left out
				e := i + g.Intn(len(a)-i)
				b = append(append(b, a[:i]...), a[e:]...)
			case 2: // something twice
				b = append(append(b, a[:i]...), a[g.Intn(i+1):]...)
			case 3: // several bytes changed
				b = append(b, a...)
				for z := 0; z < 1+g.Intn(4); z++ {
					b[g.Intn(len(b))] = byte(g.Intn(256))
				}
			}
			t.put("a", b)
			t.load("a", []string{"model", "model", "layer"}[g.Intn(3)], -1, nil, false)
			if g.Intn(3) == 0 {
				t.load("a", "model", -1, nil, true)
			}
		}
		r.End()
	}
	// anything
	for rep := 0; rep < n(150, 3000); rep++ {
		t := newSt(r, "noise")
		for q := 0; q < 6; q++ {
			b := make([]byte, g.Intn(200))
			g.Read(b)
			what := "model"
			switch g.Intn(5) {
			case 0:
				b = append([]byte("NNML1.0.3"), b...)
			case 1:
				b, what = append([]byte("LA"), b...), "layer"
			case 2:
				b, what = append([]byte{'L', 'A', byte(g.Intn(7)), byte(g.Intn(5)), 0, 0, 0, byte(g.Intn(5)), 0, 0, 0}, b...), "layer"
			case 3:
				b = append([]byte{'N', 'N', 'M', 'L', '1', '.', '0', '.', '3', byte(g.Intn(3)), 1, 0, 0, 0, 1, 0, 0, 0, byte(g.Intn(5)), byte(g.Intn(4)), 0, 0, 0, 0, 0, 0, 0, 0, byte(g.Intn(3)), byte(g.Intn(3))}, b...)
			}
			t.put("a", b)
			t.load("a", what, -1, nil, false)
			t.load("a", "model", -1, nil, true)
			if g.Intn(2) == 0 {
				t.load("a", "layer", -1, nil, false)
			}
		}
		r.End()
	}
}

// ---- files ----

func (t *st) files() Ev {
	o := Ev{}
	ents, err := os.ReadDir(t.dir)
	must(err)
	for _, x := range ents {
		if x.Type().IsRegular() {
			b, err := os.ReadFile(filepath.Join(t.dir, x.Name()))
			must(err)
			o[x.Name()] = intsOf(b)
		}
	}
	return o
}

// openIn is the number of open files in a directory.
func openIn(dir string) int {
	ents, err := os.ReadDir("/proc/self/fd")
	must(err)
	n := 0
	for _, x := range ents {
		if to, err := os.Readlink("/proc/self/fd/" + x.Name()); err == nil && strings.HasPrefix(to, dir+"/") {
			n++
		}
	}
	return n
}

// full says that files cannot grow beyond n bytes.
func full(n int64) func() {
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}))
	return func() { must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }
}

func (t *st) saveFile(m *nn.Model, where, path string, limit int64) {
	name := filepath.Join(t.dir, path)
	if where == "empty" {
		name = ""
	}
	t.r.Call("savefile", Ev{"desc": descModel(m), "where": where, "path": path, "limit": limit, "version": intsOf([]byte(nn.VERSION))}, func(e Ev) error {
		defer func() { e["open"], e["files"] = openIn(t.dir), t.files() }()
		if limit >= 0 {
			defer full(limit)()
		}
		return nn.SaveFile(m, name)
	})
}

func (t *st) loadFile(where, path string) {
	name := filepath.Join(t.dir, path)
	if where == "empty" {
		name = ""
	}
	t.r.Call("loadfile", Ev{"what": "model", "where": where, "path": path}, func(e Ev) error {
		defer func() { e["open"], e["files"] = openIn(t.dir), t.files() }()
		return decode(e, "model", nil, name)
	})
}

func driveC22(r *Rec) {
	g := NewRng(*seed)
	signal.Ignore(syscall.SIGXFSZ)
	watch := func(r *Rec, ms []*nn.Model) {
		for q, m := range ms {
			for k, l := range m.Layers {
				y := wrap(l)
				r.TrackF(fmt.Sprintf("m%dW%d", q, k), y.w)
				r.TrackF(fmt.Sprintf("m%dB%d", q, k), y.b)
			}
		}
	}
	where := func(p string) string {
		switch p {
		case "":
			return "empty"
		case "dir":
			return "dir"
		case "missing/a":
			return "noparent"
		case "text/a":
			return "throughfile"
		}
		return "plain"
	}
	for k, p := range programs() {
		t := newSt(r, fmt.Sprintf("program %d", k))
		dir, err := os.MkdirTemp(*tmp, "files")
		must(err)
		t.dir = dir
		must(os.Mkdir(filepath.Join(dir, "dir"), 0755))
		must(os.WriteFile(filepath.Join(dir, "text"), bytes.Repeat([]byte("text"), g.Intn(100)), 0644))
		r.Note("files", Ev{"files": t.files()})
		ms := map[string]*nn.Model{"small": storedModel(g, 1, 1), "large": storedModel(g, 2, 3), "long": storedModel(g, 128, 1), "misfit": storedModel(g, 2, 2)}
		y := wrap(ms["misfit"].Layers[g.Intn(2)])
		w, _ := y.params()
		*w = g.dyM(y.in+1, y.out)
		for _, c := range p {
			path := c["path"].(string)
			if c["op"] == "load" {
				t.loadFile(where(path), path)
				continue
			}
			m := ms[c["m"].(string)]
			limit := int64(-1)
			if c["limit"] != "none" {
				s := int64(len(bytesOf(m)))
				limit = map[string]int64{"nothing": 0, "half": s / 2, "one less": s - 1, "exact": s}[c["limit"].(string)]
			}
			t.saveFile(m, where(path), path, limit)
		}
		t.loadFile("plain", "a")
		t.loadFile("plain", "text")
		r.End()
		must(os.RemoveAll(dir))
	}
	for rep := 0; rep < n(90, 2500); rep++ {
		t := newSt(r, "files")
		dir, err := os.MkdirTemp(*tmp, "files")
		must(err)
		t.dir = dir
		must(os.Mkdir(filepath.Join(dir, "dir"), 0755))
		must(os.Symlink("/dev/full", filepath.Join(dir, "full")))
		must(os.Symlink("loop", filepath.Join(dir, "loop")))
		must(os.WriteFile(filepath.Join(dir, "plainfile"), []byte("text"), 0644))
		r.Note("files", Ev{"files": t.files()})
		ms := []*nn.Model{storedModel(g, 1, 2), storedModel(g, 3, 4), storedModel(g, 2, 3)}
		if rep%8 == 0 {
			ms[1] = storedModel(g, 1+g.Intn(127), 2)
		}
		long := storedModel(g, 128+g.Intn(3)*g.Intn(80), 1)
		misfit := storedModel(g, 3, 3)
		// parameters of other shapes than the layer's, in any place
		k := g.Intn(3)
		y := wrap(misfit.Layers[k])
		w, b := y.params()
		switch g.Intn(5) {
		case 0:
			*w = g.dyM(y.in+1, y.out)
		case 1:
			*w = g.dyM(y.in, y.out+1)
		case 2:
			*b = g.dyM(1, y.out+1)
		case 3:
			*b = g.dyM(2, y.out)
		case 4:
			*w = g.dyM(y.out+1, y.in)
		}
		watch(r, append([]*nn.Model{long, misfit}, ms...))
		names := []string{"a", "b", "c.nn", "plainfile"}
		if rep%3 == 0 { // names are used as they are
			odd := []string{" a", "a ", " ", "A", "b.nn", "model.txt", "%d%s", "a,b", "~", "$HOME", ".hidden", "-v", "a'b", "b.tmp", "b~", "c.nn.nn", "c"}
			for q := 0; q < 3; q++ {
				names[q] = odd[g.Intn(len(odd))]
			}
		}
		size := func(m *nn.Model) int64 { return int64(len(bytesOf(m))) }
		for q := 0; q < 12; q++ {
			m := ms[g.Intn(len(ms))]
			name := names[g.Intn(len(names))]
			switch g.Intn(11) {
			case 0, 1, 2:
				t.saveFile(m, "plain", name, -1)
			case 3: // the device gets full
				s := size(m)
				t.saveFile(m, "plain", name, []int64{0, 1, s - 1, s - 8, s / 2, g.Int63n(s), s, s + 1}[g.Intn(8)])
			case 4:
				t.saveFile(m, "full", "full", -1)
			case 5:
				w := [][2]string{{"dir", "dir"}, {"noparent", "missing/a"}, {"throughfile", "plainfile/a"}, {"empty", ""}, {"loop", "loop"}, {"dir", "."}, {"toolong", strings.Repeat("x", 300)}}[g.Intn(7)]
				t.saveFile(m, w[0], w[1], -1)
			case 6:
				t.saveFile(long, "plain", name, -1)
			case 7:
				t.saveFile(misfit, "plain", name, -1)
			case 8, 9:
				t.loadFile("plain", name)
			case 10:
				w := [][2]string{{"dir", "dir"}, {"noparent", "missing/a"}, {"throughfile", "plainfile/a"}, {"empty", ""}, {"loop", "loop"}, {"missing", "nothing"}}[g.Intn(6)]
				t.loadFile(w[0], w[1])
			}
		}
		for _, name := range names {
			t.loadFile("plain", name)
		}
		r.End()
		must(os.RemoveAll(dir))
	}
	// files beyond the usual buffer sizes
	for rep := 0; rep < n(2, 8); rep++ {
		t := newSt(r, "larger")
		dir, err := os.MkdirTemp(*tmp, "files")
		must(err)
		t.dir = dir
		r.Note("files", Ev{"files": t.files()})
		big := wideModel(g, 91+g.Intn(20), 95+g.Intn(20))
		t.saveFile(big, "plain", "a", -1)
		t.loadFile("plain", "a")
		t.saveFile(big, "plain", "a", 65536)
		r.End()
		must(os.RemoveAll(dir))
	}
	for _, s := range [][2]int{{300, 500}, {1, 200000}, {1200, 1100}} {
		r.Begin(fmt.Sprintf("huge %v", s))
		path := filepath.Join(*tmp, "huge.nn")
		m := wideModel(g, s[0], s[1])
		d := descModel(m)
		for _, l := range d["layers"].([]Ev) {
			delete(l, "w")
			delete(l, "b")
		}
		r.Call("hugefile", Ev{"desc": d, "params": s[1] * (s[0] + 1)}, func(e Ev) error {
			if err := nn.SaveFile(m, path); err != nil {
				return err
			}
			st, err := os.Stat(path)
			must(err)
			e["size"] = int(st.Size())
			l, err := nn.LoadFile(path)
			if err != nil {
				return err
			}
			e["same"] = bytes.Equal(bitsOf(m), bitsOf(&l))
			return nil
		})
		os.Remove(path)
		r.End()
	}
	// a file larger than a single read of the operating system returns; nearly all of it holes
	{
		r.Begin("giant")
		in, out := 1000, 134500
		path := filepath.Join(*tmp, "giant.nn")
		b := handHead(1, out)
		b[10], b[11], b[12], b[13] = byte(in), byte(in>>8), 0, 0
		b[29] = 3
		for _, k := range []string{"learningRate", "decay", "momentum"} {
			b = append(append(append(b, byte(len(k))), k...), byte64(0.5)...)
		}
		b = append(b, 'L', 'A', 1)
		for _, x := range []int{in, out} {
			b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
		}
		b = append(b, make([]byte, 16)...)
		f, err := os.Create(path)
		must(err)
		_, err = f.Write(b)
		must(err)
		values := (in + 1) * out
		must(f.Truncate(int64(len(b)) + 8*int64(values)))
		at := [][]int{}
		for _, k := range []int{0, 1, out - 1, out, g.Intn(values), g.Intn(values), g.Intn(values), values - 1 - g.Intn(out), values - 2, values - 1} {
			v := 1 + g.Intn(1000)
			at = append(at, []int{k, v})
			_, err = f.WriteAt(byte64(float64(v)), int64(len(b))+8*int64(k))
			must(err)
		}
		must(f.Close())
		r.Call("giantfile", Ev{"in": in, "out": out, "at": at}, func(e Ev) error {
			m, err := nn.LoadFile(path)
			if err != nil {
				return err
			}
			e["sizes"] = []int{m.ModelSize, m.InputSize, m.OutputSize}
			w, c := wrap(m.Layers[0]).params()
			found := [][]int{}
			for i, row := range append(append([][]float64{}, w.M...), c.M...) {
				for j, x := range row {
					if x != 0 && len(found) < 100 {
						found = append(found, []int{i*out + j, int(x)})
					}
				}
			}
			e["found"] = found
			return nil
		})
		must(os.Remove(path))
		runtime.GC()
		r.End()
	}
	// large files
	for rep := 0; rep < n(2, 10); rep++ {
		t := newSt(r, "large")
		dir, err := os.MkdirTemp(*tmp, "files")
		must(err)
		t.dir = dir
		r.Note("files", Ev{"files": t.files()})
		big, small := storedModel(g, 4, 30), storedModel(g, 2, 10)
		t.saveFile(big, "plain", "a", -1)
		t.loadFile("plain", "a")
		t.saveFile(small, "plain", "a", -1)
		t.loadFile("plain", "a")
		t.saveFile(big, "plain", "a", 4096)
		t.loadFile("plain", "a")
		r.End()
		must(os.RemoveAll(dir))
	}
}

package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"
)

func init() {
	drivers["C07"] = func(r *Rec) { driveLoss(r, true) }
	drivers["C08"] = func(r *Rec) { driveLoss(r, false) }
	drivers["C23"] = driveC23
	drivers["C24"] = driveC24
	drivers["C25"] = driveC25
	drivers["C29"] = driveC29
}

var lossKinds = []string{"mse", "mae", "ce", "bce"}

func newLoss(kind string, size int) (nn.Loss, error) {
	switch kind {
	case "mse":
		l, err := nn.NewMeanSquaredLoss(size)
		return &l, err
	case "mae":
		l, err := nn.NewMeanAbsoluteLoss(size)
		return &l, err
	case "ce":
		l, err := nn.NewCrossEntropyLoss(size)
		return &l, err
	}
	l, err := nn.NewBinaryCrossEntropyLoss(size)
	return &l, err
}

// nearly gives a number next to x.
func nearly(g Rng, x float64) float64 {
	s := float64(2*g.Intn(2) - 1)
	switch g.Intn(4) {
	case 0:
		return math.Nextafter(x, s*math.Inf(1))
	case 1:
		return x + s*math.Pow(10, -float64(5+g.Intn(12)))
	case 2:
		return x + s*5e-324
	}
	return x + s*math.Pow(10, -float64(100+g.Intn(200)))
}

func driveLoss(r *Rec, value bool) {
	g := NewRng(*seed)
	var L nn.Loss
	add := func(o, kind string, size int) {
		r.Call("newloss", Ev{"o": o, "kind": kind, "size": size}, func(e Ev) (err error) { L, err = newLoss(kind, size); return })
	}
	eval := func(o string, P, Y M) {
		P, Y = cp(P), cp(Y)
		r.Track("P", P)
		r.Track("Y", Y)
		e := Ev{"o": o, "p": mj(P), "y": mj(Y)}
		if value {
			r.Call("loss", e, func(e Ev) error { v, err := L.Forward(P, Y); e["val"] = num(v); return err })
		} else {
			var res M
			r.Call("grad", e, func(e Ev) (err error) { res, err = L.Backward(P, Y); e["res"] = mj(res); return })
		}
	}
	labels := func(kind string, rows, c int) M {
		switch kind {
		case "ce":
			return oneHot(g, rows, c)
		case "bce":
			return binaryLabels(g, rows, c)
		}
		switch g.Intn(5) {
		case 0, 1:
			return g.dyM(rows, c)
		case 2: // tiny misses are possible
			return zeros(rows, c)
		}
		return g.reM(rows, c, 2)
	}
	edge := []float64{0, 1, 1e-7, 1 - 1e-7, 1e-8, 1 - 1e-8, 5e-8, 2e-7, math.Nextafter(1e-7, 1), math.Nextafter(1e-7, 0), 1e-300, math.Nextafter(1, 0), 0.5, math.Copysign(0, -1)}
	preds := func(kind string, rows, c int) M {
		prob := kind == "ce" || kind == "bce"
		switch k := g.Intn(4); {
		case prob && k == 0:
			return g.mat(rows, c, func() float64 { return edge[g.Intn(len(edge))] })
		case prob && k == 1: // outside [0,1], as of a linear layer
			return g.mat(rows, c, func() float64 { return g.re(3) })
		case prob:
			return g.mat(rows, c, func() float64 { return g.Float64() })
		case k == 0:
			return g.dyM(rows, c)
		case k == 1:
			return g.reM(rows, c, 1e5)
		}
		return g.reM(rows, c, 2)
	}
	for _, kind := range lossKinds {
		r.Begin("new " + kind)
		for _, s := range []int{1, 2, 0, -1, -100, 1000} {
			add("N", kind, s)
		}
		r.End()
		for size := 1; size <= 6; size++ {
			for rep := 0; rep < n(6, 100); rep++ {
				r.Begin(fmt.Sprintf("%s %d", kind, size))
				add("L", kind, size)
				for q := 0; q < 4; q++ {
					rows := 1 + g.Intn(6)
					P, Y := preds(kind, rows, size), labels(kind, rows, size)
					if kind == "mae" || kind == "mse" {
						if g.Intn(2) == 0 { // some exact hits
							for i := range P.M {
								P.M[i][g.Intn(size)] = Y.M[i][0]
								Y.M[i][g.Intn(size)] = P.M[i][size-1]
							}
						}
					}
					if (kind == "mae" || kind == "mse") && q == 3 { // misses by almost nothing
						for i := range P.M {
							for j := range P.M[i] {
								P.M[i][j] = nearly(g, Y.M[i][j])
							}
						}
					}
					eval("L", P, Y)
					eval("L", P, Y)
					if kind == "bce" || kind == "ce" { // exactly right and exactly wrong predictions
						eval("L", Y, Y)
						W := cp(Y)
						for i := range W.M {
							for j := range W.M[i] {
								W.M[i][j] = 1 - W.M[i][j]
							}
						}
						eval("L", W, Y)
					}
				}
				// arguments that do not fit
				a, b := 1+g.Intn(3), 1+g.Intn(3)
				eval("L", preds(kind, a, size+1), labels(kind, a, size+1))
				eval("L", preds(kind, a, size+1), labels(kind, a, size))
				eval("L", preds(kind, a, size), labels(kind, a, size+2))
				if size > 1 {
					eval("L", preds(kind, a, size-1), labels(kind, a, size-1))
					eval("L", preds(kind, a, size), labels(kind, a, 1))
				}
				eval("L", preds(kind, a, size), labels(kind, a+b, size))
				eval("L", preds(kind, a+b, size), labels(kind, a, size))
				eval("L", preds(kind, a, size), labels(kind, a, size))
				r.End()
			}
		}
		for _, s := range [][2]int{{1, 40}, {40, 1}, {33, 17}, {130, 3}, {3, 130}, {300, 2}, {1003, 3}, {4099, 1}, {2, 1101}} {
			r.Begin(fmt.Sprintf("large %s %v", kind, s))
			add("L", kind, s[1])
			eval("L", preds(kind, s[0], s[1]), labels(kind, s[0], s[1]))
			eval("L", preds(kind, s[0], s[1]), labels(kind, s[0], s[1]))
			r.End()
		}
	}
}

func driveC23(r *Rec) {
	g := NewRng(*seed)
	// many samples, outputs, classes: matrices too large to write down
	r.Begin("bulk")
	for _, s := range [][2]int{{1, 257}, {1, 300}, {2, 40000}, {70000, 1}, {300, 300}, {1, 70000}, {129, 1}, {130, 260}, {66000, 2}} {
		for _, kind := range []string{"regression", "categorical", "binary", "argmax", "argmax", "argmax"} {
			N := s[0] * s[1]
			k := []int{0, 1, N, N - 1, N / 2, g.Intn(N + 1), g.Intn(N + 1)}[g.Intn(7)]
			at := []int{s[1] - 1, g.Intn(s[1]), g.Intn(s[1]), 0}[g.Intn(4)]
			other := (at + 1 + g.Intn(s[1])) % s[1]
			if kind == "categorical" || kind == "argmax" {
				k = g.Intn(s[0] + 1)
			}
			P, Y := zeros(s[0], s[1]), zeros(s[0], s[1])
			for i := range P.M {
				for j := range P.M[i] {
					switch kind {
					case "regression":
						if i*s[1]+j < k {
							P.M[i][j] = 1
						}
					case "binary":
						Y.M[i][j] = 1
						if i*s[1]+j >= k {
							P.M[i][j] = 0.75
						}
					}
				}
				if kind == "categorical" || kind == "argmax" {
					P.M[i][at] = 0.5
					Y.M[i][at] = 1
					if i < k {
						Y.M[i][at] = 0
						Y.M[i][other] = 1
					}
				}
			}
			r.Call("bulk", Ev{"kind": kind, "r": s[0], "c": s[1], "k": k, "at": at, "other": other}, func(e Ev) error {
				switch kind {
				case "regression":
					e["val"] = num(nn.RegressionAccuracy(P, Y, 0.5))
				case "categorical":
					e["val"] = num(nn.CategoricalAccuracy(P, Y))
				case "binary":
					e["val"] = num(nn.BinaryCategoricalAccuracy(P, Y))
				case "argmax":
					got := nn.RowMax(P)
					e["rows"], e["cols"] = got.Rows, got.Cols
					diff := []int{}
					for i := range got.M {
						if got.M[i][0] != float64(at) && len(diff) < 3 {
							diff = append(diff, i)
						}
					}
					e["diff"] = diff
				}
				return nil
			})
		}
	}
	r.End()
	acc := func(kind string, P, Y M, prec float64) {
		P, Y = cp(P), cp(Y)
		e := Ev{"kind": kind, "p": mj(P), "y": mj(Y), "prec": num(prec)}
		r.Track("P", P)
		r.Track("Y", Y)
		r.Call("acc", e, func(e Ev) error {
			var v float64
			switch kind {
			case "regression":
				v = nn.RegressionAccuracy(P, Y, prec)
			case "categorical":
				v = nn.CategoricalAccuracy(P, Y)
			case "binary":
				v = nn.BinaryCategoricalAccuracy(P, Y)
			}
			e["val"] = num(v)
			return nil
		})
		r.Untrack("P")
		r.Untrack("Y")
	}
	argmax := func(P M) {
		P = cp(P)
		r.Track("P", P)
		var res M
		if r.Call("argmax", Ev{"p": mj(P)}, func(e Ev) error { res = nn.RowMax(P); e["res"] = mj(res); return nil })["st"] == "ok" {
			pokeRes(r, g, "argmax", res)
		}
		r.Untrack("P")
	}
	binary := func(P M) {
		P = cp(P)
		r.Track("P", P)
		var res M
		if r.Call("binary", Ev{"p": mj(P)}, func(e Ev) error { res = nn.OutputBinaryValues(P); e["res"] = mj(res); return nil })["st"] == "ok" {
			pokeRes(r, g, "binary", res)
		}
		r.Untrack("P")
	}
	near := []float64{0.5, math.Nextafter(0.5, 0), math.Nextafter(0.5, 1), 0, 1, -1, 0.499999, 2, math.Copysign(0, -1), -1e300, 1e300, 1e-320, math.MaxFloat64, -math.MaxFloat64}
	row := func(c int) []float64 {
		o := make([]float64, c)
		k := g.Intn(8)
		for j := range o {
			switch k {
			case 5:
				o[j] = -math.MaxFloat64 / float64(1+g.Intn(3))
			case 6:
				o[j] = []float64{math.Inf(-1), math.Inf(-1), -1e300, -5}[g.Intn(4)]
			case 0:
				o[j] = -float64(1 + g.Intn(4)) // all negative
			case 1:
				o[j] = float64(g.Intn(2)) // ties
			case 2:
				o[j] = g.re(1e-9)
			case 3:
				o[j] = -math.Exp(g.re(40)) // widely spread, negative
			case 4:
				o[j] = 0
			default:
				o[j] = g.re(2)
			}
		}
		return o
	}
	mk := func(rows, c int) M {
		m := zeros(rows, c)
		for i := range m.M {
			m.M[i] = row(c)
		}
		return m
	}
	for rep := 0; rep < n(250, 4000); rep++ {
		rows, c := 1+g.Intn(5), 1+g.Intn(5)
		if rep%25 == 24 {
			rows, c = 1+g.Intn(60), 1+g.Intn(40)
		}
		switch rep {
		case 3:
			rows, c = 1003, 3
		case 4:
			rows, c = 4099, 1
		case 5:
			rows, c = 2, 1101
		}
		r.Begin(fmt.Sprintf("metrics %dx%d", rows, c))
		P := mk(rows, c)
		argmax(P)
		acc("categorical", P, oneHot(g, rows, c), 0)
		// labels that mostly agree
		Y := zeros(rows, c)
		for i := range Y.M {
			best := 0
			for j := range P.M[i] {
				if P.M[i][j] > P.M[i][best] {
					best = j
				}
			}
			if g.Intn(4) == 0 {
				best = g.Intn(c)
			}
			Y.M[i][best] = 1
		}
		acc("categorical", P, Y, 0)
		B := g.mat(rows, c, func() float64 { return near[g.Intn(len(near))] })
		binary(B)
		acc("binary", B, g.mat(rows, c, func() float64 { return float64(g.Intn(2)) }), 0)
		if rep%3 == 0 { // labels that no decision equals
			acc("binary", B, g.mat(rows, c, func() float64 { return []float64{0, 1, 0, 1, 0.5, 2, -1, 0.999999999, 1e-12}[g.Intn(9)] }), 0)
		}
		argmax(B)
		R, Z := g.dyM(rows, c), g.dyM(rows, c)
		for _, prec := range []float64{0, 0.125, 0.25, 1, 2, 1e9} { // many differences are exactly the precision
			acc("regression", R, Z, prec)
		}
		for i := range Z.M {
			for j := range Z.M[i] {
				Z.M[i][j] = R.M[i][j] + float64(g.Intn(5)-2)/8
			}
		}
		acc("regression", R, Z, 0.125)
		acc("regression", R, Z, 0.25)
		acc("regression", R, R, 0)
		acc("regression", R, R, 1e-300)
		r.End()
	}
}

// pokeRes changes a cell of a result.
func pokeRes(r *Rec, g Rng, of string, res M) {
	if len(res.M) == 0 || len(res.M[0]) == 0 {
		return
	}
	i := g.Intn(len(res.M))
	j, x := g.Intn(len(res.M[i])), 7.25
	r.Note2("poke", Ev{"of": of, "was": mj(res), "row": i, "col": j, "x": num(x)}, func() { res.M[i][j] = x })
	r.ev[len(r.ev)-1]["res"] = mj(res)
}

func driveC24(r *Rec) {
	g := NewRng(*seed)
	enc := func(cls []int, k int) {
		X := zeros(len(cls), 1)
		for i, c := range cls {
			X.M[i][0] = float64(c)
		}
		r.Track("X", X)
		var res M
		if r.Call("onehot", Ev{"x": mj(X), "k": k}, func(e Ev) (err error) {
			if res, err = nn.SparseToOneHot(X, k); err != nil {
				return
			}
			e["res"] = mj(res)
			e["back"] = mj(nn.RowMax(res))
			return
		})["st"] == "ok" && (len(cls) < 100 && k < 1000) {
			pokeRes(r, g, "onehot", res)
		}
		r.Untrack("X")
	}
	for k := -2; k <= 4; k++ { // every list of up to three classes, one beyond each end
		r.Begin(fmt.Sprintf("classes %d", k))
		for a := -1; a <= 4; a++ {
			enc([]int{a}, k)
			for b := -1; b <= 4; b++ {
				enc([]int{a, b}, k)
				for c := -1; c <= 4; c++ {
					enc([]int{a, b, c}, k)
				}
			}
		}
		r.End()
	}
	for _, k := range []int{300, 33000, 66000} { // many classes
		r.Begin("many classes")
		for _, c := range []int{0, 127, 128, 255, 256, 299, 32767, 32768, 65535, 65536, k - 1} {
			if c < k && (k < 60000 || c > 30000) {
				enc([]int{c}, k)
			}
		}
		r.End()
	}
	for rep := 0; rep < n(100, 2000); rep++ {
		r.Begin("random classes")
		k := 1 + g.Intn(12)
		if rep%10 == 0 {
			k = 1 + g.Intn(300)
		}
		cls := make([]int, 1+g.Intn(30))
		if rep < 3 {
			k, cls = 3+rep, make([]int, []int{1003, 4099, 257}[rep])
		}
		for i := range cls {
			cls[i] = g.Intn(k)
		}
		enc(cls, k)
		for _, bad := range []int{-1, k, k + 1, -k, 1 << 40, -1 << 40, 2 * k} {
			d := append([]int{}, cls...)
			d[g.Intn(len(d))] = bad
			enc(d, k)
		}
		enc(cls, 0)
		enc(cls, -g.Intn(5))
		r.End()
	}
}

func driveC25(r *Rec) {
	g := NewRng(*seed)
	shuffle := func(X, Y M) (a, b M) {
		X, Y = cp(X), cp(Y)
		r.Call("shuffle", Ev{"x": mj(X), "y": mj(Y)}, func(e Ev) error {
			a, b = nn.ShuffleDataset(X, Y)
			e["rx"], e["ry"] = mj(a), mj(b)
			return nil
		})
		return
	}
	for rep := 0; rep < n(300, 5000); rep++ {
		rows := 1 + g.Intn(7)
		if rep%10 == 0 {
			rows = 1 + g.Intn(120)
		}
		if rep < 3 {
			rows = []int{1003, 601, 257}[rep]
		}
		cx, cy := 1+g.Intn(4), 1+g.Intn(3)
		r.Begin(fmt.Sprintf("shuffle %d rows", rows))
		var X, Y M
		if rep%2 == 0 { // equal samples with different labels, and the reverse
			X = g.mat(rows, cx, func() float64 { return float64(g.Intn(2)) })
			Y = g.mat(rows, cy, func() float64 { return float64(g.Intn(3)) })
		} else {
			X, Y = g.reM(rows, cx, 1), g.reM(rows, cy, 1)
		}
		for q := 0; q < 4; q++ {
			X, Y = shuffle(X, Y)
			if X.Rows == 0 {
				break
			}
		}
		r.End()
	}
	number := func(rows int) (M, M) {
		X, Y := zeros(rows, 1), zeros(rows, 1)
		for i := range X.M {
			X.M[i][0], Y.M[i][0] = float64(i+1), float64(i+1)
		}
		return X, Y
	}
	for _, c := range [][2]int{{1, 5}, {2, 200}, {3, 500}, {4, 1500}} {
		r.Begin(fmt.Sprintf("orders of %d", c[0]))
		r.Call("reach", Ev{"n": c[0]}, func(e Ev) error {
			seen := map[string]bool{}
			orders := [][]int{}
			for k := 0; k < c[1]; k++ {
				X, _ := nn.ShuffleDataset(number(c[0]))
				o := []int{}
				for _, row := range X.M {
					o = append(o, int(row[0]))
				}
				if !seen[fmt.Sprint(o)] {
					seen[fmt.Sprint(o)] = true
					orders = append(orders, o)
				}
			}
			e["orders"] = orders
			return nil
		})
		r.End()
	}
	for _, c := range [][2]int{{7, 40000}, {8, 100000}, {10, 300000}} {
		r.Begin(fmt.Sprintf("how many orders of %d", c[0]))
		r.Call("many", Ev{"n": c[0], "times": c[1]}, func(e Ev) error {
			seen := map[uint64]bool{}
			for k := 0; k < c[1]; k++ {
				X, _ := nn.ShuffleDataset(number(c[0]))
				o := uint64(0)
				for _, row := range X.M {
					o = o*16 + uint64(row[0])
				}
				seen[o] = true
			}
			e["distinct"] = len(seen)
			return nil
		})
		r.End()
	}
	for _, rows := range []int{5, 12, 20} {
		r.Begin(fmt.Sprintf("places of %d", rows))
		r.Call("places", Ev{"n": rows}, func(e Ev) error {
			cnt := make([][]int, rows)
			for i := range cnt {
				cnt[i] = make([]int, rows)
			}
			for k := 0; k < 100*rows; k++ {
				X, _ := nn.ShuffleDataset(number(rows))
				for i, row := range X.M {
					cnt[int(row[0])-1][i]++
				}
			}
			e["cnt"] = cnt
			return nil
		})
		r.Call("differ", Ev{"n": 30}, func(e Ev) error {
			same := 0
			var prev M
			for k := 0; k < 200; k++ {
				X, _ := nn.ShuffleDataset(number(30))
				if k > 0 && sameM(X, prev) {
					same++
				}
				prev = X
			}
			e["same"] = same
			return nil
		})
		r.End()
	}
	// larger sets: how far the orders are mixed
	for _, rows := range []int{33, 65, 130, 300, 1003} {
		r.Begin(fmt.Sprintf("mixing %d", rows))
		r.Call("mixed", Ev{"n": rows}, func(e Ev) error {
			const times = 200
			fixed, next, up, even := 0, 0, 0, 0
			blocks := make([][]int, 20)
			for i := range blocks {
				blocks[i] = make([]int, 20)
			}
			for k := 0; k < times; k++ {
				X, _ := nn.ShuffleDataset(number(rows))
				seen := make([]bool, rows)
				cycles := 0
				at := func(i int) int { return int(X.M[i][0]) - 1 }
				for i := 0; i < rows; i++ {
					if at(i) == i {
						fixed++
					}
					if i > 0 && at(i) == at(i-1)+1 {
						next++
					}
					if i > 0 && at(i) > at(i-1) {
						up++
					}
					blocks[at(i)*20/rows][i*20/rows]++
					if !seen[i] {
						cycles++
						for j := i; !seen[j]; j = at(j) {
							seen[j] = true
						}
					}
				}
				if (rows-cycles)%2 == 0 {
					even++
				}
			}
			e["times"], e["fixed"], e["next"], e["up"], e["even"], e["blocks"] = times, fixed, next, up, even, blocks
			return nil
		})
		r.End()
	}
}

// driveC29 applies the exported activation functions on their own.
func driveC29(r *Rec) {
	g := NewRng(*seed)
	act := func(fn string, A, B M, slope float64) (res M) {
		A, B = cp(A), cp(B)
		r.Track("A", A)
		r.Track("B", B)
		r.Call("act", Ev{"fn": fn, "a": mj(A), "b": mj(B), "s": num(slope)}, func(e Ev) error {
			switch fn {
			case "relu":
				res = nn.RELU(A)
			case "sigmoid":
				res = nn.Sigmoid(A)
			case "leaky":
				res = nn.LeakyRELU(A, slope)
			case "softmax":
				res = nn.Softmax(A)
			case "clip":
				res = nn.Clip(A)
			case "relup": // gradient, pre-activations
				res = nn.RELUPrime(A, B)
			case "leakyp":
				res = nn.LeakyRELUPrime(A, B, slope)
			case "sigmoidp": // pre-activations, gradient
				res = nn.SigmoidPrime(A, B)
			}
			e["res"] = mj(res)
			return nil
		})
		r.Untrack("A")
		r.Untrack("B")
		return cp(res)
	}
	tiny := []float64{0, math.Copysign(0, -1), 5e-324, -5e-324, 1e-300, -1e-300, 1e-12, -1e-12, 1e-7, 1 - 1e-7, 1, -1, 0.5, 2e-7, -1e-7, 1 - 2e-7, 1 + 1e-7,
		math.Nextafter(1e-7, 0), math.Nextafter(1e-7, 1), math.Nextafter(1-1e-7, 0), math.Nextafter(1-1e-7, 1)}
	wide := []float64{0, 1, -1, 30, -30, 37, -37, 300, -300, 700, -700, 709, -709, 710, -710, 745, -745, 1000, -1000, 1e5, -1e5, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64, 1.2e308, -1.2e308}
	val := func(k int) func() float64 {
		switch k {
		case 0:
			return func() float64 { return tiny[g.Intn(len(tiny))] }
		case 1:
			return func() float64 { return wide[g.Intn(len(wide))] }
		case 2:
			return g.dy
		case 3:
			return func() float64 { return g.re(20) }
		case 4:
			return func() float64 { return g.Float64() }
		case 5: // far from 0, all on one side
			return func() float64 { return -900 - 3*g.Float64() }
		case 6:
			return func() float64 { return 900 + 3*g.Float64() }
		}
		return func() float64 { return g.re(1) }
	}
	slopes := []float64{0, 0.01, 0.25, 1, 2, 0.3, 1e-12}
	for rep := 0; rep < n(400, 6000); rep++ {
		rows, c := 1+g.Intn(5), 1+g.Intn(5)
		switch {
		case rep < 9:
			s := [][2]int{{1, 40}, {40, 1}, {33, 17}, {130, 3}, {3, 130}, {1, 300}, {1003, 2}, {2, 1101}, {64, 64}}[rep]
			rows, c = s[0], s[1]
		case rep%20 == 0:
			rows, c = 1+g.Intn(40), 1+g.Intn(40)
		}
		r.Begin(fmt.Sprintf("activations %dx%d", rows, c))
		s := slopes[g.Intn(len(slopes))]
		if rep%7 == 3 { // wide
			c = 6 + g.Intn(40)
		}
		Z, D := g.mat(rows, c, val(rep%8)), g.mat(rows, c, val(2+g.Intn(3)))
		if rep%3 == 1 { // one entry above the others
			for i := range Z.M {
				if j := g.Intn(c); math.Abs(Z.M[i][j]) < 1e100 {
					Z.M[i][j] += []float64{5, 50, 900}[g.Intn(3)]
				}
			}
		}
		for _, fn := range []string{"relu", "sigmoid", "leaky", "softmax", "clip"} {
			res := act(fn, Z, zeros(1, 1), s)
			if g.Intn(3) == 0 && res.Rows > 0 { // applied to its own result
				act(fn, res, zeros(1, 1), s)
			}
		}
		act("relup", D, Z, 0)
		act("leakyp", D, Z, s)
		act("sigmoidp", Z, D, 0)
		act("relup", Z, Z, 0)
		r.End()
	}
}

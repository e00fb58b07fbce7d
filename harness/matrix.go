package main

import (
	"fmt"
	"math"

	nn "github.com/cubeflix/nn"
)

func init() {
	drivers["C01"] = driveC01
	drivers["C02"] = driveC02
}

// mheap drives matrices by name.
type mheap struct {
	r *Rec
	h map[string]*M
	k int

	slices [4][]float64 // what the latest reads of rows and columns returned
}

func newHeap(r *Rec, name string) *mheap {
	r.Begin(name)
	return &mheap{r: r, h: map[string]*M{}}
}

func (h *mheap) bind(name string, m M) {
	p := &m
	h.h[name] = p
	h.r.TrackF(name, func() M { return *p })
}

func (h *mheap) let(name string, m M) {
	h.r.Note("let", Ev{"d": name, "res": mj(m)})
	h.bind(name, m)
}

// do performs one arithmetic operation.
func (h *mheap) do(op, a, b, d string, x float64, axis int) bool {
	A, B := h.h[a], h.h[b]
	var res M
	e := Ev{"a": a}
	ok := h.r.Call(op, e, func(e Ev) (err error) {
		switch op {
		case "add":
			e["b"] = b
			res, err = A.Add(*B)
		case "sub":
			e["b"] = b
			res, err = A.Sub(*B)
		case "dot":
			e["b"] = b
			res, err = A.Dot(*B)
		case "neg":
			res = A.Neg()
		case "adds":
			e["x"] = num(x)
			res = A.AddScalar(x)
		case "muls":
			e["x"] = num(x)
			res = A.MulScalar(x)
		case "pows":
			e["x"] = num(x)
			res = A.PowScalar(x)
		case "tr":
			res = A.T()
		case "sum":
			e["axis"] = axis
			res = A.Sum(axis)
		case "eq":
			e["b"] = b
			e["res"] = A.Equals(*B)
			return nil
		}
		if err == nil {
			e["res"] = mj(res)
			e["d"] = d
		}
		return err
	})["st"] == "ok"
	if ok && op != "eq" {
		h.bind(d, res)
	}
	return ok && op != "eq"
}

// poke changes a cell of a matrix in its own storage.
func (h *mheap) poke(a string, i, j int, x float64) {
	h.r.Note2("poke", Ev{"a": a, "row": i, "col": j, "x": num(x)}, func() { h.h[a].M[i][j] = x })
}

// Note2 records a change made by the caller.
func (r *Rec) Note2(op string, e Ev, f func()) Ev {
	return r.Call(op, e, func(Ev) error { f(); return nil })
}

var specials = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, -2.5, 1e-300, 1e300, 3.75e-9, 123456.789, -7, 2, 0.1}

func driveC01(r *Rec) {
	g := NewRng(*seed)
	unary := []string{"neg", "adds", "muls", "pows", "tr", "sum"}
	binary := []string{"add", "sub", "dot", "eq"}
	scalar := func() float64 {
		return []float64{1, 0, -1, 2, 0.5, g.re(2), g.re(2), g.re(2), -g.re(2), 1e-200, 1e200, -3, 1e-9}[g.Intn(13)]
	}
	pow := func() float64 {
		return []float64{2, 0, 1, 3, -1, 0.5, -2, 5, 2.5, 4, -3, 7, 10, 1.0 / 3, 0.25, -0.5, 1.5, 63}[g.Intn(18)]
	}

	// every operation on every small shape
	for rr := 1; rr <= 4; rr++ {
		for c := 1; c <= 4; c++ {
			h := newHeap(r, fmt.Sprintf("unary %dx%d", rr, c))
			h.let("A", g.dyM(rr, c))
			h.let("B", g.reM(rr, c, 3))
			h.let("C", g.mat(rr, c, func() float64 { return specials[g.Intn(len(specials))] }))
			for k, o := range []string{"A", "B", "C"} {
				for _, op := range unary {
					xs := []float64{scalar()}
					if k == 0 {
						xs = map[string][]float64{"adds": {0, 1.5}, "muls": {1, 0, -1, -0.75}, "pows": {1, 0, 2, pow()}}[op]
						if xs == nil {
							xs = []float64{0}
						}
					} else if op == "pows" {
						xs[0] = pow()
					}
					for q, x := range xs {
						d := fmt.Sprintf("%s%d%d", op, k, q)
						if h.do(op, o, "", d, x, k%2) {
							h.poke(d, g.Intn(h.h[d].Rows), g.Intn(h.h[d].Cols), 777)
						}
					}
				}
				h.do("sum", o, "", fmt.Sprintf("s0%d", k), 0, 0)
				h.do("sum", o, "", fmt.Sprintf("s1%d", k), 0, 1)
				h.poke(o, g.Intn(rr), g.Intn(c), 55)
				h.do("neg", o, "", fmt.Sprintf("n%d", k), 0, 0)
			}
			h.r.End()
		}
	}
	// every pair of small shapes, fitting or not
	for a := 0; a < 81; a++ {
		r1, c1, r2, c2 := a%3+1, a/3%3+1, a/9%3+1, a/27+1
		h := newHeap(r, fmt.Sprintf("pair %dx%d %dx%d", r1, c1, r2, c2))
		h.let("A", g.dyM(r1, c1))
		h.let("B", g.dyM(r2, c2))
		h.let("Z", g.reM(r1, c1, 1))
		for _, op := range binary {
			h.do(op, "A", "B", "R"+op, 0, 0)
		}
		h.do("eq", "A", "A", "", 0, 0)
		h.do("tr", "A", "", "AT", 0, 0)
		h.do("dot", "A", "AT", "G", 0, 0)
		h.do("add", "A", "A", "AA", 0, 0)
		h.do("sub", "A", "A", "AZ", 0, 0)
		h.do("add", "A", "Z", "P", 0, 0)
		h.do("sub", "P", "Z", "Q", 0, 0)
		h.poke("P", 0, 0, 9)
		h.poke("A", r1-1, c1-1, 8)
		h.do("add", "A", "P", "P2", 0, 0)
		h.do("tr", "A", "", "AT2", 0, 0)
		h.r.End()
	}
	// equality notices every single cell
	for k := 0; k < 12; k++ {
		rr, c := 1+g.Intn(4), 1+g.Intn(4)
		h := newHeap(r, "equality")
		A := g.dyM(rr, c)
		h.let("A", A)
		h.let("B", cp(A))
		h.do("eq", "A", "B", "", 0, 0)
		for i := 0; i < rr; i++ {
			for j := 0; j < c; j++ {
				h.poke("B", i, j, A.M[i][j]+[]float64{1, 1e-9, -4, 2e-15 * math.Max(1, math.Abs(A.M[i][j]))}[g.Intn(4)])
				h.do("eq", "A", "B", "", 0, 0)
				h.do("eq", "B", "A", "", 0, 0)
				h.poke("B", i, j, A.M[i][j])
			}
		}
		h.do("eq", "A", "B", "", 0, 0)
		// NaN is not equal to itself, 0 is equal to -0
		h.poke("A", 0, 0, 0)
		h.poke("B", 0, 0, math.Copysign(0, -1))
		h.do("eq", "A", "B", "", 0, 0)
		h.poke("A", 0, 0, math.NaN())
		h.do("eq", "A", "A", "", 0, 0)
		h.r.End()
	}
	// matrices that agree as far as both go, and matrices with the same values in another shape
	for rep := 0; rep < n(30, 300); rep++ {
		rr, c, more := 1+g.Intn(4), 1+g.Intn(4), 1+g.Intn(3)
		h := newHeap(r, fmt.Sprintf("prefix %dx%d %d", rr, c, more))
		A := g.dyM(rr, c)
		if rep%3 == 0 {
			A = zeros(rr, c)
		}
		tall, wide, flat, column := zeros(rr+more, c), zeros(rr, c+more), zeros(1, rr*c), zeros(rr*c, 1)
		for i := range tall.M {
			copy(tall.M[i], A.M[i%rr])
		}
		for i := range wide.M {
			copy(wide.M[i], A.M[i])
			for j, v := range A.M[i] {
				flat.M[0][i*c+j], column.M[i*c+j][0] = v, v
			}
		}
		h.let("A", A)
		h.let("T", tall)
		h.let("W", wide)
		h.let("F", flat)
		h.let("C", column)
		for _, o := range []string{"T", "W", "F", "C"} {
			h.do("eq", "A", o, "", 0, 0)
			h.do("eq", o, "A", "", 0, 0)
		}
		h.do("eq", "F", "C", "", 0, 0)
		h.do("eq", "C", "F", "", 0, 0)
		h.r.End()
	}
	// in large matrices, too, and the smallest differences
	for _, s := range [][2]int{{130, 3}, {3, 130}, {70, 70}, {1, 5003}, {1101, 2}} {
		h := newHeap(r, fmt.Sprintf("equality %v", s))
		A := g.reM(s[0], s[1], 2)
		h.let("A", A)
		h.let("B", cp(A))
		h.do("eq", "A", "B", "", 0, 0)
		for _, c := range [][2]int{{0, 0}, {s[0] - 1, s[1] - 1}, {0, s[1] - 1}, {s[0] - 1, 0}, {s[0] / 2, s[1] / 2}, {g.Intn(s[0]), g.Intn(s[1])}} {
			x := A.M[c[0]][c[1]]
			h.poke("B", c[0], c[1], math.Nextafter(x, math.Inf(1-2*g.Intn(2))))
			h.do("eq", "A", "B", "", 0, 0)
			h.do("eq", "B", "A", "", 0, 0)
			h.poke("B", c[0], c[1], x)
		}
		h.do("eq", "A", "B", "", 0, 0)
		h.r.End()
	}
	// numbers that are not finite
	for k := 0; k < n(24, 300); k++ {
		h := newHeap(r, "not finite")
		rr, c := 1+g.Intn(3), 1+g.Intn(3)
		val := func() float64 {
			if g.Intn(3) == 0 {
				return []float64{math.NaN(), math.Inf(1), math.Inf(-1), 0}[g.Intn(4)]
			}
			return g.dy()
		}
		h.let("A", g.mat(rr, c, val))
		h.let("B", g.mat(rr, c, val))
		h.let("D", g.mat(c, 1+g.Intn(3), val))
		for _, op := range []string{"add", "sub", "eq"} {
			h.do(op, "A", "B", op, 0, 0)
		}
		h.do("dot", "A", "D", "dot", 0, 0)
		h.do("eq", "A", "A", "", 0, 0)
		for q, op := range []string{"neg", "tr", "adds", "adds", "muls", "muls", "muls", "sum", "sum"} {
			h.do(op, "A", "", fmt.Sprint(op, q), []float64{0, 0, 1.5, math.Inf(1), 0, -2, math.Inf(-1), 0, 0}[q], q%2)
		}
		h.r.End()
	}
	// larger shapes
	shapes := [][3]int{{33, 17, 9}, {1, 130, 1}, {64, 1, 64}, {70, 65, 3}, {5, 300, 2}, {16, 16, 16}, {32, 32, 32}, {8, 128, 8}, {2, 1030, 3}, {31, 63, 33}, {129, 2, 67}, {1003, 2, 3}, {2, 1101, 2}, {3, 2, 1201}, {1, 5003, 1}, {101, 103, 37}, {72, 66, 80}}
	if *deep {
		shapes = append(shapes, [][3]int{{100, 100, 100}, {257, 33, 5}, {3, 513, 129}, {65, 64, 66}, {1, 5000, 1}, {2000, 1, 3}}...)
	}
	for _, s := range shapes {
		h := newHeap(r, fmt.Sprintf("large %v", s))
		h.let("A", g.reM(s[0], s[1], 2))
		h.let("B", g.reM(s[1], s[2], 2))
		h.let("C", g.dyM(s[0], s[1]))
		h.do("dot", "A", "B", "AB", 0, 0)
		for _, op := range unary {
			h.do(op, "A", "", op, 2, 0)
		}
		h.do("sum", "A", "", "s1", 0, 1)
		h.do("add", "A", "C", "AC", 0, 0)
		h.do("sub", "A", "C", "AmC", 0, 0)
		h.do("eq", "A", "C", "", 0, 0)
		h.do("dot", "C", "B", "CB", 0, 0)
		for q, x := range []float64{4, -1, 0.5} {
			h.do("pows", "A", "", fmt.Sprint("p", q), x, 0)
		}
		h.r.End()
	}
	// random chains in which results become operands
	for k := 0; k < n(60, 1500); k++ {
		h := newHeap(r, "chain")
		dim := []int{1 + g.Intn(5), 1 + g.Intn(5), 1 + g.Intn(5)}
		names := []string{}
		for i := 0; i < 4; i++ {
			nm := fmt.Sprintf("M%d", i)
			if k%2 == 0 {
				h.let(nm, g.dyM(dim[g.Intn(3)], dim[g.Intn(3)]))
			} else {
				h.let(nm, g.reM(dim[g.Intn(3)], dim[g.Intn(3)], 2))
			}
			names = append(names, nm)
		}
		for s := 0; s < 14; s++ {
			ops := append(append([]string{}, unary...), binary...)
			op := ops[g.Intn(len(ops))]
			a, b := names[g.Intn(len(names))], names[g.Intn(len(names))]
			d := fmt.Sprintf("R%d", s)
			if g.Intn(3) == 0 && s > 0 {
				d = names[g.Intn(len(names))] // overwrite a name
			}
			x := scalar()
			if op == "pows" {
				x = pow()
			}
			if h.do(op, a, b, d, x, g.Intn(2)) {
				found := false
				for _, q := range names {
					found = found || q == d
				}
				if !found {
					names = append(names, d)
				}
			}
			if g.Intn(4) == 0 {
				q := names[g.Intn(len(names))]
				h.poke(q, g.Intn(h.h[q].Rows), g.Intn(h.h[q].Cols), g.dy())
			}
		}
		h.r.End()
	}
}

// create makes a matrix with NewMatrix.
func (h *mheap) create(name string, rows, cols int) bool {
	var res M
	ok := h.r.Call("new", Ev{"r": rows, "c": cols}, func(e Ev) (err error) {
		res, err = nn.NewMatrix(rows, cols)
		e["res"] = mj(res)
		e["d"] = name
		return
	})["st"] == "ok"
	if ok {
		h.bind(name, res)
	}
	return ok
}

// fromSlice makes a matrix of given rows.
func (h *mheap) fromSlice(name string, rows [][]float64) bool {
	js := make([][]string, len(rows))
	for i := range rows {
		js[i] = nums(rows[i])
	}
	var res M
	ok := h.r.Call("slice", Ev{"rows": js}, func(e Ev) (err error) {
		res, err = nn.NewMatrixFromSlice(rows)
		e["res"] = mj(res)
		e["d"] = name
		return
	})["st"] == "ok"
	if ok {
		h.bind(name, res)
	}
	return ok
}

// oddities are numbers that are easily treated in another way than the rest.
var oddities = []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 0, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 2.2250738585072014e-308,
	math.MaxFloat64, -math.MaxFloat64, 1e-300, 1 << 53, 1<<53 + 2, -1e18, 0.1, 1 - 1e-16, math.MaxInt32, math.MaxInt64}

func (g Rng) oddity() float64 { return oddities[g.Intn(len(oddities))] }

// narrow stands for i where integers are 32 bits wide.
func narrow(i int) int {
	if i > 1<<30 {
		return 1 << 30
	}
	if i < -1<<30 {
		return -1 << 30
	}
	return i
}

func toInt(v interface{}) int { return int(v.(float64)) }

func driveC02(r *Rec) {
	g := NewRng(*seed)
	// construction
	for _, d := range [][2]int{{1, 1}, {1, 5}, {5, 1}, {2, 3}, {4, 4}, {0, 1}, {1, 0}, {0, 0}, {-1, 2}, {2, -1}, {-3, -3}, {17, 33}, {300, 2}, {-1, 0}} {
		h := newHeap(r, fmt.Sprintf("new %v", d))
		if h.create("A", d[0], d[1]) {
			h.accessAll(g)
		}
		h.r.End()
	}
	row := func(n int) []float64 { return g.dyM(1, n+1).M[0][:n] }
	for _, lens := range [][]int{{}, {0}, {1}, {3}, {2, 2}, {2, 3}, {3, 2}, {2, 2, 2}, {2, 2, 1}, {2, 2, 5}, {0, 0}, {1, 0}, {0, 1}, {4, 4, 4, 4}, {5, 5, 4, 5}, {1, 1, 1, 1, 1, 2}, {3, 0}, {1, 2, 1}} {
		rows := [][]float64{}
		for _, k := range lens {
			rows = append(rows, row(k))
		}
		h := newHeap(r, fmt.Sprintf("slice %v", lens))
		if h.fromSlice("A", rows) {
			h.accessAll(g)
		}
		h.r.End()
	}
	// any numbers
	for k, x := range oddities {
		h := newHeap(r, "any number "+num(x))
		rr, c := 1+k%3, 1+k/3%4
		if h.create("A", rr, c) {
			p := []map[string]interface{}{}
			for q := 0; q < 3; q++ {
				at := func(op string, s []interface{}) {
					p = append(p, map[string]interface{}{"op": op, "a": "A", "row": float64(g.Intn(rr)), "col": float64(g.Intn(c)), "x": x, "s": s})
				}
				with := func(n int) []interface{} {
					s := make([]interface{}, n)
					for i := range s {
						s[i] = g.dy()
					}
					s[g.Intn(n)] = x
					return s
				}
				at("set", nil)
				at("setrow", with(c))
				at("setcol", with(rr))
			}
			h.run(p)
		}
		h.r.End()
	}
	for rep := 0; rep < n(8, 60); rep++ {
		h := newHeap(r, "slice of any numbers")
		if h.fromSlice("A", g.mat(1+g.Intn(4), 1+g.Intn(5), g.oddity).M) {
			h.readAll("A")
		}
		h.r.End()
	}
	// one row of many has another length
	for rep := 0; rep < n(60, 600); rep++ {
		h := newHeap(r, "many rows")
		k, w := 2+g.Intn(70), 1+g.Intn(20)
		if rep%2 == 0 {
			k, w = 2+g.Intn(12), 1+g.Intn(6)
		}
		rows := [][]float64{}
		for i := 0; i < k; i++ {
			rows = append(rows, row(w))
		}
		h.fromSlice("A", rows)
		bad := append([][]float64{}, rows...)
		i := []int{g.Intn(k), k - 1, k / 2, 1}[g.Intn(4)]
		bad[i] = row([]int{w + 1, w - 1, 0, w + 7, 2 * w}[g.Intn(5)])
		h.fromSlice("B", bad)
		if k > 2 { // two wrong rows, as many entries as if they were right
			bad[0] = row(w + 1)
			bad[k-1] = row(w - 1)
			h.fromSlice("C", bad)
		}
		h.r.End()
	}
	// larger matrices, filled row by row and then column by column
	for _, d := range [][2]int{{40, 3}, {3, 40}, {70, 2}, {2, 70}, {1, 150}, {150, 1}, {33, 17}, {16, 65}, {1, 1101}, {1101, 1}} {
		for _, bysl := range []bool{false, true} {
			h := newHeap(r, fmt.Sprintf("large %v", d))
			if bysl && !h.fromSlice("A", g.reM(d[0], d[1], 1).M) || !bysl && !h.create("A", d[0], d[1]) {
				h.r.End()
				continue
			}
			p := []map[string]interface{}{}
			vals := func(n int) []interface{} {
				s := make([]interface{}, n)
				for i := range s {
					s[i] = g.re(2)
				}
				return s
			}
			for i := 0; i < d[0]; i++ {
				p = append(p, map[string]interface{}{"op": "setrow", "a": "A", "row": float64(i), "s": vals(d[1])})
			}
			h.run(p)
			p = p[:0]
			for j := 0; j < d[1]; j++ {
				p = append(p, map[string]interface{}{"op": "setcol", "a": "A", "col": float64(j), "s": vals(d[0])})
			}
			for q := 0; q < 6; q++ {
				p = append(p, map[string]interface{}{"op": "set", "a": "A", "row": float64(g.Intn(d[0])), "col": float64(g.Intn(d[1])), "x": g.dy()})
			}
			h.run(p)
			h.r.End()
		}
	}
	// programs enumerated by TLC
	for k, p := range programs() {
		h := newHeap(r, fmt.Sprintf("program %d", k))
		if !h.create("A", 2, 3) {
			h.r.End()
			continue
		}
		h.let("B", g.dyM(2, 3)) // a bystander
		h.run(p)
		h.r.End()
	}
	// long random programs on matrices of other sizes
	for k := 0; k < n(80, 2000); k++ {
		rr, c := 1+g.Intn(6), 1+g.Intn(6)
		if k%10 == 9 {
			rr, c = 1+g.Intn(40), 1+g.Intn(40)
		}
		h := newHeap(r, fmt.Sprintf("random %dx%d", rr, c))
		if !h.create("A", rr, c) {
			h.r.End()
			continue
		}
		h.let("B", g.dyM(rr, c))
		val := func(s float64) float64 {
			if k%3 == 1 && g.Intn(2) == 0 { // what the cells may hold has no limits
				return g.oddity()
			}
			return g.re(s)
		}
		idx := func(n int) int { return g.Intn(n+2) - 1 }
		wild := func(n int) int {
			return []int{-1, n, n + 1, -n, 1 << 20, -1 << 20, math.MaxInt64, math.MinInt64 + 1}[g.Intn(8)]
		}
		p := []map[string]interface{}{}
		for s := 0; s < 20; s++ {
			op := []string{"get", "set", "getrow", "getcol", "setrow", "setcol"}[g.Intn(6)]
			ri, ci := idx(rr), idx(c)
			if g.Intn(8) == 0 {
				ri = wild(rr)
			}
			if g.Intn(8) == 0 {
				ci = wild(c)
			}
			q := map[string]interface{}{"op": op, "a": []string{"A", "B"}[g.Intn(2)], "row": float64(ri), "col": float64(ci), "x": val(3)}
			want := c
			if op == "setcol" {
				want = rr
			}
			if g.Intn(5) == 0 {
				want = g.Intn(want + 3)
			}
			s := make([]interface{}, want)
			for i := range s {
				s[i] = val(2)
			}
			q["s"] = s
			if op[:3] == "set" && g.Intn(3) == 0 { // what a read has returned is written
				q["from"] = g.Intn(4)
			}
			p = append(p, q)
		}
		h.run(p)
		h.r.End()
	}
	// rows and columns written with what was read from the same matrix, or another
	for k := 0; k < n(40, 600); k++ {
		rr := 1 + g.Intn(5)
		c := rr
		if k%4 == 3 {
			c = 1 + g.Intn(5)
		}
		h := newHeap(r, fmt.Sprintf("moves %dx%d", rr, c))
		h.let("A", g.reM(rr, c, 2))
		h.let("B", g.reM(rr, c, 2))
		p := []map[string]interface{}{}
		for s := 0; s < 10; s++ {
			at := func(op string) map[string]interface{} {
				return map[string]interface{}{"op": op, "a": []string{"A", "B"}[g.Intn(2)], "row": float64(g.Intn(rr)), "col": float64(g.Intn(c)), "from": 0}
			}
			q := at([]string{"getrow", "getcol", "getrow"}[g.Intn(3)])
			w := at([]string{"setrow", "setcol"}[g.Intn(2)])
			w["from"] = s % 4
			if rr != c && (q["op"] == "getrow") != (w["op"] == "setrow") {
				w["op"] = "set" + q["op"].(string)[3:]
			}
			p = append(p, q, w)
		}
		h.run(p)
		h.r.End()
	}
}

// run executes accesses; slices of one length are all passed in the same Go slice.
func (h *mheap) run(p []map[string]interface{}) {
	bufs := map[int][]float64{}
	for _, q := range p {
		op, a := q["op"].(string), q["a"].(string)
		A := h.h[a]
		ri, ci := 0, 0
		if v, ok := q["row"]; ok {
			ri = toInt(v)
		}
		if v, ok := q["col"]; ok {
			ci = toInt(v)
		}
		e := Ev{"a": a, "row": narrow(ri), "col": narrow(ci)}
		switch op {
		case "get":
			h.r.Call(op, e, func(e Ev) error { v, err := A.Get(ri, ci); e["val"] = num(v); return err })
		case "set":
			x := q["x"].(float64)
			e["x"] = num(x)
			h.r.Call(op, e, func(e Ev) error { return A.Set(ri, ci, x) })
		case "getrow", "getcol":
			h.getline(op, e, A, ri, ci)
		case "setrow", "setcol":
			var s []float64
			if k, ok := q["from"]; ok && h.slices[k.(int)] != nil {
				s = h.slices[k.(int)]
			} else {
				js, _ := q["s"].([]interface{})
				s = bufs[len(js)]
				if s == nil {
					s = make([]float64, len(js))
					bufs[len(js)] = s
				}
				h.r.Note2("mutsrc", Ev{}, func() {
					for i := range js {
						s[i] = js[i].(float64)
					}
				})
			}
			e["s"] = nums(s)
			if op == "setrow" {
				h.r.Call(op, e, func(e Ev) error { return A.SetRow(ri, s) })
			} else {
				h.r.Call(op, e, func(e Ev) error { return A.SetColumn(ci, s) })
			}
		}
	}
	for _, s := range bufs {
		h.r.Note2("mutsrc", Ev{}, func() {
			for i := range s {
				s[i] = -12345
			}
		})
	}
	for a := range map[string]bool{"A": true} {
		h.readAll(a)
	}
}

// getline reads a row or a column and keeps the slice that it got.
func (h *mheap) getline(op string, e Ev, A *M, i, j int) {
	var v []float64
	got := fmt.Sprint("got", h.k%4)
	e = h.r.Call(op, e, func(e Ev) (err error) {
		if op == "getrow" {
			v, err = A.GetRow(i)
		} else {
			v, err = A.GetColumn(j)
		}
		e["vals"] = nums(v)
		return
	})
	if e["st"] == "ok" {
		h.k++
		e["got"] = got
		h.slices[(h.k-1)%4] = v
		h.r.TrackF(got, func() M { return M{Rows: 1, Cols: len(v), M: [][]float64{v}} })
	}
}

// readAll reads every cell, row and column of a matrix.
func (h *mheap) readAll(a string) {
	A := h.h[a]
	if A.Rows*A.Cols <= 36 {
		for i := 0; i < A.Rows; i++ {
			for j := 0; j < A.Cols; j++ {
				h.r.Call("get", Ev{"a": a, "row": i, "col": j}, func(e Ev) error { v, err := A.Get(i, j); e["val"] = num(v); return err })
			}
		}
	}
	for i := 0; i < A.Rows; i++ {
		h.getline("getrow", Ev{"a": a, "row": i}, A, i, 0)
	}
	for j := 0; j < A.Cols; j++ {
		h.getline("getcol", Ev{"a": a, "col": j}, A, 0, j)
	}
}

// accessAll writes every cell of A, with accesses beyond the borders mixed in.
func (h *mheap) accessAll(g Rng) {
	A := h.h["A"]
	p := []map[string]interface{}{}
	for k := 0; k < 12; k++ {
		p = append(p, map[string]interface{}{"op": "set", "a": "A", "row": float64(g.Intn(A.Rows+2) - 1), "col": float64(g.Intn(A.Cols+2) - 1), "x": g.dy()})
	}
	h.run(p)
}

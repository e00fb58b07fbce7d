package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	nn "github.com/cubeflix/nn"
)

// M is a matrix of the library.
type M = nn.Matrix

// Ev is one event of a trace: a call into the library and everything observed of it.
type Ev map[string]interface{}

// num writes a number so that no bit is lost.
func num(f float64) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case math.IsInf(f, 1):
		return "Infinity"
	case math.IsInf(f, -1):
		return "-Infinity"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func nums(s []float64) []string {
	o := make([]string, len(s))
	for i, v := range s {
		o[i] = num(v)
	}
	return o
}

// mj is a matrix as JSON.  Nothing that is asked for is as large as maxCells: of larger results,
// only that they are no such matrix is recorded.
func mj(m M) interface{} {
	cells := 0
	for i := range m.M {
		cells += len(m.M[i])
	}
	if cells > maxCells {
		return map[string]interface{}{"r": -1, "c": -1, "m": []int{}}
	}
	rows := make([][]string, len(m.M))
	for i := range m.M {
		rows[i] = nums(m.M[i])
	}
	return map[string]interface{}{"r": m.Rows, "c": m.Cols, "m": rows}
}

func mjs(ms []M) []interface{} {
	o := make([]interface{}, len(ms))
	for i := range ms {
		o[i] = mj(ms[i])
	}
	return o
}

// cp is a deep copy of a matrix.
func cp(m M) M {
	o := M{Rows: m.Rows, Cols: m.Cols, M: make([][]float64, len(m.M))}
	for i := range m.M {
		o.M[i] = append([]float64(nil), m.M[i]...)
	}
	return o
}

func sameM(a, b M) bool {
	if a.Rows != b.Rows || a.Cols != b.Cols || len(a.M) != len(b.M) {
		return false
	}
	for i := range a.M {
		if len(a.M[i]) != len(b.M[i]) {
			return false
		}
		for j := range a.M[i] {
			if math.Float64bits(a.M[i][j]) != math.Float64bits(b.M[i][j]) {
				return false
			}
		}
	}
	return true
}

const maxCells = 200000

type tracked struct {
	name string
	get  func() M
	old  M
}

// Rec writes traces: one JSON object per line, {"name":..,"ev":[..]}.
type Rec struct {
	w      *bufio.Writer
	f      *os.File
	n      int
	name   string
	ev     []Ev
	objs   []*tracked
	sealed bool
	limit  time.Duration
	beat   int64 // unix nanoseconds at which the running call started, 0 if none
	where  atomic.Value
	// what a crashed or hung run has recorded so far goes to this file
	side string
	mu   sync.Mutex
}

func NewRec(path string) *Rec {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	r := &Rec{w: bufio.NewWriterSize(f, 1<<20), f: f, limit: 60 * time.Second, side: path + ".cur"}
	r.where.Store("")
	go r.watchdog()
	return r
}

// watchdog reports a call that does not return.
func (r *Rec) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		b := atomic.LoadInt64(&r.beat)
		if b != 0 && time.Since(time.Unix(0, b)) > r.limit {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "HANG in %s\n%s\n", r.where.Load(), buf[:n])
			os.Exit(77)
		}
	}
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"driver:"}, a...)...)
	os.Exit(3)
}

func must(err error) {
	if err != nil {
		panic(driverError{err})
	}
}

type driverError struct{ error }

// Begin starts a trace.
func (r *Rec) Begin(name string) {
	r.name, r.ev, r.objs = name, nil, nil
	r.n++
}

// End writes the trace.
func (r *Rec) End() {
	if len(r.ev) == 0 {
		r.n-- // nothing was done
		return
	}
	for i, e := range r.ev {
		e["t"] = r.n
		e["i"] = i + 1
	}
	b, err := json.Marshal(map[string]interface{}{"name": r.name, "ev": r.ev})
	if err != nil {
		fatal(err)
	}
	r.w.Write(b)
	r.w.WriteByte('\n')
}

func (r *Rec) Close() {
	r.w.Flush()
	r.f.Close()
}

// Track registers a matrix whose contents are compared before and after every call.
func (r *Rec) Track(name string, m M) { r.TrackF(name, func() M { return m }) }

func (r *Rec) TrackF(name string, get func() M) {
	for _, o := range r.objs {
		if o.name == name {
			o.get, o.old = get, cp(get())
			return
		}
	}
	r.objs = append(r.objs, &tracked{name, get, cp(get())})
}

func (r *Rec) Untrack(name string) {
	for i, o := range r.objs {
		if o.name == name {
			r.objs = append(r.objs[:i:i], r.objs[i+1:]...)
			return
		}
	}
}

// changes lists the tracked matrices that are not bit for bit what they were.
func (r *Rec) changes() (map[string]interface{}, []string) {
	out := map[string]interface{}{}
	names := []string{}
	for _, o := range r.objs {
		now := o.get()
		if !sameM(now, o.old) {
			out[o.name] = mj(now)
			names = append(names, o.name)
			o.old = cp(now)
		}
	}
	return out, names
}

// guard runs f, which calls into the library, and says how it ended.
func (r *Rec) guard(what string, f func() error) (st, msg string) {
	r.where.Store(what)
	atomic.StoreInt64(&r.beat, time.Now().UnixNano())
	defer atomic.StoreInt64(&r.beat, 0)
	defer func() {
		if p := recover(); p != nil {
			if d, ok := p.(driverError); ok {
				panic(d)
			}
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			st, msg = "panic", clean(fmt.Sprint(p)+"\n"+string(buf[:n]))
		}
	}()
	if err := f(); err != nil {
		return "err", clean(err.Error())
	}
	return "ok", ""
}

func clean(s string) string {
	s = strings.Map(func(c rune) rune {
		if c < 32 || c > 126 {
			return ' '
		}
		return c
	}, s)
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// Call records one event: op, the fields given, how f ended and what it changed.
// f may add fields to the event.
func (r *Rec) Call(op string, e Ev, f func(e Ev) error) Ev {
	if e == nil {
		e = Ev{}
	}
	e["op"] = op
	st, msg := r.guard(r.name+"/"+op, func() error { return f(e) })
	e["st"] = st
	if msg != "" {
		e["msg"] = msg
	}
	vals, names := r.changes()
	e["chg"] = names
	if len(names) > 0 {
		e["chv"] = vals
	}
	r.ev = append(r.ev, e)
	return e
}

// Note records an event that is not a call into the library.
func (r *Rec) Note(op string, e Ev) Ev {
	return r.Call(op, e, func(Ev) error { return nil })
}

// ---- random values ----

type Rng struct{ *rand.Rand }

func NewRng(seed int64) Rng { return Rng{rand.New(rand.NewSource(seed))} }

// dy is a dyadic number k/8: sums and products of a few of them are exact.
func (g Rng) dy() float64 { return float64(g.Intn(33)-16) / 8 }

// re is a generic real number.
func (g Rng) re(s float64) float64 { return g.NormFloat64() * s }

func (g Rng) mat(r, c int, f func() float64) M {
	m := M{Rows: r, Cols: c, M: make([][]float64, r)}
	for i := range m.M {
		m.M[i] = make([]float64, c)
		for j := range m.M[i] {
			m.M[i][j] = f()
		}
	}
	return m
}

func (g Rng) dyM(r, c int) M            { return g.mat(r, c, g.dy) }
func (g Rng) reM(r, c int, s float64) M { return g.mat(r, c, func() float64 { return g.re(s) }) }

func (g Rng) pick(xs ...int) int { return xs[g.Intn(len(xs))] }

func zeros(r, c int) M { return NewRng(0).mat(r, c, func() float64 { return 0 }) }

package main

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	nn "github.com/cubeflix/nn"
)

func init() { drivers["C28"] = driveC28 }

// lg watches where messages go.
type lg struct {
	r          *Rec
	dir        string
	outs       [2]*os.File // what standard output and standard error are during a call
	off        [2]int64
	old        map[string]string
	m          *nn.Model
	d          dataset
	saved      []byte
	bad        []byte
	sayCounter int
}

func newLg(r *Rec, g Rng, name string) *lg {
	r.Begin(name)
	dir, err := os.MkdirTemp(*tmp, "logs")
	must(err)
	t := &lg{r: r, dir: dir, old: map[string]string{}}
	for i := range t.outs {
		f, err := os.CreateTemp(*tmp, "std")
		must(err)
		t.outs[i] = f
	}
	must(os.Mkdir(filepath.Join(dir, "dir"), 0755))
	must(os.Symlink("/dev/full", filepath.Join(dir, "full")))
	if g.Intn(2) == 0 {
		must(os.WriteFile(filepath.Join(dir, "a"), []byte("[info]: text that was here before\nno level\n"), 0644))
	}
	must(os.WriteFile(filepath.Join(dir, "other"), []byte("x"), 0644))
	if g.Intn(12) == 0 { // a long history
		must(os.WriteFile(filepath.Join(dir, "b"), bytes.Repeat([]byte("[info]: text that was here before\n"), 1+g.Intn(60000)), 0644))
	}
	t.files()
	t.m = storedModel(g, 1+g.Intn(2), 2)
	for _, l := range t.m.Layers {
		y := wrap(l)
		y.set(g.reM(y.in, y.out, 0.5), g.reM(1, y.out, 0.5))
	}
	t.d = dataset{g.reM(3, t.m.InputSize, 1), g.mat(3, t.m.OutputSize, func() float64 { return 1 })}
	t.saved = bytesOf(t.m)
	copy(t.saved[4:9], []string{"0.9.9", "1.0.2", "1.0.4", "1.0.0", "1.1.3", "2.0.3", "9.9.9", "0.0.3", "1.0.A", "     ", "1_0_3", "1.0.3"[:4] + "\xb3", "\x00\x00\x00\x00\x00", "10.03", "1.00.", "%d%%s"}[g.Intn(16)])
	return t
}

func (t *lg) end() {
	t.r.End()
	for _, f := range t.outs {
		f.Close()
		must(os.Remove(f.Name()))
	}
	must(os.RemoveAll(t.dir))
}

// files says what has been added to each file.
func (t *lg) files() Ev {
	o := Ev{}
	ents, err := os.ReadDir(t.dir)
	must(err)
	seen := map[string]bool{}
	for _, x := range ents {
		if !x.Type().IsRegular() {
			continue
		}
		b, err := os.ReadFile(filepath.Join(t.dir, x.Name()))
		must(err)
		s, was := string(b), t.old[x.Name()]
		kept := strings.HasPrefix(s, was)
		add := s
		if kept {
			add = s[len(was):]
		}
		o[x.Name()] = Ev{"kept": kept, "new": lines(add)}
		t.old[x.Name()] = s
		seen[x.Name()] = true
	}
	for n := range t.old {
		if !seen[n] {
			o[n] = Ev{"kept": false, "new": []Ev{}}
		}
	}
	return o
}

// lines are messages: their level and, if they end with one of ours, the text.
func lines(s string) []Ev {
	o := []Ev{}
	for _, l := range strings.Split(strings.TrimSuffix(s, "\n"), "\n") {
		if s == "" {
			break
		}
		e := Ev{"lvl": "?", "text": ""}
		for _, lvl := range []string{"info", "warning", "error"} {
			if strings.HasPrefix(l, "["+lvl+"]") {
				e["lvl"] = lvl
			}
		}
		if i := strings.Index(l, "message "); i >= 0 {
			e["text"] = textOf(l[i:])
		}
		o = append(o, e)
	}
	return o
}

// textOf makes a text fit for a trace.
func textOf(s string) string {
	c := clean(s)
	if c != s {
		c += fmt.Sprintf("#%x", crc32.ChecksumIEEE([]byte(s)))
	}
	return c
}

// call makes a call with both standard streams in files.
func (t *lg) call(op string, e Ev, f func() error) {
	old := [2]int{}
	for i := range old {
		fd, err := syscall.Dup(i + 1)
		must(err)
		old[i] = fd
		must(syscall.Dup3(int(t.outs[i].Fd()), i+1, 0))
	}
	st, msg := t.r.guard(t.r.name+"/"+op, f)
	for i := range old {
		must(syscall.Dup3(old[i], i+1, 0))
		must(syscall.Close(old[i]))
	}
	for i, k := range []string{"stdout", "stderr"} {
		b, err := os.ReadFile(t.outs[i].Name())
		must(err)
		e[k] = lines(string(b[t.off[i]:]))
		t.off[i] = int64(len(b))
	}
	e["files"] = t.files()
	t.r.Note(op, e)
	e["st"] = st
	if msg != "" {
		e["msg"] = msg
	}
}

func (t *lg) init(verbose, file bool, where, name string) {
	p := filepath.Join(t.dir, name)
	switch where {
	case "missing":
		p = filepath.Join(t.dir, "no", name)
	case "dir":
		p = filepath.Join(t.dir, "dir")
	case "full":
		p = filepath.Join(t.dir, "full")
	case "through":
		p = filepath.Join(t.dir, "other", name)
	case "empty":
		p = ""
	}
	t.call("init", Ev{"verbose": verbose, "file": file, "where": where, "name": name}, func() error { return nn.InitLogger(verbose, file, p) })
}

func want(lvls ...string) []Ev {
	o := []Ev{}
	for _, l := range lvls {
		o = append(o, Ev{"lvl": l, "text": ""})
	}
	return o
}

func (t *lg) say(lvl string) {
	t.sayCounter++
	text := fmt.Sprintf("message %d%s", t.sayCounter, []string{"", "", "", "", " 100%", " %d%s%%%!", " message", " [error]: [info]", "\t;", " " + strings.Repeat("long ", 3000), " \u00e9\u4e16"}[t.sayCounter%11])
	t.call("say", Ev{"want": []Ev{{"lvl": lvl, "text": textOf(text)}}, "good": true}, func() error {
		l := nn.InfoLogger
		switch lvl {
		case "warning":
			l = nn.WarningLogger
		case "error":
			l = nn.ErrorLogger
		}
		if t.sayCounter%2 == 0 {
			l.Println(text)
		} else {
			l.Printf("%s", text)
		}
		return nil
	})
}

// burst is many messages at once.
func (t *lg) burst(g Rng) {
	w := []Ev{}
	for k := 0; k < 200+g.Intn(200); k++ {
		t.sayCounter++
		w = append(w, Ev{"lvl": []string{"info", "warning", "error"}[g.Intn(3)], "text": fmt.Sprintf("message %d", t.sayCounter)})
	}
	t.call("burst", Ev{"want": w, "good": true}, func() error {
		for _, x := range w {
			l := nn.InfoLogger
			switch x["lvl"] {
			case "warning":
				l = nn.WarningLogger
			case "error":
				l = nn.ErrorLogger
			}
			l.Print(x["text"])
		}
		return nil
	})
}

// ext is another program that appends to a file.
func (t *lg) ext(name string) {
	p := filepath.Join(t.dir, name)
	f, err := os.OpenFile(p, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	must(err)
	_, err = f.WriteString("[info]: written by another program\n")
	must(err)
	must(f.Close())
	t.call("ext", Ev{"name": name}, func() error { return nil })
}

func (t *lg) fit(g Rng) {
	epochs, every := 1+g.Intn(4), g.Intn(3)
	w := []string{}
	val := g.Intn(2) == 0
	for k := 0; k < epochs && every > 0; k++ {
		if k%every == 0 {
			w = append(w, "info")
			if val {
				w = append(w, "info")
			}
		}
	}
	v := dataset{}
	if val {
		v = t.d
	}
	t.call("fit", Ev{"want": want(w...), "good": true}, func() error { return t.m.Fit(t.d.X, t.d.Y, epochs, g.Intn(3), v.X, v.Y, every) })
}

func (t *lg) badfit(g Rng) {
	t.call("badfit", Ev{"want": want(), "good": false}, func() error {
		return t.m.Fit(t.d.X, g.dyM(3, t.m.OutputSize+1), 2, 0, M{}, M{}, 1)
	})
}

func (t *lg) loadOld() {
	t.call("load", Ev{"want": want("warning"), "good": true}, func() error {
		_, err := nn.LoadModel(bytes.NewBuffer(append([]byte{}, t.saved...)))
		return err
	})
}

func (t *lg) anything(g Rng) {
	switch g.Intn(6) {
	case 0:
		t.say([]string{"info", "warning", "error"}[g.Intn(3)])
	case 1, 2:
		t.fit(g)
	case 3:
		t.loadOld()
	case 4:
		t.badfit(g)
	case 5: // nothing to report
		t.call("load", Ev{"want": want(), "good": true}, func() error {
			m, err := nn.LoadModel(bytes.NewBuffer(bytesOf(t.m)))
			if err == nil {
				_, err = m.Predict(t.d.X)
			}
			return err
		})
	}
}

func driveC28(r *Rec) {
	g := NewRng(*seed)
	// before any setup
	for rep := 0; rep < n(40, 200); rep++ {
		t := newLg(r, g, "no setup")
		for q := 0; q < 5; q++ {
			t.anything(g)
		}
		if rep%2 == 0 { // a setup that fails
			t.init(g.Intn(2) == 0, true, []string{"missing", "dir", "through", "empty"}[g.Intn(4)], "c")
			for q := 0; q < 3; q++ {
				t.anything(g)
			}
		}
		t.end()
	}
	run := func(name string, p []map[string]interface{}) {
		t := newLg(r, g, name)
		t.init(false, false, "plain", "")
		for _, c := range p {
			switch c["op"] {
			case "init":
				where := c["where"].(string)
				if where == "missing" {
					where = []string{"missing", "through", "empty"}[g.Intn(3)]
				}
				t.init(c["verbose"].(bool), c["file"].(bool), where, c["name"].(string))
			case "say":
				t.say(c["lvl"].(string))
			case "fit":
				t.fit(g)
			case "badfit":
				t.badfit(g)
			case "load":
				t.loadOld()
			case "burst":
				t.burst(g)
			case "ext":
				t.ext(c["name"].(string))
			}
		}
		t.anything(g)
		t.end()
	}
	for k, p := range programs() {
		run(fmt.Sprintf("program %d", k), p)
	}
	odd := []string{" a", "a ", " ", "A", "new.txt", "%d%s", "a,b", "~", "$HOME", ".hidden", "-v", "a'b", "stderr"} // names are used as they are
	for rep := 0; rep < n(150, 3000); rep++ {
		names := []string{"a", "b", "new", "other"}
		if rep%3 == 0 {
			names[1], names[2] = odd[g.Intn(len(odd))], odd[g.Intn(len(odd))]
		}
		p := []map[string]interface{}{}
		for q := 0; q < 12; q++ {
			if g.Intn(3) == 0 {
				p = append(p, map[string]interface{}{"op": "init", "verbose": g.Intn(2) == 0, "file": g.Intn(3) > 0, "where": []string{"plain", "plain", "plain", "missing", "dir", "full"}[g.Intn(6)], "name": names[g.Intn(4)]})
			} else {
				p = append(p, map[string]interface{}{"op": []string{"say", "fit", "load", "badfit", "say", "fit", "load", "ext", "ext", "burst"}[g.Intn(10)], "name": names[g.Intn(4)], "lvl": []string{"info", "warning", "error"}[g.Intn(3)]})
			}
		}
		run("random program", p)
	}
}

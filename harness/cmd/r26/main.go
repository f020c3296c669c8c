// R26: caches of scripts never change what a script does.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/commands/query"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/snippets"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/shim/fos"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	"github.com/urfave/cli/v3"
	"google.golang.org/grpc"
	"google.golang.org/protobuf/proto"
)

var scripts = []struct{ name, src string }{
	{"a", `import { println } from "@requiemdb/rq"; println("a");`},
	{"b", `import { println } from "@requiemdb/rq"; println("b");`},
	{"a and a line end", `import { println } from "@requiemdb/rq"; println("a");` + "\n"},
	{"plain", "//@ts-ignore\nRQ.PrintLn('plain');"},
	{"longer", `import { println } from "@requiemdb/rq"; println("a");println("` + strings.Repeat("b", 5000) + `");`},
	{"typed", `const x: number = 4; interface I { a: string }; const y: I = { a: "t" };` + "\n//@ts-ignore\nRQ.Print(x, y.a);"},
	{"empty", ""},
	{"throws", "//@ts-ignore\nRQ.Print('before'); throw new Error('thrown');"},
	{"wrong", "let let ="},
	{"no such package", `import x from "nowhere"; x();`},
	{"query", `import { Metrics } from "@requiemdb/rq"; const q = new Metrics("g"); q.limit(2); Metrics.render(q.query(), {resource: true, scope: true, metrics: true});`},
	{"unicode", "//@ts-ignore\nRQ.Print('\u00e9\u4e16\U0001F600\\u{1F601}\\0');"},
	{"bytes", "//@ts-ignore\nRQ.Print('\xff\xfe');"},
}

// The server that scripts query.
type answers struct{ v1.UnimplementedRQServer }

func answer(q *v1.Scan) *v1.Data {
	d := tel.PlainMetrics(len(q.Filters)+int(q.Limit), lib.Day0)
	return d
}

func (answers) ScanSamples(_ context.Context, q *v1.Scan) (*v1.Data, error) { return answer(q), nil }

var remote string

func serve() error {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	s := grpc.NewServer()
	v1.RegisterRQServer(s, answers{})
	go s.Serve(l)
	remote = l.Addr().String()
	return nil
}

type outcome struct {
	Out     string
	Err     string
	Crashed bool
}

// same compares what scripts did. Scripts that were not valid have their
// errors compared too.
func same(a, b outcome) bool { return a == b }

func (o outcome) String() string {
	s := o.Out
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	e := o.Err
	if len(e) > 200 {
		e = e[:200]
	}
	return fmt.Sprintf("output %q error %q crashed %v", s, e, o.Crashed)
}

// rq runs the query command on a file as the process p.
func rq(p *fos.Proc, file string) (o outcome) {
	std := os.Stdout
	tmp, terr := os.CreateTemp("", "stdout")
	if terr == nil {
		os.Stdout = tmp
		defer func() {
			os.Stdout = std
			b, _ := os.ReadFile(tmp.Name())
			tmp.Close()
			os.Remove(tmp.Name())
			o.Out += string(b)
		}()
	}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case fos.Crashed:
				o.Crashed = true
			case fos.Exited:
				o.Err = fmt.Sprintf("exit %d", int(x))
			default:
				o.Err = fmt.Sprintf("panic: %v", e)
			}
		}
		o.Out = p.Out.String()
		slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	}()
	root := &cli.Command{
		Name:           "rq",
		Flags:          []cli.Flag{&cli.StringFlag{Name: "logLevel", Value: "error"}},
		Commands:       []*cli.Command{query.Cmd()},
		Writer:         io.Discard,
		ErrWriter:      io.Discard,
		ExitErrHandler: func(context.Context, *cli.Command, error) {},
	}
	err := root.Run(context.Background(), []string{"rq", "query", "--remoteAddress", remote, file})
	if err != nil {
		o.Err = err.Error()
	}
	return
}

// afresh compiles and runs a script without any cache.
func afresh(src string) (o outcome) {
	var b bytes.Buffer
	defer func() { o.Out = b.String() }()
	data, err := compile.Compile([]byte(src))
	if err != nil {
		o.Err = err.Error()
		return
	}
	p, err := goja.Compile("scan.js", string(data), true)
	if err != nil {
		o.Err = err.Error()
		return
	}
	vm := js.New().WithOutput(&b).WithNow(time.Now).WithScan(func(q *v1.Scan) (*v1.Data, error) {
		return proto.Clone(answer(q)).(*v1.Data), nil
	})
	if err := vm.Run(p); err != nil {
		o.Err = err.Error()
	}
	return
}

// A box is a home directory.
type box struct{ dir string }

func newBox(base string) (b box) {
	d, err := os.MkdirTemp(base, "h")
	if err != nil {
		panic(err)
	}
	b.dir = filepath.Join(d, "home")
	os.MkdirAll(b.dir, 0o755)
	os.RemoveAll(os.TempDir())
	os.MkdirAll(os.TempDir(), 0o755)
	b.enter()
	return
}

func (b box) enter() {
	os.Setenv("HOME", b.dir)
	fos.Root = b.dir
	fos.Forget()
}

func (b box) remove() {
	fos.Use(nil)
	os.RemoveAll(filepath.Dir(b.dir))
}

// file writes the source of a script where the user keeps it.
func (b box) file(name, src string) string {
	f := filepath.Join(filepath.Dir(b.dir), name)
	if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
		panic(err)
	}
	return f
}

func process() *fos.Proc { return &fos.Proc{Crash: -1, Fail: -1} }

// run runs a script without faults.
func (b box) run(i int, name string) outcome { return b.runSource(scripts[i].src, name) }

func (b box) runSource(src, name string) outcome {
	p := process()
	f := b.file(name, src)
	fos.Use(p)
	o := rq(p, f)
	fos.Use(nil)
	return o
}

type report struct {
	Key, Err    string
	Traces      int
	Transitions int
	Counts      map[string]int
	Cut, End    bool
}

type worker struct {
	i, n     int
	k        int
	until    int64
	base     string
	tmp      string // temporary files of the processes
	also     string // where steps are besides the home directory
	want     []outcome
	out      *json.Encoder
	rep      report
	bad      int
	thorough bool
	active   bool
}

func (w *worker) over() bool {
	if time.Now().UnixNano() > w.until {
		w.rep.Cut = true
	}
	return w.rep.Cut || w.bad > 20
}

// do runs one history if it is the turn of this part.
func (w *worker) do(kind, key string, f func() error) {
	if only := os.Getenv("VERIF_ONLY"); only != "" && only != key {
		return
	}
	w.k++
	if w.k%w.n != w.i || w.over() {
		return
	}
	w.now(kind, key, f)
}

func (w *worker) now(kind, key string, f func() error) {
	err := lib.Guard(f)
	if err != nil && lib.Guard(f) != nil {
		w.bad++
		w.out.Encode(report{Key: key, Err: err.Error()})
	}
	w.rep.Traces++
	w.rep.Counts[kind]++
}

// good compares a run with the script compiled afresh.
func (w *worker) good(i int, o outcome) error {
	w.rep.Transitions++
	if !same(o, w.want[i]) {
		return fmt.Errorf("script %q: %v; compiled afresh: %v", scripts[i].name, o, w.want[i])
	}
	return nil
}

// then runs scripts after something happened, and again.
func (w *worker) then(b box, is ...int) error {
	for pass := 0; pass < 2; pass++ {
		for _, i := range is {
			if err := w.good(i, b.run(i, "x.ts")); err != nil {
				return fmt.Errorf("afterwards, pass %d: %w", pass, err)
			}
		}
	}
	return nil
}

func (w *worker) histories() {
	n := len(scripts)
	const clear = -1 // the user removes the cache
	acts := []int{clear}
	for i := 0; i < n; i++ {
		acts = append(acts, i)
	}
	depth := 3
	var rec func(h []int)
	rec = func(h []int) {
		if len(h) > 0 && h[len(h)-1] != clear && (len(h) == depth || len(h) == 1) {
			for _, same := range []bool{true, false} {
				w.do("histories", fmt.Sprintf("history %v same file %v", h, same), func() error {
					b := newBox(w.base)
					defer b.remove()
					for k, a := range h {
						if a == clear {
							os.RemoveAll(filepath.Join(b.dir, ".rq"))
							continue
						}
						f := "x.ts"
						if !same {
							f = fmt.Sprintf("f%d.%s", k, []string{"js", "ts"}[k%2])
						}
						if err := w.good(a, b.run(a, f)); err != nil {
							return fmt.Errorf("run %d: %w", k, err)
						}
					}
					return nil
				})
			}
		}
		if len(h) == depth {
			return
		}
		for _, a := range acts {
			if w.thorough || len(h) == 0 || a < 11 {
				rec(append(h[:len(h):len(h)], a))
			}
		}
	}
	rec(nil)
}

// lookalikes runs scripts of the same size which differ in one byte, at the
// beginning, the end or somewhere between.
func (w *worker) lookalikes() {
	sizes := []int{64, 128, 256, 512, 1000, 1024, 2048, 4096, 5000, 8192, 20000, 65536, 70000, 300000}
	if w.thorough {
		for n := 60; n < 130; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 1<<20, 3<<20)
	}
	source := func(n, at int, c byte) string {
		call := fmt.Sprintf("\nRQ.PrintLn('%c');\n", c)
		at = min(max(at, 2), n-len(call)-2)
		return "//" + strings.Repeat("b", at-2) + call + "//" + strings.Repeat("b", n-at-len(call)-2)
	}
	for _, n := range sizes {
		for _, at := range []int{0, n / 4, n / 2, 3 * n / 4, n} {
			for _, c := range []byte{'1', 'A'} {
				w.do("lookalikes", fmt.Sprintf("scripts of %d bytes that differ after %d, 0 and %c", n, at, c), func() error {
					b := newBox(w.base)
					defer b.remove()
					for k, c := range []byte{'0', c, '0', c} {
						src := source(n, at, c)
						if len(src) != n {
							return fmt.Errorf("script of %d bytes", len(src))
						}
						got, want := b.runSource(src, "x.ts"), outcome{Out: string(c) + "\n"}
						w.rep.Transitions++
						if !same(got, want) {
							return fmt.Errorf("run %d: %v instead of %v", k, got, want)
						}
					}
					return nil
				})
			}
		}
	}
}

// sameHash runs scripts that differ, and have the same checksum.
func (w *worker) sameHash() {
	for _, head := range []string{"RQ.PrintLn(\"", "//" + strings.Repeat("x", 500) + "\nRQ.PrintLn(\"", strings.Repeat(";", 200) + "RQ.PrintLn(\""} {
		x, y := lib.Collide(head)
		w.do("lookalikes", fmt.Sprintf("scripts with the same checksum, after %d bytes", len(head)), func() error {
			b := newBox(w.base)
			defer b.remove()
			for k, t := range []string{x, y, x, y} {
				got, want := b.runSource(head+t+"\");\n", "x.ts"), outcome{Out: t + "\n"}
				w.rep.Transitions++
				if !same(got, want) {
					return fmt.Errorf("run %d: %v instead of %v", k, got, want)
				}
			}
			return nil
		})
	}
}

// steps gives the steps of a run of script i from a state of the cache.
func (w *worker) steps(prior []int, i int) []fos.Step {
	b := newBox(w.base)
	defer b.remove()
	for _, k := range prior {
		b.run(k, "x.ts")
	}
	p := process()
	p.Also = w.also
	f := b.file("x.ts", scripts[i].src)
	fos.Use(p)
	rq(p, f)
	return p.Log
}

// parts of a write of n bytes.
func (w *worker) parts(n int) (o []int) {
	if n == 0 {
		return []int{0}
	}
	step := max(1, n/24)
	if w.thorough {
		step = 1
	}
	for k := 0; k <= n; k += step {
		o = append(o, k)
	}
	return append(o, 1, n-1, n)
}

// losses are what a power failure does to files that were not synced.
var losses = []string{"none", "empty", "half", "zeros"}

func lose(how string) {
	for _, f := range fos.Unsynced() {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		switch how {
		case "empty":
			b = nil
		case "half":
			b = b[:len(b)/2]
		case "zeros":
			b = make([]byte, len(b))
		default:
			return
		}
		os.WriteFile(f, b, 0o600)
	}
	fos.Forget()
}

func (w *worker) faults() {
	for _, prior := range [][]int{nil, {1}, {0, 1}} {
		for _, i := range []int{0, 4, 3} {
			log := w.steps(prior, i)
			for s := 0; s <= len(log); s++ {
				size := 0
				if s < len(log) {
					size = log[s].Bytes
				}
				for _, part := range w.parts(size) {
					for _, loss := range losses {
						w.do("crashes", fmt.Sprintf("crash after %v, script %d, step %d, byte %d, power %s", prior, i, s, part, loss), func() error {
							b := newBox(w.base)
							defer b.remove()
							for _, k := range prior {
								if err := w.good(k, b.run(k, "x.ts")); err != nil {
									return err
								}
							}
							fos.Forget() // long ago
							p := process()
							p.Crash, p.Part = s, part
							f := b.file("x.ts", scripts[i].src)
							fos.Use(p)
							o := rq(p, f)
							fos.Use(nil)
							if !o.Crashed {
								if err := w.good(i, o); err != nil {
									return err
								}
							}
							lose(loss)
							return w.then(b, append([]int{i, 1}, prior...)...)
						})
					}
					if s == len(log) {
						continue
					}
					for _, e := range []error{fos.NoSpace, fos.Broken} {
						w.do("failures", fmt.Sprintf("failure after %v, script %d, step %d, byte %d, %v", prior, i, s, part, e), func() error {
							b := newBox(w.base)
							defer b.remove()
							for _, k := range prior {
								if err := w.good(k, b.run(k, "x.ts")); err != nil {
									return err
								}
							}
							p := process()
							p.Fail, p.Part, p.Err = s, part, e
							f := b.file("x.ts", scripts[i].src)
							fos.Use(p)
							o := rq(p, f)
							fos.Use(nil)
							if o.Err == "" {
								if err := w.good(i, o); err != nil {
									return err
								}
							}
							return w.then(b, append([]int{i, 1}, prior...)...)
						})
					}
				}
			}
		}
	}
}

// temporary stops and fails the process at the steps that touch temporary
// files, and lets two processes take turns at them.
func (w *worker) temporary() {
	w.also = w.tmp
	defer func() { w.also = "" }()
	for _, i := range []int{0, 5} {
		log := w.steps(nil, i)
		for s := 0; s <= len(log); s++ {
			for _, e := range []error{nil, fos.NoSpace, fos.Broken} {
				for _, part := range []int{0, 10} {
					how := "stop"
					if e != nil {
						how = e.Error()
					}
					w.do("temporary files", fmt.Sprintf("temporary files, script %d, step %d, %d bytes, %s", i, s, part, how), func() error {
						b := newBox(w.base)
						defer b.remove()
						p := process()
						p.Also, p.Part = w.also, part
						if e == nil {
							p.Crash = s
						} else {
							p.Fail, p.Err = s, e
						}
						f := b.file("x.ts", scripts[i].src)
						fos.Use(p)
						o := rq(p, f)
						fos.Use(nil)
						if !o.Crashed && o.Err == "" {
							if err := w.good(i, o); err != nil {
								return err
							}
						}
						return w.then(b, 1, i)
					})
				}
			}
		}
	}
	bound := 2
	if w.thorough {
		bound = 3
	}
	k := 0
	for _, is := range [][]int{{0, 1}, {0, 5}} {
		n := w.unit(is, [2]int{-1, 0}, 0, []int{0})
		for d := 0; d < 2*n; d++ {
			k++
			if k%w.n != w.i && os.Getenv("VERIF_ONLY") == "" {
				continue
			}
			prefix := make([]int, d+1)
			prefix[d] = 1
			if w.unit(is, [2]int{-1, 0}, bound, prefix) == 0 {
				return
			}
		}
	}
}

// together runs scripts as processes that give way to each other at every
// step, in the order of the plan: choice 0 is the one that ran last, while it
// can go on, and is the only one once there were bound switches away from it.
// It gives the number of choices at each step.
func (w *worker) together(b box, is []int, plan []int, bound, crash, at int) (choices []int, outs []outcome) {
	type proc struct {
		p    *fos.Proc
		wake chan struct{}
		done bool
	}
	ps := make([]*proc, len(is))
	outs = make([]outcome, len(is))
	back := make(chan int)
	for k := range is {
		p := process()
		p.Also = w.also
		if k == crash {
			p.Crash = at
		}
		x := &proc{p: p, wake: make(chan struct{})}
		ps[k] = x
		p.Yield = func() {
			back <- k
			<-x.wake
		}
		f := b.file(fmt.Sprintf("s%d.ts", k), scripts[is[k]].src)
		go func() {
			<-x.wake
			outs[k] = rq(p, f)
			x.done = true
			back <- k
		}()
	}
	last, switches := 0, 0
	for {
		var ready []int
		for d := range ps {
			if k := (last + d) % len(ps); !ps[k].done {
				ready = append(ready, k)
			}
		}
		if len(ready) == 0 {
			break
		}
		if ready[0] == last && switches >= bound {
			ready = ready[:1]
		}
		c := 0
		if n := len(choices); n < len(plan) {
			c = plan[n]
		}
		choices = append(choices, len(ready))
		k := ready[c%len(ready)]
		if ready[0] == last && k != last {
			switches++
		}
		last = k
		x := ps[k]
		fos.Use(x.p)
		x.wake <- struct{}{}
		<-back
	}
	fos.Use(nil)
	return
}

func (w *worker) concurrent() {
	bound := 3
	if w.thorough {
		bound = 7
	}
	for _, is := range [][]int{{0, 0}, {0, 1}, {4, 4}} {
		crashes := [][2]int{{-1, 0}}
		if is[1] == 0 || w.thorough {
			// one of them stops
			for s := 0; s < 14; s++ {
				crashes = append(crashes, [2]int{0, s})
			}
		}
		for _, c := range crashes {
			// a unit has its first two choices other than 0 at steps of its own
			const most = 48
			length := most
			for d1 := 0; d1 < length; d1++ {
				// a plan that ends before its last switch is one without it, as
				// are those with a later one
				for d2 := d1 + 1; d2 < most; d2++ {
					if (d1*5+d2)%w.n != w.i && os.Getenv("VERIF_ONLY") == "" {
						continue
					}
					prefix := make([]int, d2+1)
					prefix[d1], prefix[d2] = 1, 1
					if n := w.unit(is, c, bound, prefix); n == 0 {
						return
					} else if n <= d2 {
						if n <= d1 {
							length = n
						}
						break
					}
				}
			}
			// those with one or none
			if w.i == 0 || os.Getenv("VERIF_ONLY") != "" {
				n := w.unit(is, c, 0, []int{0})
				for d := 0; d < n; d++ {
					prefix := make([]int, d+1)
					prefix[d] = 1
					if w.unit(is, c, min(1, bound), prefix) == 0 {
						return
					}
				}
			}
		}
	}
}

// unit goes through the plans with a prefix, it gives the number of choices
// of the first one, 0 when there is no time left.
func (w *worker) unit(is []int, c [2]int, bound int, prefix []int) int {
	plan := prefix[:len(prefix):len(prefix)]
	first := 0
	for {
		if w.over() {
			return 0
		}
		var choices []int
		key := fmt.Sprintf("together %v crash %v bound %d plan %v", is, c, bound, plan)
		if w.also != "" {
			key = "temporary files " + key
		}
		w.now("schedules", key, func() error {
			b := newBox(w.base)
			defer b.remove()
			os.MkdirAll(filepath.Join(b.dir, ".rq", "cache"), 0o755)
			ch, outs := w.together(b, is, plan, bound, c[0], c[1])
			choices = ch
			for k, o := range outs {
				if o.Crashed {
					continue
				}
				if err := w.good(is[k], o); err != nil {
					return fmt.Errorf("process %d: %w", k, err)
				}
			}
			return w.then(b, is[0], 1)
		})
		if choices == nil {
			return len(prefix)
		}
		if first == 0 {
			first = len(choices)
			for j, c := range prefix {
				if j >= len(choices) || c >= choices[j] {
					return first // another plan does the same
				}
			}
		}
		for len(plan) < len(choices) {
			plan = append(plan, 0)
		}
		j := len(plan) - 1
		for ; j >= len(prefix); j-- {
			if j < len(choices) && plan[j]+1 < choices[j] {
				break
			}
		}
		if j < len(prefix) {
			return first
		}
		plan = append(plan[:j:j], plan[j]+1)
	}
}

// memory goes through the cache of programs of the server.
func (w *worker) memory() {
	srcs := []string{"1", "2", "1 ", "'a'", "", "let let", "throw 1", "(function () { return 'x'.repeat(3000) })()", "'" + strings.Repeat("y", 70000) + "'", "'" + strings.Repeat("y", 70001) + "'", "[1,2,3].join()", "undefined_name"}
	x, y := lib.Collide("'")
	srcs = append(srcs, "'"+x+"'", "'"+y+"'")
	eval := func(p *goja.Program, err error) string {
		if err != nil {
			return "invalid: " + err.Error()
		}
		v, err := goja.New().RunProgram(p)
		if err != nil {
			return "error: " + err.Error()
		}
		return v.String()
	}
	var want []string
	for _, s := range srcs {
		p, err := goja.Compile("index.js", s, true)
		want = append(want, eval(p, err))
	}
	depth := 3
	if w.thorough {
		depth = 4
	}
	for _, pause := range []time.Duration{0, 2 * time.Millisecond} {
		if pause > 0 {
			depth = 2
		}
		for first := range srcs {
			w.do("program caches", fmt.Sprintf("programs from %d pause %v", first, pause), func() error {
				sn, err := snippets.New()
				if err != nil {
					return err
				}
				defer sn.Close()
				var rec func(h []int) error
				rec = func(h []int) error {
					i := h[len(h)-1]
					buf := []byte(srcs[i])
					p, err := sn.GetProgramData(buf)
					clear(buf) // the caller's
					w.rep.Transitions++
					if got := eval(p, err); got != want[i] {
						return fmt.Errorf("uses %v: %q instead of %q", h, got, want[i])
					}
					time.Sleep(pause)
					if len(h) == depth {
						return nil
					}
					for k := range srcs {
						if err := rec(append(h[:len(h):len(h)], k)); err != nil {
							return err
						}
					}
					return nil
				}
				return rec([]int{first})
			})
		}
	}
}

func work() {
	w := &worker{out: json.NewEncoder(os.Stdout), thorough: os.Getenv("VERIF_R26_TIER") == "thorough"}
	w.rep.Counts = map[string]int{}
	w.i, _ = strconv.Atoi(os.Getenv("VERIF_R26_PART"))
	w.n, _ = strconv.Atoi(os.Getenv("VERIF_R26_PARTS"))
	w.until, _ = strconv.ParseInt(os.Getenv("VERIF_R26_UNTIL"), 10, 64)
	w.base = os.Getenv("VERIF_R26_DIR")
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	w.tmp = filepath.Join(w.base, "tmp")
	os.Setenv("TMPDIR", w.tmp)
	os.MkdirAll(w.tmp, 0o755)
	if err := serve(); err != nil {
		w.rep.Cut, w.rep.End = true, true
		w.out.Encode(w.rep)
		return
	}
	for i := range scripts {
		w.want = append(w.want, afresh(scripts[i].src))
	}
	w.active = len(w.steps(nil, 0)) > 0
	if !w.active {
		w.rep.Counts["without faults"] = 1
	}
	w.histories()
	w.lookalikes()
	w.sameHash()
	w.memory()
	if w.active {
		w.faults()
		w.temporary()
		w.concurrent()
	}
	w.rep.End = true
	w.out.Encode(w.rep)
}

func main() {
	if os.Getenv("VERIF_R26_PARTS") != "" {
		work()
		return
	}
	lib.Main("R26", "fault_sequences", func(r *lib.Run) {
		r.Rule(fmt.Sprintf("the real query command on a home directory of its own: every sequence of three runs of %d scripts (equal, similar, invalid, failing, empty ones; from one file or several) and removals of the cache; a stop of the process, and of the machine (files that were not synced are lost), at every step that touches the home directory and at bytes of every write (thorough: every byte); a failure of every step; every interleaving of the steps of two runs with up to 3 (thorough 7) switches, also with one of them stopping at every step; the same for the steps that touch temporary files, with 2 (thorough 3) switches; after each of them the scripts are run twice. The program cache: every sequence of uses of 12 programs up to length 3 (thorough 4)", len(scripts)))
		r.Assume("Renames and directory entries survive a power failure in order; contents that were not synced may be lost.")
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		for _, s := range scripts {
			r.State(s.name)
		}
		parts := 8
		if os.Getenv("VERIF_ONLY") != "" {
			parts = 1
		}
		until := time.Now().Add(r.Remaining()).UnixNano()
		r.Parallel(parts, parts, func(i int) {
			cmd := exec.Command(self)
			cmd.Env = append(os.Environ(), "VERIF_R26_PART="+strconv.Itoa(i), "VERIF_R26_PARTS="+strconv.Itoa(parts),
				"VERIF_R26_UNTIL="+strconv.FormatInt(until, 10), "VERIF_R26_TIER="+r.Tier, "VERIF_R26_DIR="+r.FastScratch("p"))
			cmd.Stderr = os.Stderr
			p, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				r.Truncated()
				return
			}
			ended := false
			in := bufio.NewReaderSize(p, 1<<20)
			for {
				line, err := in.ReadBytes('\n')
				if err != nil {
					break
				}
				var x report
				if json.Unmarshal(line, &x) != nil {
					continue
				}
				if x.Err != "" {
					r.Fail(x.Key, x.Key, errors.New(x.Err))
				}
				if x.End {
					ended = true
					r.Count("traces", x.Traces)
					r.Transitions(x.Transitions)
					for k, n := range x.Counts {
						r.Count(k, n)
					}
					if x.Cut {
						r.Truncated()
					}
				}
			}
			err = cmd.Wait()
			if !ended {
				if err != nil && strings.Contains(err.Error(), "killed") {
					r.Truncated()
					return
				}
				r.Fail("crash", nil, fmt.Errorf("the process ended: %v", err))
			}
		})
	})
}

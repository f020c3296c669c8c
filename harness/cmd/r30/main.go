// R30: reused objects carry nothing from one use to the next.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/gernest/requiemdb/internal/zzverif/lib"
)

// step is an operation, or one with another in its middle.
type step struct{ op, in int }

type report struct {
	Key         string
	Err         string
	Unconfirmed string
	Done        int
	Windows     int
	Steps       int
	Cut         bool
	End         bool
}

// fresh forgets everything that is kept for reuse.
func fresh() {
	runtime.GC()
	runtime.GC()
}

type worker struct {
	ops  []op
	want []string
}

func (w *worker) name(s step) string {
	if s.in < 0 {
		return w.ops[s.op].name
	}
	return w.ops[s.op].name + " {" + w.ops[s.in].name + "}"
}

func (w *worker) names(ss []step) string {
	var o []string
	for _, s := range ss {
		o = append(o, w.name(s))
	}
	return strings.Join(o, "; ")
}

func clip(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func differ(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	i = max(0, i-20)
	return fmt.Sprintf("from byte %d: %s instead of %s", i, clip(b[i:]), clip(a[i:]))
}

type made struct {
	op  int
	res func() string
}

func (w *worker) check(m made, when string) error {
	if got := m.res(); got != w.want[m.op] {
		return fmt.Errorf("%s%s %s", w.ops[m.op].name, when, differ(w.want[m.op], got))
	}
	return nil
}

// one executes a step and compares its results with those of the operations
// alone.
func (w *worker) one(s step) (all []made, err error) {
	n := 0
	res := w.ops[s.op].run(func() {
		n++
		if s.in >= 0 && n == 1 {
			m := made{s.in, w.ops[s.in].run(func() {})}
			err = w.check(m, " in the middle of another:")
			all = append(all, m)
		}
	})
	if err == nil && s.in >= 0 && n == 0 {
		err = errors.New("harness: no middle")
	}
	m := made{s.op, res}
	if err == nil {
		err = w.check(m, ":")
	}
	return append(all, m), err
}

const keep = 3

// follow executes steps. Results are looked at again after the next steps.
func (w *worker) follow(ss []step, each func() bool) (i int, err error) {
	var last [][]made
	err = lib.Guard(func() error {
		for i = range ss {
			if !each() {
				return nil
			}
			all, err := w.one(ss[i])
			if err != nil {
				return err
			}
			last = append(last, all)
			if len(last) > keep || i == len(ss)-1 {
				old := last[:1]
				if i == len(ss)-1 {
					old = last
				}
				for _, ms := range old {
					for _, m := range ms {
						if err := w.check(m, ", looked at again later:"); err != nil {
							return err
						}
					}
				}
				last = last[1:]
			}
		}
		return nil
	})
	return
}

func (w *worker) run(ss []step) error {
	fresh()
	_, err := w.follow(ss, func() bool { return true })
	return err
}

// debruijn gives a sequence of the numbers below k in which every sequence of
// n of them occurs.
func debruijn(k, n int) []int32 {
	var seq []int32
	a := make([]int32, k*n)
	var db func(t, p int)
	db = func(t, p int) {
		if t > n {
			if n%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := int(a[t-p]) + 1; j < k; j++ {
			a[t] = int32(j)
			db(t+1, t)
		}
	}
	db(1, 1)
	return append(seq, seq[:n-1]...)
}

type stepper struct {
	w         *worker
	i, n      int
	until     int64
	out       *json.Encoder
	k         int
	done      int
	steps     int
	windows   int
	cut, over bool
	bad       int
}

func (s *stepper) report(ss []step, err error) {
	s.out.Encode(report{Key: s.w.names(ss), Err: err.Error()})
	if s.bad++; s.bad > 10 {
		s.over = true
	}
}

func (s *stepper) late() bool {
	if time.Now().UnixNano() > s.until {
		s.cut, s.over = true, true
	}
	return s.over
}

// seq executes one sequence from nothing, when it is the turn of this part.
func (s *stepper) seq(ss ...step) {
	s.k++
	if s.over || s.k%s.n != s.i || s.late() {
		return
	}
	err := s.w.run(ss)
	if err != nil && s.w.run(ss) != nil {
		s.report(ss, err)
	}
	s.done++
	s.steps += len(ss)
}

// long executes the part of a long sequence that belongs to this part. Every
// n steps in a row are one explored sequence.
func (s *stepper) long(ss []step, n int) {
	size := (len(ss) + s.n - 1) / s.n
	lo, hi := min(len(ss), s.i*size), min(len(ss), (s.i+1)*size+n-1)
	ss = ss[lo:hi]
	for len(ss) >= n && !s.over {
		fresh()
		c := 0
		i, err := s.w.follow(ss, func() bool { c++; return c%64 != 0 || !s.late() })
		s.steps += i + 1
		s.windows += max(0, i+1-n+1)
		if err == nil {
			return
		}
		// the shortest history that leads there
		found := false
		for l := 1; ; l *= 2 {
			l = min(l, i+1)
			if e := s.w.run(ss[i+1-l : i+1]); e != nil {
				s.report(ss[i+1-l:i+1], e)
				found = true
				break
			}
			if l == i+1 {
				break
			}
		}
		if !found {
			s.out.Encode(report{Unconfirmed: err.Error()})
		}
		ss = ss[i+1:]
	}
}

// explore goes through everything that a tier covers.
func (s *stepper) explore(quick bool) {
	w := s.w
	var cheap, nested []step
	for i := range w.ops {
		if !w.ops[i].slow {
			cheap = append(cheap, step{i, -1})
		}
		if w.ops[i].mid {
			for j := range w.ops {
				if !w.ops[j].slow {
					nested = append(nested, step{i, j})
				}
			}
		}
	}
	for i := range w.ops {
		s.seq(step{i, -1})
	}
	for i := range w.ops {
		for j := range w.ops {
			s.seq(step{i, -1}, step{j, -1})
			if w.ops[i].mid {
				s.seq(step{i, j})
			}
		}
	}
	all := func(alphabet []step, n int) {
		var ss []step
		for _, i := range debruijn(len(alphabet), n) {
			ss = append(ss, alphabet[i])
		}
		s.long(ss, n)
	}
	all(cheap, 3)
	var ss []step
	for _, a := range nested {
		for _, b := range cheap {
			ss = append(ss, a, b)
		}
	}
	s.long(ss, 3)
	if quick {
		return
	}
	for i := range w.ops {
		for j := range w.ops {
			if w.ops[i].slow || w.ops[j].slow {
				for k := range w.ops {
					if w.ops[k].slow || w.ops[i].slow && w.ops[j].slow {
						continue
					}
					s.seq(step{i, -1}, step{k, -1}, step{j, -1})
				}
			}
		}
	}
	all(append(nested, cheap...), 2)
	all(cheap, 4)
}

func work() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(2 << 30)
	lib.FastParquet()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	i, _ := strconv.Atoi(os.Getenv("VERIF_R30_PART"))
	n, _ := strconv.Atoi(os.Getenv("VERIF_R30_PARTS"))
	until, _ := strconv.ParseInt(os.Getenv("VERIF_R30_UNTIL"), 10, 64)
	out := json.NewEncoder(os.Stdout)
	if err := prepare(os.Getenv("VERIF_R30_DIR")); err != nil {
		out.Encode(report{Key: "prepare", Err: err.Error()})
		return
	}
	w := &worker{ops: operations()}
	for i := range w.ops {
		err := lib.Guard(func() error {
			fresh()
			a := w.ops[i].run(func() {})()
			fresh()
			if b := w.ops[i].run(func() {})(); a != b {
				// not a function of its input even when nothing is reused
				return errors.New(differ(a, b))
			}
			w.want = append(w.want, a)
			return nil
		})
		if err != nil {
			out.Encode(report{Key: "alone: " + w.ops[i].name, Err: err.Error()})
			return
		}
	}
	if os.Getenv("VERIF_R30_TIMES") != "" {
		t := time.Now()
		for i := 0; i < 10; i++ {
			fresh()
		}
		fmt.Fprintln(os.Stderr, "fresh", time.Since(t)/10)
		for _, o := range w.ops {
			t := time.Now()
			for i := 0; i < 10; i++ {
				o.run(func() {})()
			}
			fmt.Fprintln(os.Stderr, o.name, time.Since(t)/10)
		}
		return
	}
	s := &stepper{w: w, i: i, n: n, until: until, out: out}
	if only := os.Getenv("VERIF_ONLY"); only != "" {
		var ss []step
		for _, f := range strings.Split(only, "; ") {
			a, b, _ := strings.Cut(strings.TrimSuffix(f, "}"), " {")
			x := step{-1, -1}
			for i := range w.ops {
				if w.ops[i].name == a {
					x.op = i
				}
				if w.ops[i].name == b {
					x.in = i
				}
			}
			if x.op >= 0 {
				ss = append(ss, x)
			}
		}
		s.n, s.i = 1, 0
		s.seq(ss...)
	} else {
		s.explore(os.Getenv("VERIF_R30_TIER") == "quick")
	}
	out.Encode(report{Done: s.done, Windows: s.windows, Steps: s.steps, Cut: s.cut, End: true})
}

func main() {
	if os.Getenv("VERIF_R30_PARTS") != "" {
		work()
		return
	}
	lib.Main("R30", "model_checking", func(r *lib.Run) {
		ops := operations()
		r.Rule(fmt.Sprintf("every sequence of one and two of %d operations (ingestion, merging, filtering, rendering, scripts, columns, scans, compression, labels, keys; empty, large and failing ones) and every operation run in the middle of another, each from a state without anything to reuse; every sequence of three (thorough: four) of those without a columnar file, and of an operation within another and one more, as parts of longer sequences; in processes with one processor, where what was released last is what is reused first", len(ops)))
		r.Assume("With one processor and no garbage collection, sync.Pool hands out what was put into it; two collections empty it.",
			"Globals that a script leaves in its engine are not part of the claim (engines are not reused by the server).")
		var slow, mid int
		for _, o := range ops {
			r.State(o.name)
			if o.slow {
				slow++
			}
			if o.mid {
				mid++
			}
		}
		r.Note("operations", len(ops))
		r.Note("operations with a database", slow)
		r.Note("operations with a middle", mid)
		self, err := os.Executable()
		if err != nil {
			panic(err)
		}
		parts := 8
		if os.Getenv("VERIF_ONLY") != "" {
			parts = 1
		}
		until := time.Now().Add(r.Remaining()).UnixNano()
		r.Parallel(parts, parts, func(i int) {
			ended := false
			dir := r.FastScratch("p")
			cmd := exec.Command(self)
			cmd.Env = append(os.Environ(), "VERIF_R30_PART="+strconv.Itoa(i), "VERIF_R30_PARTS="+strconv.Itoa(parts),
				"VERIF_R30_UNTIL="+strconv.FormatInt(until, 10), "VERIF_R30_TIER="+r.Tier, "VERIF_R30_DIR="+filepath.Join(dir, "db"))
			cmd.Stderr = os.Stderr
			p, err := cmd.StdoutPipe()
			if err == nil {
				err = cmd.Start()
			}
			if err != nil {
				r.Truncated()
				return
			}
			in := bufio.NewReaderSize(p, 1<<20)
			for {
				line, err := in.ReadBytes('\n')
				if err != nil {
					break
				}
				var x report
				if json.Unmarshal(line, &x) != nil {
					continue
				}
				if x.Unconfirmed != "" {
					r.Note("unconfirmed", x.Unconfirmed)
				}
				if x.Err != "" {
					r.Fail(x.Key, x.Key, errors.New(x.Err))
				}
				if x.End {
					ended = true
					r.Count("sequences from nothing", x.Done)
					r.Count("sequences within longer ones", x.Windows)
					r.Count("traces", x.Done+x.Windows)
					r.Transitions(x.Steps)
					r.Evals(x.Steps)
					if x.Cut {
						r.Truncated()
					}
				}
			}
			err = cmd.Wait()
			if !ended {
				if err != nil && strings.Contains(err.Error(), "killed") {
					r.Truncated()
					return
				}
				r.Fail("crash", nil, fmt.Errorf("the process ended: %v", err))
			}
		})
	})
}

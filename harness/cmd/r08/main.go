// R08: a crash loses only what was not flushed.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/conc"
	"github.com/gernest/requiemdb/internal/zzverif/crash"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/sched"
	"github.com/gernest/requiemdb/internal/zzverif/shim/vtime"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// A history is a list of operations:
//
//	m l t   export a metric, log or span that shares its labels with others
//	n       export a metric with labels of its own
//	w       export a metric of the next hour
//	f       timed flush
//	r       clean stop and start
type task struct {
	History string
	Reverse bool   // the other order of maps
	Lease   uint64 // ids reserved at once
	Nested  bool   // crash again while recovering
	Torn    bool   // with writes that are cut short
	Part    int    // of the points: those with number Part modulo Parts
	Parts   int
}

type bad struct{ Where, Err string }

type result struct {
	Points, States, Torn, Nested int
	Bad                          []bad
	Err                          string
}

// Msgs makes the message of an operation.
func msg(op byte, n int) *v1.Data {
	switch op {
	case 'n':
		return conc.Msg('m', n, false)
	case 'w':
		return tel.One(tel.Res("n", "same"), nil, tel.Gauge(fmt.Sprintf("m%d", n),
			tel.Num(uint64(conc.At.Add(time.Hour).UnixNano())+uint64(n), float64(n))))
	}
	return conc.Msg(op, n, true)
}

// model is what must be stored and what may be.
type model struct{ done, queued []*v1.Data }

func (m model) clone() model {
	return model{append([]*v1.Data{}, m.done...), append([]*v1.Data{}, m.queued...)}
}

type picture struct {
	where string
	files crash.Picture
	m     model
}

// server runs operations under the scheduler.
type server struct {
	dir    string
	st     *stack.Stack
	cancel context.CancelFunc
	m      model
	n      int
}

func (s *server) start() error {
	st, err := stack.Open(s.dir, false)
	if err != nil {
		return err
	}
	s.st = st
	var ctx context.Context
	ctx, s.cancel = context.WithCancel(context.Background())
	st.Svc.Start(ctx)
	sched.Settle()
	return nil
}

func (s *server) stop() error {
	s.cancel()
	sched.Settle()
	if err := s.st.Close(); err != nil {
		return err
	}
	s.flushed()
	return nil
}

func (s *server) flushed() {
	s.m.done = append(s.m.done[:len(s.m.done):len(s.m.done)], s.m.queued...)
	s.m.queued = nil
}

func (s *server) do(op byte) error {
	switch op {
	case 'f':
		vtime.Fire()
		sched.Settle()
		s.flushed()
		return nil
	case 'r':
		if err := s.stop(); err != nil {
			return err
		}
		return s.start()
	}
	s.n++
	d := msg(op, s.n)
	if err := s.st.Export(tel.Clone(d)); err != nil {
		return err
	}
	s.m.queued = append(s.m.queued[:len(s.m.queued):len(s.m.queued)], d)
	return nil
}

// record runs the history on dir, which holds what m says, and returns a
// picture of the files at every point at which they differ from the one before.
func record(dir, history string, m model, n int, torn bool) (pics []picture, points, torns int, err error) {
	s := &server{dir: dir, m: m, n: n}
	var last crash.Picture
	lastKey := ""
	i := -1
	sched.SetHook(func(label string) {
		points++
		p, e := crash.Take(dir, last)
		if e != nil {
			err = e
			return
		}
		k := p.Key() + fmt.Sprint(len(s.m.done), len(s.m.queued))
		if k == lastKey {
			return
		}
		where := fmt.Sprintf("operation %d of %q, before %s", i, history, label)
		if torn && last != nil {
			ts, what := crash.Torn(last, p)
			for j, t := range ts {
				torns++
				pics = append(pics, picture{where + ", " + what[j], t, s.m.clone()})
			}
		}
		last, lastKey = p, k
		pics = append(pics, picture{where, p, s.m.clone()})
	})
	defer sched.SetHook(nil)
	res := sched.Execute(nil, false, 0, func() {
		if e := s.start(); e != nil {
			err = fmt.Errorf("start: %w", e)
			return
		}
		for i = range history {
			sched.Point("operation")
			if e := s.do(history[i]); e != nil {
				err = fmt.Errorf("operation %d of %q: %w", i, history, e)
				return
			}
		}
		i = len(history)
		sched.Point("the end")
		if e := s.stop(); e != nil {
			err = fmt.Errorf("stop: %w", e)
		}
		sched.Point("stopped")
	})
	if res.Verdict != "" {
		err = fmt.Errorf("%s", res.Verdict)
	}
	return
}

// split says which of the queued messages are stored: what one query finds
// must be there for all of them.
func split(st *stack.Stack, m model) (model, error) {
	out := m.clone()
	out.queued = nil
	for _, d := range m.queued {
		for _, q := range ranges(tel.Kind(d)) {
			got, err := st.Scan(q)
			if err != nil {
				return out, err
			}
			if conc.Has(got, d) {
				out.done = append(out.done, d)
				break
			}
		}
	}
	return out, nil
}

func all(scope v1.Scan_SCOPE) *v1.Scan {
	return tel.Range(scope, conc.At.Truncate(time.Hour), conc.At.Truncate(time.Hour).Add(2*time.Hour))
}

// ranges are queries that match every message of a kind and read different
// parts of the index.
func ranges(scope v1.Scan_SCOPE) []*v1.Scan {
	day := conc.At.Truncate(24 * time.Hour)
	return []*v1.Scan{
		all(scope),
		tel.Range(scope, day, day.Add(24*time.Hour)),
		tel.Range(scope, day.AddDate(0, -1, 0), day.AddDate(0, 1, 0)),
		tel.Range(scope, day.AddDate(-1, 0, 0), day.AddDate(1, 0, 0)),
	}
}

func verify(st *stack.Stack, want []*v1.Data) error {
	for _, scope := range conc.Scopes {
		var w []*v1.Data
		for _, d := range want {
			if tel.Kind(d) == scope {
				w = append(w, d)
			}
		}
		for _, q := range ranges(scope) {
			got, err := st.Scan(q)
			if err == nil {
				err = conc.Among(got, w, nil)
			}
			if err != nil {
				return fmt.Errorf("scan of %v: %w", q, err)
			}
		}
		var last *v1.Data
		for _, d := range w {
			// times grow with the order of the exports
			at := tel.Records(d)[0].Time
			if at < uint64(conc.At.Add(time.Hour).UnixNano()) && (last == nil || at > tel.Records(last)[0].Time) {
				last = d
			}
		}
		if last != nil {
			got, err := st.Scan(&v1.Scan{Scope: scope, Now: timestamppb.New(conc.At.Add(5 * time.Minute))})
			if err == nil {
				err = conc.Among(got, []*v1.Data{last}, nil)
			}
			if err != nil {
				return fmt.Errorf("instant scan of %v: %w", scope, err)
			}
		}
		for _, d := range w {
			q := all(scope)
			q.Filters = []*v1.Scan_Filter{conc.Own(d)}
			var also []*v1.Data
			for _, o := range w {
				if len(tel.Filter(tel.Records(o), 0, 1<<63, q.Filters...)) > 0 {
					also = append(also, o)
				}
			}
			got, err := st.Scan(q)
			if err == nil {
				err = conc.Among(got, also, nil)
			}
			if err != nil {
				return fmt.Errorf("scan of %v with %v: %w", scope, q.Filters, err)
			}
		}
	}
	return nil
}

// recover restarts the server on a picture and checks what it has.
func recover_(p picture, dir string) error {
	if err := p.files.Restore(dir); err != nil {
		panic(err)
	}
	st, err := stack.Open(dir, false)
	if err != nil {
		return fmt.Errorf("the server does not start: %w", err)
	}
	open := true
	defer func() {
		if open {
			st.Close()
		}
	}()
	m, err := split(st, p.m)
	if err != nil {
		return fmt.Errorf("after the crash: %w", err)
	}
	if err := verify(st, m.done); err != nil {
		return fmt.Errorf("after the crash: %w", err)
	}
	// go on
	n := 100
	for _, op := range "mlntw" {
		n++
		d := msg(byte(op), n)
		if err := st.Export(tel.Clone(d)); err != nil {
			return fmt.Errorf("export after the crash: %w", err)
		}
		m.done = append(m.done, d)
	}
	if err := st.Flush(); err != nil {
		return fmt.Errorf("flush after the crash: %w", err)
	}
	if err := verify(st, m.done); err != nil {
		return fmt.Errorf("after the crash and a flush: %w", err)
	}
	open = false
	if err := st.Restart(); err != nil {
		return fmt.Errorf("restart after the crash: %w", err)
	}
	open = true
	if err := verify(st, m.done); err != nil {
		return fmt.Errorf("after the crash, a flush and a restart: %w", err)
	}
	return nil
}

func guarded(p picture, dir string) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return recover_(p, dir)
}

func worker(t task, base string) (r result) {
	conc.Init()
	sched.ReverseMaps = t.Reverse
	sched.MaxLease = t.Lease
	sched.Skip([]string{"pools"})
	mk := func() string {
		d, err := os.MkdirTemp(base, "d")
		if err != nil {
			panic(err)
		}
		return d
	}
	dir := mk()
	pics, points, torn, err := record(dir, t.History, model{}, 0, t.Torn)
	os.RemoveAll(dir)
	r.Points, r.Torn = points, torn
	if err != nil {
		r.Err = err.Error()
		return
	}
	for i, p := range pics {
		if i%t.Parts != t.Part {
			continue
		}
		if t.Nested {
			// a crash at every point of the restart and the flush after it
			d := mk()
			if err := p.files.Restore(d); err != nil {
				panic(err)
			}
			// what was queued is lost, or there
			m := model{done: p.m.done}
			lost := p.m.queued
			more, n, _, err := record(d, "mnf", m, 50, false)
			os.RemoveAll(d)
			if err != nil {
				r.Bad = append(r.Bad, bad{p.where, err.Error()})
				continue
			}
			r.Points += n
			for _, q := range more {
				q.m.queued = append(q.m.queued, lost...)
				q.where = p.where + "; then " + q.where
				d := mk()
				err := guarded(q, d)
				os.RemoveAll(d)
				r.Nested++
				if err != nil {
					r.Bad = append(r.Bad, bad{q.where, err.Error()})
				}
			}
		} else {
			d := mk()
			err := guarded(p, d)
			os.RemoveAll(d)
			r.States++
			if err != nil {
				r.Bad = append(r.Bad, bad{p.where, err.Error()})
			}
		}
		if len(r.Bad) > 3 {
			return
		}
	}
	return
}

func run(t task, dir string) (r result, err error) {
	self, err := os.Executable()
	if err != nil {
		return r, err
	}
	b, _ := json.Marshal(t)
	c := exec.Command(self, "worker", string(b), dir)
	c.Env = append(os.Environ(), "GOMAXPROCS=3")
	var out, errs bytes.Buffer
	c.Stdout, c.Stderr = &out, &errs
	err = c.Run()
	if err != nil {
		s := errs.String()
		if strings.Contains(err.Error(), "signal: killed") {
			return r, nil
		}
		return r, fmt.Errorf("the process ended: %v\n%s", err, s[max(0, len(s)-3000):])
	}
	return r, json.Unmarshal(out.Bytes(), &r)
}

func main() {
	if len(os.Args) > 3 && os.Args[1] == "worker" {
		var t task
		if err := json.Unmarshal([]byte(os.Args[2]), &t); err != nil {
			panic(err)
		}
		json.NewEncoder(os.Stdout).Encode(worker(t, os.Args[3]))
		return
	}
	lib.Main("R08", "model_checking", func(r *lib.Run) {
		r.Rule("every point of every history, and every restart after it")
		var tasks []task
		for _, h := range lib.Pick(r, []string{"mnf"}, []string{"mnf", "mfnlf", "mfrnf", "mlwf"}) {
			for p := 0; p < 8; p++ {
				tasks = append(tasks, task{History: h, Lease: 2, Nested: true, Part: p, Parts: 8})
			}
		}
		for _, h := range histories(r.Quick()) {
			for _, rev := range []bool{false, true} {
				if r.Quick() || len(h) < 4 {
					tasks = append(tasks, task{History: h, Reverse: rev, Lease: 3, Torn: true, Parts: 1})
				}
			}
		}
		if !r.Quick() {
			for _, h := range histories(false) {
				if len(h) >= 4 {
					tasks = append(tasks, task{History: h, Lease: 3, Parts: 1})
				}
			}
		}
		base := r.FastScratch("w")
		r.Parallel(len(tasks), 8, func(i int) {
			t := tasks[i]
			if r.Expired() || r.Failures() > 2 {
				r.Truncated()
				return
			}
			key := fmt.Sprintf("%s reverse=%v nested=%v %d", t.History, t.Reverse, t.Nested, t.Part)
			dir := filepath.Join(base, fmt.Sprint(i))
			os.MkdirAll(dir, 0o755)
			defer os.RemoveAll(dir)
			res, err := run(t, dir)
			if err == nil && res.Err != "" {
				err = fmt.Errorf("%s", res.Err)
			}
			r.State(key)
			r.Trace()
			r.Transitions(res.Points)
			r.Count("points at which the files were looked at", res.Points)
			r.Count("restarts on different files", res.States)
			r.Count("of which with a write cut short", res.Torn)
			r.Count("restarts after a crash of a recovering server", res.Nested)
			for i := 0; i < res.States+res.Nested; i++ {
				r.State(key + fmt.Sprint(i))
			}
			report := func(where, msg string) {
				if r.Failures() > 2 {
					return
				}
				r.Case(key+" "+where, map[string]any{"task": t, "where": where}, func() error {
					res, err := run(t, dir)
					if err != nil {
						return err
					}
					if where == "" && res.Err != "" {
						return fmt.Errorf("history %q: %s", t.History, res.Err)
					}
					for _, b := range res.Bad {
						if b.Where == where {
							return fmt.Errorf("crash at %s: %s", where, b.Err)
						}
					}
					return nil
				})
			}
			if err != nil {
				report("", err.Error())
			}
			for _, b := range res.Bad {
				report(b.Where, b.Err)
			}
		})
	})
}

// histories are the orders of operations that end with a change of the
// database.
func histories(quick bool) (out []string) {
	if quick {
		return []string{"mf", "mnf", "mlf", "mfnf", "mlwtf", "mrnf", "mfrlf", "mflrf", "wfmf", "mmmmf"}
	}
	var rec func(h string)
	rec = func(h string) {
		if n := len(h); n > 0 && (h[n-1] == 'f' || h[n-1] == 'r') {
			out = append(out, h)
		}
		if len(h) == 4 {
			return
		}
		for _, op := range "mnlwfr" {
			if op == 'f' || op == 'r' {
				if h == "" || strings.HasSuffix(h, "f") && op == 'f' || strings.HasSuffix(h, "r") {
					continue
				}
			}
			rec(h + string(op))
		}
	}
	rec("")
	return
}

// Package explore enumerates the schedules of scenarios in worker processes.
package explore

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/sched"
)

// Scenario is a set of threads and what must hold after every schedule of
// them. Prepare and the function it returns last run outside of the scheduler.
type Scenario struct {
	Name string
	// Prepare sets the scenario up in dir. body runs under the scheduler,
	// check afterwards.
	Prepare func(dir string) (body func(), check func() error)
}

type pair [2]int

type request struct {
	Scenario string
	Plan     []pair
	Labels   bool
}

type answer struct {
	N      []int // possibilities of each decision; kinds in K
	K      string
	Steps  int64
	Err    string
	Labels []string
	Div    bool
	Dirty  bool
}

// Worker serves executions on stdin and stdout.
func Worker(scenarios []Scenario) {
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
		if h, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(h)
			defer pprof.StopCPUProfile()
		}
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	base := os.Getenv("VERIF_WORKDIR")
	if l := os.Getenv("VERIF_SKIP"); l != "" {
		sched.Skip(strings.Split(l, ","))
	}
	warm := map[string]bool{}
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			return
		}
		for _, s := range scenarios {
			if s.Name != q.Scenario {
				continue
			}
			if !warm[s.Name] {
				// what happens once per process must not differ between executions
				warm[s.Name] = true
				if a := run(s, request{Scenario: s.Name}, base); a.Dirty {
					enc.Encode(a)
					out.Flush()
					return
				}
			}
			a := run(s, q, base)
			enc.Encode(a)
			out.Flush()
			if a.Dirty {
				return
			}
		}
	}
}

func run(s Scenario, q request, base string) (a answer) {
	dir, err := os.MkdirTemp(base, "x")
	if err != nil {
		a.Err = ""
		return
	}
	defer os.RemoveAll(dir)
	plan := map[int]int{}
	for _, p := range q.Plan {
		plan[p[0]] = p[1]
	}
	body, check := s.Prepare(dir)
	res := sched.Execute(plan, q.Labels, 200000, body)
	a.Steps, a.Labels, a.Div, a.Dirty = res.Steps, res.Labels, res.Diverged, res.Dirty
	k := make([]byte, len(res.Decisions))
	for i, d := range res.Decisions {
		a.N = append(a.N, d.N)
		switch {
		case !d.Preempt:
			k[i] = 'f'
		case d.Stmt:
			k[i] = 's'
		default:
			k[i] = 'y'
		}
	}
	a.K = string(k)
	if res.Verdict != "" {
		a.Err = res.Verdict
		return
	}
	if err := check(); err != nil {
		a.Err = err.Error()
	} else {
		a.Err = races(base)
	}
	return
}

var raceSeen int

// races reports the data races in the code of the server that the race
// detector found since the last call.
func races(base string) string {
	b, err := os.ReadFile(fmt.Sprintf("%s/race.%d", base, os.Getpid()))
	if err != nil || len(b) <= raceSeen {
		return ""
	}
	s := string(b[raceSeen:])
	raceSeen = len(b)
	for _, w := range strings.Split(s, "WARNING: DATA RACE")[1:] {
		w, _, _ = strings.Cut(w, "==================")
		if ours(w) {
			return "data race:" + w
		}
	}
	return ""
}

// ours reports whether both accesses of a report are made by statements of the
// server, and not by its dependencies, whose synchronisation is not watched.
func ours(w string) bool {
	n := 0
	for _, part := range strings.Split(w, "\n\n") {
		l := strings.Split(strings.TrimSpace(part), "\n")
		if !strings.Contains(l[0], "ead at 0x") && !strings.Contains(l[0], "rite at 0x") && !strings.Contains(l[0], "revious") {
			continue
		}
		n++
		inMap := false
		ok := false
		for i := 1; i+1 < len(l); i += 2 {
			fn, at := strings.TrimSpace(l[i]), strings.TrimSpace(l[i+1])
			if strings.HasPrefix(fn, "runtime.") {
				if !strings.HasPrefix(fn, "runtime.map") {
					return false
				}
				inMap = true
				continue
			}
			at, _, _ = strings.Cut(at, " ")
			_, rel, found := strings.Cut(at, "/internal/")
			if !found || strings.Contains(at, "/zzverif/") || !strings.Contains(fn, "gernest/requiemdb/") {
				return false
			}
			ok = !inMap || sched.MapLines[rel]
			break
		}
		if !ok {
			return false
		}
	}
	return n == 2
}

type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errs *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 64<<10 {
		t.b = t.b[len(t.b)-32<<10:]
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

func start(dir string, o Options) (*worker, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	if o.Race {
		self += ".race"
	}
	w := &worker{cmd: exec.Command(self, "worker"), errs: &tail{}}
	w.cmd.Env = append(os.Environ(), "VERIF_WORKDIR="+dir, "GORACE=exitcode=0 log_path="+dir+"/race", "VERIF_SKIP="+strings.Join(o.Skip, ","), "GOMAXPROCS=3", "GOTRACEBACK=all")
	w.cmd.Stderr = w.errs
	w.in, err = w.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	so, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(so, 1<<20)
	return w, w.cmd.Start()
}

func (w *worker) stop() {
	if w == nil {
		return
	}
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// do runs one execution. died is set when the process ended.
func (w *worker) do(q request) (a answer, died bool) {
	b, _ := json.Marshal(q)
	if _, err := w.in.Write(append(b, '\n')); err != nil {
		died = true
	}
	t := time.AfterFunc(5*time.Minute, func() { w.cmd.Process.Kill() })
	line, err := w.out.ReadBytes('\n')
	t.Stop()
	if err != nil || json.Unmarshal(line, &a) != nil {
		werr := w.cmd.Wait()
		a = answer{Err: fmt.Sprintf("the process ended: %v\n%s", werr, clip(w.errs.String()))}
		if killed(werr) {
			a.Err = ""
		}
		return a, true
	}
	return a, a.Dirty
}

func killed(err error) bool { return err != nil && strings.Contains(err.Error(), "signal: killed") }

func clip(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// Bound of an exploration. A schedule is within it when it has no more than
// Stmt preemptions at statements, Stmt+Sync preemptions altogether, and Free
// other deviations from the default schedule.
type Bound struct{ Stmt, Sync, Free int }

type Options struct {
	Bounds []Bound
	Max    int      // executions, 0 is no limit
	Tag    string   // what tells this exploration from others of the scenario
	Race   bool     // with the binary that reports data races
	Skip   []string // packages without points at statements; "pools" for pools
}

type job struct {
	plan             []pair
	stmt, sync, free int
}

func (o Options) within(j job) bool {
	for _, b := range o.Bounds {
		if j.stmt <= b.Stmt && j.stmt+j.sync <= b.Stmt+b.Sync && j.free <= b.Free {
			return true
		}
	}
	return false
}

// Explore enumerates the schedules of s and reports failures to r.
func Explore(r *lib.Run, s Scenario, b Options, procs int, dir string) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := [][]job{{{}}} // by number of deviations
	running := 0
	var execs, died, diverged atomic.Int64
	var fails int
	decs := 0
	stop := false
	take := func() (j job, ok bool) {
		mu.Lock()
		defer mu.Unlock()
		for {
			if r.Failures() > 5 {
				stop = true
				r.Truncated()
			}
			if stop || r.Expired() || b.Max > 0 && int(execs.Load()) >= b.Max {
				if !stop && (running > 0 || func() bool {
					for _, q := range queue {
						if len(q) > 0 {
							return true
						}
					}
					return false
				}()) {
					r.Truncated()
				}
				stop = true
				cond.Broadcast()
				return j, false
			}
			for i, q := range queue {
				if len(q) > 0 {
					j = q[0]
					queue[i] = q[1:]
					running++
					return j, true
				}
			}
			if running == 0 {
				cond.Broadcast()
				return j, false
			}
			cond.Wait()
		}
	}
	var wg sync.WaitGroup
	for p := 0; p < procs; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() { w.stop() }()
			for {
				j, ok := take()
				if !ok {
					return
				}
				var a answer
				if w == nil {
					var err error
					if w, err = start(dir, b); err != nil {
						w = nil
						a.Err = ""
					}
				}
				if w != nil {
					var dead bool
					a, dead = w.do(request{s.Name, j.plan, false})
					if dead {
						w.stop()
						w = nil
						died.Add(1)
					}
				}
				execs.Add(1)
				if a.Div {
					diverged.Add(1)
				}
				r.State(s.Name + b.Tag + fmt.Sprint(j.plan))
				r.Trace()
				r.Transitions(int(a.Steps))
				if a.Err != "" {
					mu.Lock()
					fails++
					many := fails > 3
					if many {
						stop = true
					}
					mu.Unlock()
					if !many {
						report(r, s, b, j.plan, dir, a.Err)
					}
				}
				mu.Lock()
				decs = max(decs, len(a.N))
				if a.Err == "" {
					last := -1
					if n := len(j.plan); n > 0 {
						last = j.plan[n-1][0]
					}
					for i := last + 1; i < len(a.N); i++ {
						n := j
						switch a.K[i] {
						case 'f':
							n.free++
						case 's':
							n.stmt++
						default:
							n.sync++
						}
						if !b.within(n) {
							continue
						}
						for c := 1; c < a.N[i]; c++ {
							m := n
							m.plan = append(append([]pair{}, j.plan...), pair{i, c})
							for len(queue) <= len(m.plan) {
								queue = append(queue, nil)
							}
							queue[len(m.plan)] = append(queue[len(m.plan)], m)
						}
					}
				}
				running--
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	tag := ""
	if b.Tag != "" {
		tag = " (" + b.Tag + ")"
	}
	r.Count("schedules of "+s.Name+tag, int(execs.Load()))
	r.Count("decisions in the longest schedule of "+s.Name+tag, decs)
	if n := died.Load(); n > 0 {
		r.Count("workers restarted", int(n))
	}
	if n := diverged.Load(); n > 0 {
		r.Count("schedules that took another course when they were repeated", int(n))
	}
}

// HasRace reports whether the binary that reports data races was built.
func HasRace() bool {
	self, err := os.Executable()
	if err != nil {
		return false
	}
	_, err = os.Stat(self + ".race")
	return err == nil
}

func report(r *lib.Run, s Scenario, b Options, plan []pair, dir, first string) {
	sort.Slice(plan, func(i, j int) bool { return plan[i][0] < plan[j][0] })
	var d bytes.Buffer
	fmt.Fprintf(&d, "scenario %s, deviations from the default schedule (decision:choice) %v", s.Name, plan)
	detail := map[string]any{"scenario": s.Name, "plan": plan, "tag": b.Tag, "skip": b.Skip}
	r.Case(strings.TrimSpace(fmt.Sprintf("%s %s %v", s.Name, b.Tag, plan)), detail, func() error {
		w, err := start(dir, b)
		if err != nil {
			return nil
		}
		defer w.stop()
		a, _ := w.do(request{s.Name, plan, true})
		if a.Err == "" {
			return nil
		}
		var where []string
		for _, p := range plan {
			if p[0] < len(a.Labels) {
				where = append(where, fmt.Sprintf("at decision %d to possibility %d: %s", p[0], p[1], a.Labels[p[0]]))
			}
		}
		detail["switches"] = where
		return fmt.Errorf("%s: %s\nswitches: %s", d.String(), a.Err, strings.Join(where, "; "))
	})
}

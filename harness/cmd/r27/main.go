// R27: the real server process answers clients with what they sent.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/proc"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
)

var signals = []string{"metrics", "logs", "traces"}

// A step is an export or something that happens to the server.
type step struct {
	kind byte // E export, R interrupt and start, K kill and start, T wait for the flush of the server,
	// D interrupt and start with the other data directory
	signal int
	comp   int
	big    bool
}

func (s step) String() string {
	if s.kind != 'E' {
		return string(s.kind)
	}
	b := ""
	if s.big {
		b = "big "
	}
	return fmt.Sprintf("%s%s %s", b, signals[s.signal], proc.Names[s.comp])
}

// all messages match it, a scan gives whole messages
var mine = []*v1.Scan_Filter{
	tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "service.name", "a"),
}

// ours drops the telemetry that the server sends to itself.
func ours(rs []*tel.Record) (out []*tel.Record) {
	for _, r := range rs {
		for _, a := range r.Res.GetAttributes() {
			if v := a.GetValue().GetStringValue(); a.GetKey() == "service.name" && (v == "a" || v == "b") {
				out = append(out, r)
			}
		}
	}
	return
}

func count(rs []*tel.Record) map[string]int {
	m := map[string]int{}
	for _, r := range rs {
		res, sc := "", ""
		for _, a := range r.Res.GetAttributes() {
			res += a.String() + ";"
		}
		sc = r.Sc.String()
		m[strings.Join([]string{string(r.Kind), r.ResSchema, res, r.ScSchema, sc, r.Metric, r.Enc}, "|")]++
	}
	return m
}

// between tells what is wrong unless must ⊆ got ⊆ may.
func between(must, got, may []*tel.Record) error {
	a, b, c := count(must), count(got), count(may)
	for k, n := range a {
		if b[k] < n {
			return fmt.Errorf("%d times instead of %d: %.300q", b[k], n, k)
		}
	}
	for k, n := range b {
		if c[k] < n {
			return fmt.Errorf("%d times instead of %d: %.300q", n, c[k], k)
		}
	}
	return nil
}

var sources = map[string]string{
	"metrics": `import { Metrics, println } from "@requiemdb/rq";
const d = (new Metrics()).resourceAttr("service.name", "a").latest().query();
Metrics.render(d, {resource: true, scope: true, metrics: true});
Metrics.renderJSON(d, {pretty: true});
println(JSON.stringify(d));
`,
	"logs": `import { Logs, println } from "@requiemdb/rq";
println(JSON.stringify((new Logs()).resourceAttr("service.name", "a").latest().query()));
`,
	"traces": `import { Trace, println } from "@requiemdb/rq";
println(JSON.stringify((new Trace()).resourceAttr("service.name", "a").latest().query()));
`,
}

var compiled = sync.OnceValues(func() (map[string]*goja.Program, error) {
	m := map[string]*goja.Program{}
	for k, src := range sources {
		b, err := compile.Compile([]byte(src))
		if err != nil {
			return nil, err
		}
		if m[k], err = goja.Compile("scan.js", string(b), true); err != nil {
			return nil, err
		}
	}
	return m, nil
})

// script runs a script with the command and compares its output with what the
// same script does with the answers of the API.
func script(s *proc.Server, sig string) (string, error) {
	f := filepath.Join(s.Home, sig+".ts")
	if err := os.WriteFile(f, []byte(sources[sig]), 0o644); err != nil {
		return "", err
	}
	progs, err := compiled()
	if err != nil {
		return "", err
	}
	cmd := exec.Command(proc.Binary, "query", "--remoteAddress", s.Addr, f)
	cmd.Env = proc.Environ(s.Home)
	if s.Conf.Env {
		cmd = exec.Command(proc.Binary, "query", f)
		cmd.Env = proc.Environ(s.Home, "RQ_REMOTE_ADDRESS="+s.Addr)
	}
	cmd.Dir = s.Home
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out, bad bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &bad
	if err := cmd.Run(); err != nil {
		return "", fmt.Errorf("rq query: %v; %s", err, proc.Tail(bad.String()+out.String()))
	}
	var want bytes.Buffer
	vm := js.New().WithNow(time.Now).WithOutput(&want).WithScan(func(q *v1.Scan) (*v1.Data, error) { return s.Scan(q, 0) })
	if err := vm.Run(progs[sig]); err != nil {
		return "", fmt.Errorf("script: %v", err)
	}
	// the layout of the JSON form of messages differs from one binary to the next
	if a, b := dense(out.String()), dense(want.String()); a != b {
		i := 0
		for i < len(a) && i < len(b) && a[i] == b[i] {
			i++
		}
		i = max(0, i-100)
		return "", fmt.Errorf("rq query printed ...%.300q instead of ...%.300q", a[i:], b[i:])
	}
	return out.String(), nil
}

func dense(s string) string { return strings.Join(strings.Fields(s), "") }

func data(signal, n int, big bool, at time.Time) *v1.Data {
	var d *v1.Data
	switch signal {
	case 0:
		d = tel.RichMetrics(n, at)
		if big {
			m := d.GetMetrics().ResourceMetrics[0].ScopeMetrics[0].Metrics[0].GetGauge()
			for i := 0; i < 3000; i++ {
				m.DataPoints = append(m.DataPoints, tel.Num(uint64(at.UnixNano()), float64(i), "i", fmt.Sprint(i)))
			}
		}
	case 1:
		d = tel.RichLogs(n, at)
		if big {
			d.GetLogs().ResourceLogs[0].ScopeLogs[0].LogRecords[0].Body = tel.Str(strings.Repeat("0123456789", 20000))
		}
	default:
		d = tel.RichTraces(n, at)
		if big {
			d.GetTraces().ResourceSpans[0].ScopeSpans[0].Spans[0].TraceState = strings.Repeat("ab", 70000)
		}
	}
	return d
}

// history runs the steps, and compares what every path finds after each.
func history(r *lib.Run, base string, conf proc.Config, steps []step) (err error) {
	dir, err := os.MkdirTemp(base, "s")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	s := &proc.Server{Dir: filepath.Join(dir, "data"), Home: filepath.Join(dir, "home"), Conf: conf}
	os.MkdirAll(s.Home, 0o755)
	begin := time.Now()
	if err := s.Start(); err != nil {
		return err
	}
	defer func() {
		if s.Cmd != nil {
			s.Stop(syscall.SIGKILL)
		}
	}()
	var must, may, recent, otherMust, otherMay []*tel.Record
	other := filepath.Join(dir, "other")
	// the points are a little in the past, a few seconds apart
	at := time.Now().Add(-3 * time.Minute).Truncate(time.Second)
	check := func(i int, scripts bool) error {
		for sig, scope := range tel.Scopes {
			of := func(rs []*tel.Record) (out []*tel.Record) {
				for _, x := range rs {
					if x.Kind == "mlt"[sig] {
						out = append(out, x)
					}
				}
				return
			}
			for comp := range proc.Names {
				for _, fs := range [][]*v1.Scan_Filter{nil, mine} {
					d, err := s.Scan(tel.Range(scope, at.Add(-time.Minute), time.Now().Add(time.Minute), fs...), comp)
					if err != nil {
						return fmt.Errorf("after step %d: scan of %s, %s: %w", i, signals[sig], proc.Names[comp], err)
					}
					r.Transitions(1)
					if err := between(of(must), ours(tel.Records(d)), append(of(may), of(recent)...)); err != nil {
						return fmt.Errorf("after step %d: scan of %s, %s, filters %v: %w", i, signals[sig], proc.Names[comp], fs, err)
					}
				}
			}
			if scripts {
				out, err := script(s, signals[sig])
				if err != nil {
					return fmt.Errorf("after step %d: script for %s: %w", i, signals[sig], err)
				}
				r.Transitions(1)
				if len(of(must)) > 0 && !strings.Contains(out, "service.name") {
					return fmt.Errorf("after step %d: script for %s found nothing: %.200q", i, signals[sig], out)
				}
			}
		}
		return nil
	}
	for i, st := range steps {
		switch st.kind {
		case 'E':
			d := data(st.signal, i+1, st.big, at.Add(time.Duration(i)*time.Second))
			if err := s.Export(d, st.comp); err != nil {
				return fmt.Errorf("step %d: export: %w; %s", i, err, proc.Tail(s.Log.String()))
			}
			recent = append(recent, tel.Records(d)...)
			if err := check(i, false); err != nil {
				return err
			}
		case 'T':
			// it flushes every minute
			time.Sleep(time.Until(begin.Add(75 * time.Second)))
			begin = time.Now()
			must, may, recent = append(must, recent...), append(may, recent...), nil
			if err := check(i, true); err != nil {
				return err
			}
		case 'R', 'K', 'D':
			sig := os.Interrupt.(syscall.Signal)
			if st.kind == 'K' {
				sig = syscall.SIGKILL
			} else {
				must = append(must, recent...)
			}
			may, recent = append(may, recent...), nil
			if err := s.Stop(sig); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if st.kind == 'D' {
				s.Dir, other = other, s.Dir
				must, otherMust = otherMust, must
				may, otherMay = otherMay, may
			}
			if err := s.Start(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			begin = time.Now()
			if err := check(i, true); err != nil {
				return err
			}
		}
		var at []string
		for _, x := range steps[:i+1] {
			at = append(at, x.String())
		}
		r.State(fmt.Sprint(conf, at))
	}
	return s.Stop(os.Interrupt.(syscall.Signal))
}

func main() {
	lib.Main("R27", "histories", func(r *lib.Run) {
		r.Rule("the real program as a server process on loopback, with its own self telemetry: every history of two exports (3 signals x 3 compressions each) with nothing or an interrupt and start between them and an interrupt and start at the end; all kills of the process (thorough: at all those places); messages larger than the buffers; both ways to give the address and the data directory, and two data directories of one home; the flush timer of the server awaited in real time; after each step the API with each compression, without and with a filter, and after restarts the query command with a script per signal")
		r.Assume("Scheduling inside the server process is the machine's; R06, R07 and R08 explore it.", "A kill loses nothing that the operating system has.")
		proc.Need()
		base := r.FastScratch("srv")
		if z, err := lib.ZoneFile(base); err == nil {
			proc.Zone = z
		}
		run := func(conf proc.Config, steps ...step) {
			if r.Expired() {
				r.Truncated()
				return
			}
			r.Case(fmt.Sprintf("%+v %v", conf, steps), nil, func() error { return history(r, base, conf, steps) })
			r.Trace()
		}
		var exports []step
		for s := range signals {
			for c := range proc.Names {
				exports = append(exports, step{kind: 'E', signal: s, comp: c})
			}
		}
		R, K, T, D := step{kind: 'R'}, step{kind: 'K'}, step{kind: 'T'}, step{kind: 'D'}
		type job struct {
			conf  proc.Config
			steps []step
		}
		var slow, kills, jobs []job
		for i, e := range exports {
			f := exports[(i+4)%len(exports)]
			slow = append(slow, job{proc.Config{}, []step{e, T, f, K, R}})
			for _, c := range []proc.Config{{Env: true}, {Home: true}, {Env: true, Home: true}} {
				jobs = append(jobs, job{c, []step{e, R}})
			}
			jobs = append(jobs, job{proc.Config{}, []step{e, D, f, D, D}})
			e.big = true
			jobs = append(jobs, job{proc.Config{}, []step{e, R, f, R}})
			for _, f := range exports {
				jobs = append(jobs, job{proc.Config{}, []step{exports[i], f, R}}, job{proc.Config{}, []step{exports[i], R, f, R}})
				if !r.Quick() {
					slow = append(slow, job{proc.Config{}, []step{exports[i], T, K, f, T}})
					kills = append(kills, job{proc.Config{}, []step{exports[i], R, f, K, R}}, job{proc.Config{}, []step{exports[i], K, f, R}})
				}
			}
			if r.Quick() && i%4 == 0 {
				kills = append(kills, job{proc.Config{}, []step{exports[i], R, f, K, R}}, job{proc.Config{}, []step{exports[i], K, f, R}})
			}
		}
		sort.SliceStable(jobs, func(i, j int) bool { return len(jobs[i].steps) < len(jobs[j].steps) })
		var wg sync.WaitGroup
		wg.Add(2)
		go func() {
			defer wg.Done()
			r.Parallel(len(slow), 27, func(i int) { run(slow[i].conf, slow[i].steps...) })
		}()
		go func() {
			defer wg.Done()
			r.Parallel(len(kills), 2, func(i int) { run(kills[i].conf, kills[i].steps...) })
		}()
		r.Parallel(len(jobs), 8, func(i int) { run(jobs[i].conf, jobs[i].steps...) })
		wg.Wait()
		proc.KillAll()
		r.Count("histories", len(jobs)+len(slow)+len(kills))
	})
}

// Package lib is the driver shared by every check: bounded exhaustive
// enumeration, confirmation of failures, known findings and evidence.
package lib

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type failure struct {
	key    string
	detail any
	err    string
}

// Run is one execution of one check.
type Run struct {
	progress *os.File
	ID       string
	Tier     string
	Seed     int
	Verif    string // /verif
	Start    time.Time

	deadline time.Time
	level    string
	mu       sync.Mutex
	counts   map[string]int64
	states   map[string]struct{}
	samples  []any
	assume   []string
	notes    map[string]any
	failures []failure
	unconf   []string
	known    map[string]string
	knownHit map[string]string
	truncd   atomic.Bool
	stop     atomic.Bool
	rule     string
	scratch  string
	fast     []string
}

// Zone is where checks run: the hour, the minute and mostly the day differ from
// those of UTC. Nothing the database does depends on it.
var Zone = time.FixedZone("verif", zoneOffset)

const zoneOffset = (13*60 + 45) * 60

func init() { time.Local = Zone }

// ZoneFile writes a description of Zone for processes that run with TZ set to
// the value it gives.
func ZoneFile(dir string) (string, error) {
	b := append([]byte("TZif"), make([]byte, 16)...)
	for _, n := range []uint32{0, 0, 0, 0, 1, 6} { // 1 type, 6 bytes of names
		b = binary.BigEndian.AppendUint32(b, n)
	}
	b = binary.BigEndian.AppendUint32(b, zoneOffset)
	b = append(b, 0, 0)
	b = append(b, "verif\x00"...)
	f := filepath.Join(dir, "zone")
	return ":" + f, os.WriteFile(f, b, 0o644)
}

// Main runs body as the check for property id. level is the evidence level.
func Main(id, level string, body func(r *Run)) {
	slog.SetDefault(slog.New(slog.NewTextHandler(logOut(), nil)))
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30)
	r := &Run{ID: id, level: level, Tier: "quick", Seed: 1, Start: time.Now(),
		counts: map[string]int64{}, states: map[string]struct{}{}, notes: map[string]any{},
		known: map[string]string{}, knownHit: map[string]string{}}
	r.Verif = os.Getenv("VERIF_ROOT")
	if r.Verif == "" {
		r.Verif = "/verif"
	}
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		r.Tier = t
	}
	for _, a := range os.Args[1:] {
		if a == "quick" || a == "thorough" {
			r.Tier = a
		}
	}
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		r.Seed = s
	}
	budget := 240 * time.Second
	if r.Tier == "thorough" {
		budget = 780 * time.Second
	}
	if b, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil {
		budget = time.Duration(b) * time.Second
	}
	r.deadline = r.Start.Add(budget)
	r.loadKnown()
	dir, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "scratch:", err)
		os.Exit(0)
	}
	r.scratch = dir
	// Code that asks for memory without end ends like code that panics, before
	// the machine has none left. The check itself stays below half of that.
	go watchMemory()
	// The hard stop: a check always answers.
	go func() {
		time.Sleep(budget + 30*time.Second)
		fmt.Fprintln(os.Stderr, "hard deadline reached; reporting what was explored")
		r.truncd.Store(true)
		r.finish()
	}()
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.addFailure(failure{key: "driver-panic", err: fmt.Sprintf("panic: %v\n%s", e, debug.Stack())})
			}
		}()
		body(r)
	}()
	r.finish()
}

func (r *Run) Quick() bool { return r.Tier == "quick" }

// Pick returns q at the quick tier and t at the thorough one.
func Pick[T any](r *Run, q, t T) T {
	if r.Quick() {
		return q
	}
	return t
}

// Scratch is a directory of this run, removed at its end.
func (r *Run) Scratch(name string) string {
	d, err := os.MkdirTemp(r.scratch, name+"-")
	if err != nil {
		panic(err)
	}
	return d
}

// FastScratch is a directory of this run in memory if that is possible.
func (r *Run) FastScratch(name string) string {
	d, err := os.MkdirTemp("/dev/shm", "verif-"+r.ID+"-"+name+"-")
	if err != nil {
		return r.Scratch(name)
	}
	r.mu.Lock()
	r.fast = append(r.fast, d)
	r.mu.Unlock()
	return d
}

func (r *Run) loadKnown() {
	f, err := os.Open(filepath.Join(r.Verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		rest, ok := strings.CutPrefix(l, "known: property="+r.ID+" ")
		if !ok {
			continue
		}
		key, desc, _ := strings.Cut(rest, " ")
		r.known[key] = desc
	}
}

// Expired tells that the time of this run is used up; enumeration stops and
// the evidence says that it was not complete.
func (r *Run) Expired() bool {
	if r.stop.Load() {
		return true
	}
	if time.Now().After(r.deadline) {
		r.truncd.Store(true)
		return true
	}
	return false
}

func (r *Run) Remaining() time.Duration { return time.Until(r.deadline) }

func (r *Run) Truncated() { r.truncd.Store(true) }

func (r *Run) Count(name string, n int) {
	r.mu.Lock()
	r.counts[name] += int64(n)
	r.mu.Unlock()
}

// State records a distinct abstract state.
func (r *Run) State(s string) {
	r.mu.Lock()
	r.states[s] = struct{}{}
	r.mu.Unlock()
}

func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
	r.mu.Unlock()
}

func (r *Run) Assume(s ...string)   { r.assume = append(r.assume, s...) }
func (r *Run) Rule(s string)        { r.rule = s }
func (r *Run) Note(k string, v any) { r.mu.Lock(); r.notes[k] = v; r.mu.Unlock() }
func (r *Run) Transitions(n int)    { r.Count("transitions", n) }
func (r *Run) Trace()               { r.Count("traces", 1) }
func (r *Run) Evals(n int)          { r.Count("evaluations", n) }
func (r *Run) Nontrivial(s string)  { r.State(s) }
func (r *Run) Failed() bool         { r.mu.Lock(); defer r.mu.Unlock(); return len(r.failures) > 0 }

// Failures is the number of violations so far.
func (r *Run) Failures() int { r.mu.Lock(); defer r.mu.Unlock(); return len(r.failures) }

func (r *Run) addFailure(f failure) {
	r.mu.Lock()
	if len(r.failures) < 50 {
		r.failures = append(r.failures, f)
	}
	n := len(r.failures)
	r.mu.Unlock()
	if n >= 5 {
		r.stop.Store(true)
	}
}

// only selects cases while a check is developed.
var only = os.Getenv("VERIF_ONLY")

// Progress keeps a log of the cases that were begun and ended, for checks of
// code that may end the process.
func (r *Run) Progress() {
	r.progress, _ = os.OpenFile(filepath.Join(os.TempDir(), "progress.log"), os.O_CREATE|os.O_TRUNC|os.O_APPEND|os.O_WRONLY, 0o644)
}

func (r *Run) Begin(key string) {
	if r.progress != nil {
		fmt.Fprintf(r.progress, "+%s\n", key)
	}
}

func (r *Run) End(key string) {
	if r.progress != nil {
		fmt.Fprintf(r.progress, "-%s\n", key)
	}
}

// Guard runs f and turns a panic into an error.
func Guard(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if ex, ok := e.(Expected); ok {
				err = ex
				return
			}
			err = fmt.Errorf("panic: %v\n%s", e, trimStack(debug.Stack()))
		}
	}()
	return f()
}

type Expected struct{ error }

func trimStack(b []byte) string {
	s := string(b)
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// Case evaluates one enumerated case. f must be repeatable: a failure counts
// only when it shows again on re-execution.
func (r *Run) Case(key string, detail any, f func() error) bool {
	if only != "" && !strings.Contains(key, only) {
		return true
	}
	r.Begin(key)
	defer r.End(key)
	err := Guard(f)
	if err == nil {
		return true
	}
	again := 0
	var last error
	for i := 0; i < 4 && again == 0; i++ {
		if e := Guard(f); e != nil {
			again++
			last = e
		}
	}
	if again == 0 {
		r.mu.Lock()
		if len(r.unconf) < 20 {
			r.unconf = append(r.unconf, key+": "+err.Error())
		}
		r.mu.Unlock()
		return true
	}
	if desc, ok := r.known[key]; ok {
		r.mu.Lock()
		r.knownHit[key] = desc
		r.mu.Unlock()
		return false
	}
	r.addFailure(failure{key: key, detail: detail, err: last.Error()})
	return false
}

// Fail reports a violation that the caller confirmed itself.
func (r *Run) Fail(key string, detail any, err error) {
	if desc, ok := r.known[key]; ok {
		r.mu.Lock()
		r.knownHit[key] = desc
		r.mu.Unlock()
		return
	}
	r.addFailure(failure{key: key, detail: detail, err: err.Error()})
}

// Parallel calls f(i) for every i in [0,n) on w goroutines, until the time is
// used up or enough failures are in.
func (r *Run) Parallel(n, w int, f func(i int)) {
	if w <= 0 {
		w = runtime.NumCPU()
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n {
					return
				}
				if r.Expired() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

const maxMemory = 22 << 30

func watchMemory() {
	for range time.Tick(100 * time.Millisecond) {
		b, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			return
		}
		var size, rss int64
		fmt.Sscan(string(b), &size, &rss)
		if rss*int64(os.Getpagesize()) < maxMemory {
			continue
		}
		buf := make([]byte, 64<<10)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Fprintf(os.Stderr, "the code under test took %d GB of memory\n%s\n", rss*int64(os.Getpagesize())>>30, buf)
		os.Exit(3)
	}
}

var finishing sync.Mutex

func (r *Run) finish() {
	finishing.Lock() // the first one wins and exits
	wall := time.Since(r.Start).Seconds()
	r.mu.Lock()
	cov := map[string]any{}
	for k, v := range r.notes {
		cov[k] = v
	}
	cov["exhaustive"] = !r.truncd.Load() && !r.stop.Load()
	samples := r.samples
	if samples == nil {
		samples = []any{}
	}
	cov["samples"] = samples
	if r.rule != "" {
		cov["rule"] = r.rule
	}
	for k, v := range r.counts {
		switch k {
		case "traces":
			cov["traces_validated_against_impl"] = v
		default:
			cov[k] = v
		}
	}
	switch r.level {
	case "model_checking":
		cov["states"] = len(r.states)
		for _, k := range []string{"transitions", "traces_validated_against_impl"} {
			if _, ok := cov[k]; !ok {
				cov[k] = 0
			}
		}
	default:
		cov["distinct_nontrivial"] = len(r.states)
		if _, ok := cov["evaluations"]; !ok {
			cov["evaluations"] = 0
		}
	}
	if len(r.unconf) > 0 {
		cov["not_reproduced"] = r.unconf
	}
	var hits []string
	for k := range r.knownHit {
		hits = append(hits, k)
	}
	sort.Strings(hits)
	if len(hits) > 0 {
		cov["known_findings"] = hits
	}
	ev := map[string]any{
		"property": r.ID, "tier": r.Tier, "seed": r.Seed, "level": r.level,
		"coverage": cov, "wall_s": wall, "violations": len(r.failures),
	}
	if r.assume != nil {
		ev["assumptions"] = r.assume
	}
	dir := filepath.Join(r.Verif, "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	b, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
	os.WriteFile(filepath.Join(dir, r.ID+".json"), append(b, '\n'), 0o644)
	for _, k := range hits {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", r.ID, k, r.knownHit[k])
	}
	code := 0
	for i, f := range r.failures {
		p := filepath.Join(dir, "replay", fmt.Sprintf("%s-%d.json", r.ID, i))
		b, e := json.MarshalIndent(map[string]any{"property": r.ID, "case": f.key, "detail": f.detail, "error": f.err, "tier": r.Tier}, "", "  ")
		if e != nil {
			b, _ = json.MarshalIndent(map[string]any{"property": r.ID, "case": f.key, "detail": fmt.Sprintf("%+v", f.detail), "error": f.err, "tier": r.Tier}, "", "  ")
		}
		os.WriteFile(p, append(b, '\n'), 0o644)
		msg := f.err
		if len(msg) > 1500 {
			msg = msg[:1500] + "..."
		}
		fmt.Printf("case %s: %s\n", f.key, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, p)
		code = 1
	}
	fmt.Printf("%s %s: states=%d %v wall=%.1fs exhaustive=%v violations=%d\n", r.ID, r.Tier, len(r.states), r.counts, wall, cov["exhaustive"], len(r.failures))
	r.mu.Unlock()
	for _, d := range r.fast {
		os.RemoveAll(d)
	}
	if r.scratch != "" && strings.HasPrefix(filepath.Base(r.scratch), "verif-") {
		os.RemoveAll(r.scratch)
	}
	os.Exit(code)
}

// logOut is where the log of the code under test goes.
func logOut() io.Writer {
	if os.Getenv("VERIF_LOG") != "" {
		return os.Stderr
	}
	return io.Discard
}

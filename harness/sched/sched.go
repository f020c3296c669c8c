// Package sched runs the goroutines of instrumented code one at a time and
// decides at every scheduling point which one continues. It is compiled
// without race instrumentation and hands over with futexes, so that the race
// detector sees the synchronisation of the code under test only.
package sched

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Names of the scheduling points of instrumented statements.
var Names []string

// MapLines are the lines of instrumented files that use a map.
var MapLines map[string]bool

const maxThreads = 64

const (
	runnable int32 = iota
	blocked
	external // blocked in code that is not instrumented
	done
)

type thread struct {
	id    int
	name  string
	gid   uint64
	state atomic.Int32
	wake  uint32
	ready func() bool
	what  string // what it is blocked on
	at    string
	late  int // when it was preempted
	join  sync.WaitGroup
}

// Decision is a scheduling decision with more than one possibility.
type Decision struct {
	N       int // possibilities
	Chosen  int
	Preempt bool // every possibility but 0 is a preemption
	Stmt    bool // at an instrumented statement, not at a synchronisation
}

var (
	active    atomic.Bool
	dirty     atomic.Bool // an execution was abandoned
	threads   [maxThreads]*thread
	nthreads  int
	cur       atomic.Pointer[thread]
	plan      map[int]int
	decisions []Decision
	labels    []string
	keepAt    bool
	steps     atomic.Int64
	finished  uint32
	verdict   string
	diverged  bool
	maxSteps  int64
	resets    []func()
	hook      func(label string)
	handoff   sync.Mutex // only for threads that come back from external
)

// OnReset registers f to be called before every execution.
func OnReset(f func()) { resets = append(resets, f) }

// goid is the number of the running goroutine in stack traces.
func goid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	var id uint64
	for _, c := range b[10:n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

func futexWait(p *uint32) {
	for atomic.LoadUint32(p) == 0 {
		syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(p)), 128, 0, 0, 0, 0)
	}
	atomic.StoreUint32(p, 0)
}

func futexWake(p *uint32) {
	atomic.StoreUint32(p, 1)
	syscall.Syscall6(syscall.SYS_FUTEX, uintptr(unsafe.Pointer(p)), 129, 1, 0, 0, 0)
}

// me returns the controlled thread of the calling goroutine.
func me() *thread {
	if !active.Load() {
		return nil
	}
	g := goid()
	if c := cur.Load(); c != nil && c.gid == g {
		return c
	}
	for i := 0; i < nthreads; i++ {
		if t := threads[i]; t.gid == g && t.state.Load() == external {
			comeBack(t)
			return t
		}
	}
	return nil
}

// comeBack waits until a thread that was left blocked in code that is not
// instrumented is scheduled again.
func comeBack(t *thread) {
	handoff.Lock()
	t.state.Store(runnable)
	idle := cur.Load() == nil
	if idle {
		cur.Store(t)
	}
	handoff.Unlock()
	if !idle {
		futexWait(&t.wake)
	}
}

// Controlled reports whether the calling goroutine is scheduled by this package.
func Controlled() bool { return me() != nil }

var skip []bool
var skipPools bool

// PoolPoint is the scheduling point of an operation of a pool.
func PoolPoint(label string) {
	if !skipPools {
		Point(label)
	}
}

// Skip switches the statement points of packages off, and with "pools" the
// points of pools.
func Skip(pkgs []string) {
	skip = make([]bool, len(Names))
	for i, n := range Names {
		for _, p := range pkgs {
			if p == "pools" {
				skipPools = true
			}
			skip[i] = skip[i] || strings.HasPrefix(n, p+"/")
		}
	}
}

// SetHook makes every point of a controlled goroutine call f.
func SetHook(f func(label string)) { hook = f }

// P is the scheduling point before an instrumented statement.
func P(n int) {
	if !active.Load() {
		return
	}
	name := ""
	if n < len(Names) {
		name = Names[n]
	}
	if skip != nil && n < len(skip) && skip[n] {
		return
	}
	if t := me(); t != nil {
		at(t, name, true)
	}
}

// Point is a scheduling point.
func Point(label string) {
	t := me()
	if t == nil {
		return
	}
	at(t, label, false)
}

func at(t *thread, label string, stmt bool) {
	t.at = label
	if hook != nil {
		hook(label)
	}
	step(t, stmt)
}

func step(t *thread, stmt bool) {
	if n := steps.Add(1); maxSteps > 0 && n > maxSteps {
		abandon("the execution does not end: more than %d steps", maxSteps)
	}
	var en [maxThreads]*thread
	n := 1
	en[0] = t
	for i := 0; i < nthreads; i++ {
		if o := threads[i]; o != t && enabled(o) {
			en[n] = o
			n++
		}
	}
	if n == 1 {
		return
	}
	if c := decide(n, true, stmt); c > 0 {
		t.late = len(decisions)
		t.state.Store(runnable)
		switchTo(t, en[c])
	}
}

func enabled(o *thread) bool {
	switch o.state.Load() {
	case runnable:
		return true
	case blocked:
		return o.ready()
	}
	return false
}

func decide(n int, preempt, stmt bool) int {
	i := len(decisions)
	c := plan[i]
	if c >= n {
		diverged = true
		c = 0
	}
	decisions = append(decisions, Decision{n, c, preempt, stmt})
	if keepAt {
		labels = append(labels, describe())
	}
	return c
}

// Choose is a decision of the environment between n possibilities.
func Choose(n int) int {
	if t := me(); t == nil || n < 2 {
		return 0
	}
	return decide(n, false, false)
}

func switchTo(from, to *thread) {
	to.late = 0
	to.state.Store(runnable)
	cur.Store(to)
	futexWake(&to.wake)
	if from != nil {
		futexWait(&from.wake)
	}
}

// Block waits until ready holds.
func Block(what string, ready func() bool) {
	t := me()
	if t == nil {
		for !ready() {
			time.Sleep(50 * time.Microsecond)
		}
		return
	}
	if ready() {
		return
	}
	t.what = what
	t.ready = ready
	t.state.Store(blocked)
	next := pick(t)
	if next == nil {
		deadlock()
	}
	if next == t {
		t.state.Store(runnable)
		return
	}
	switchTo(t, next)
}

// Settle waits until no other thread can continue. Only one thread may use it.
func Settle() {
	t := me()
	Block("quiet", func() bool {
		for i := 0; i < nthreads; i++ {
			if o := threads[i]; o != t && (enabled(o) || o.state.Load() == external) {
				return false
			}
		}
		return true
	})
}

// pick chooses a thread to run when t can not.
func pick(t *thread) *thread {
	for wait := 0; ; wait++ {
		var en [maxThreads]*thread
		n, ext := 0, false
		for i := 0; i < nthreads; i++ {
			o := threads[i]
			if o.state.Load() == external {
				ext = true
			}
			if enabled(o) {
				en[n] = o
				n++
			}
		}
		switch {
		case n == 1:
			return en[0]
		case n > 1:
			// a preempted thread stays suspended for as long as others run
			sort.SliceStable(en[:n], func(i, j int) bool { return en[i].late < en[j].late })
			return en[decide(n, false, false)]
		}
		if !ext || wait > 300 {
			return nil
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func describe() string {
	var b strings.Builder
	c := cur.Load()
	for i := 0; i < nthreads; i++ {
		t := threads[i]
		m := " "
		if t == c {
			m = "*"
		}
		s := [...]string{"", "(blocked: " + t.what + ")", "(outside)", "(done)"}[t.state.Load()]
		fmt.Fprintf(&b, "%s%s@%s%s ", m, t.name, t.at, s)
	}
	return b.String()
}

func deadlock() {
	abandon("deadlock: %s", describe())
}

// abandon ends the execution; the calling goroutine never returns.
func abandon(f string, a ...any) {
	verdict = fmt.Sprintf(f, a...)
	dirty.Store(true)
	active.Store(false)
	futexWake(&finished)
	select {}
}

// Go starts a goroutine under the scheduler.
func Go(f any, args ...any) {
	fn := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			pt := fn.Type().In(min(i, fn.Type().NumIn()-1))
			in[i] = reflect.Zero(pt)
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	call := func() { fn.Call(in) }
	if t := me(); t == nil {
		go call()
		return
	} else {
		Start(fmt.Sprintf("g%d", nthreads), call)
	}
	Point("go")
}

// Start adds a thread to the execution.
func Start(name string, f func()) (join func()) {
	if nthreads == maxThreads {
		abandon("more than %d goroutines", maxThreads)
	}
	t := &thread{id: nthreads, name: name, at: "start"}
	t.join.Add(1)
	up := make(chan struct{})
	go func() {
		t.gid = goid()
		close(up)
		futexWait(&t.wake)
		defer func() {
			if e := recover(); e != nil {
				b := make([]byte, 8<<10)
				b = b[:runtime.Stack(b, false)]
				verdict = fmt.Sprintf("panic in %s: %v\n%s", t.name, e, b)
				dirty.Store(true)
				active.Store(false)
				futexWake(&finished)
				return
			}
		}()
		f()
		t.at = "end"
		exit(t)
	}()
	<-up
	threads[nthreads] = t
	nthreads++
	return func() {
		Block("join "+name, func() bool { return t.state.Load() == done })
		if active.Load() {
			t.join.Wait()
		}
	}
}

func exit(t *thread) {
	if hook != nil {
		hook("end of " + t.name)
	}
	t.join.Done()
	t.state.Store(done)
	if t.id == 0 {
		active.Store(false)
		cur.Store(nil)
		futexWake(&finished)
		return
	}
	next := pick(t)
	if next == nil {
		deadlock()
	}
	switchTo(nil, next)
}

// Result of an execution.
type Result struct {
	Decisions []Decision
	Labels    []string
	Steps     int64
	Verdict   string // deadlock, panic, endless
	Diverged  bool
	Dirty     bool // goroutines of the execution are left behind
}

// Execute runs body as the first thread, with choices taken from p: decision
// number to possibility, 0 where p says nothing.
func Execute(p map[int]int, keepLabels bool, limit int64, body func()) Result {
	for _, f := range resets {
		f()
	}
	nthreads = 0
	plan, decisions, labels, keepAt = p, nil, nil, keepLabels
	steps.Store(0)
	maxSteps = limit
	verdict, diverged = "", false
	atomic.StoreUint32(&finished, 0)
	Start("main", body)
	cur.Store(threads[0])
	active.Store(true)
	stop := make(chan struct{})
	over := make(chan struct{})
	go watch(stop, over)
	futexWake(&threads[0].wake)
	futexWait(&finished)
	close(stop)
	<-over
	if !dirty.Load() {
		threads[0].join.Wait()
	}
	r := Result{decisions, labels, steps.Load(), verdict, diverged, dirty.Load()}
	return r
}

// watch finds a thread that is blocked in code that is not instrumented, on
// something that another thread holds, and lets the others run.
func watch(stop, over chan struct{}) {
	defer close(over)
	last, since := int64(-1), time.Now()
	for {
		select {
		case <-stop:
			return
		case <-time.After(100 * time.Millisecond):
		}
		n := steps.Load()
		if n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) < 3*time.Second || !active.Load() {
			continue
		}
		since = time.Now()
		handoff.Lock()
		c := cur.Load()
		if c != nil && waiting(c.gid) {
			var next *thread
			for i := 0; i < nthreads; i++ {
				if o := threads[i]; o != c && enabled(o) {
					next = o
					break
				}
			}
			if next != nil {
				c.state.Store(external)
				next.state.Store(runnable)
				cur.Store(next)
				futexWake(&next.wake)
			} else if time.Since(started(n)) > 60*time.Second {
				verdict = "deadlock: " + describe() + "\n" + stacks()
				dirty.Store(true)
				active.Store(false)
				handoff.Unlock()
				futexWake(&finished)
				return
			}
		}
		handoff.Unlock()
	}
}

var stuckAt = int64(-1)
var stuckSince time.Time

func started(n int64) time.Time {
	if stuckAt != n {
		stuckAt, stuckSince = n, time.Now()
	}
	return stuckSince
}

func stacks() string {
	b := make([]byte, 256<<10)
	return string(b[:runtime.Stack(b, true)])
}

// waiting reports whether goroutine g waits for another one.
func waiting(g uint64) bool {
	s := stacks()
	i := strings.Index("\n"+s, fmt.Sprintf("\ngoroutine %d [", g))
	if i < 0 {
		return false
	}
	l, _, _ := strings.Cut(s[i:], "\n")
	for _, w := range []string{"semacquire", "sync.", "chan ", "select"} {
		if strings.Contains(l, w) {
			return true
		}
	}
	return false
}

// Keys returns the keys of m in a fixed order, or in the opposite one when the
// execution chose so.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) < 2 {
		return ks
	}
	if v, ok := any(ks).([]uint64); ok {
		sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	} else {
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	}
	if ReverseMaps {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

// ReverseMaps makes instrumented code visit maps in the opposite order.
var ReverseMaps bool

func init() {
	if os.Getenv("VERIF_REVERSE") != "" {
		ReverseMaps = true
	}
}

// MaxLease bounds the ids that are reserved at once, when it is set.
var MaxLease uint64

// Lease is the number of ids to reserve instead of n.
func Lease(n uint64) uint64 {
	if MaxLease > 0 && n > MaxLease {
		return MaxLease
	}
	return n
}

// R07: a query that runs during a flush sees each message once or not yet.
package main

import (
	"context"
	"fmt"
	"os"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/conc"
	"github.com/gernest/requiemdb/internal/zzverif/explore"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/sched"
	"github.com/gernest/requiemdb/internal/zzverif/shim/vtime"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type shape struct {
	name    string
	base    []*v1.Data // stored before
	queued  []*v1.Data // accepted before, flushed by the timer
	exp     []*v1.Data // exported by another thread
	scans   [][]*v1.Scan
	deep    bool     // more preemptions
	late    *v1.Scan // runs while the server shuts down
	restart bool     // the index is not open yet when the threads start
}

// wide is a message with points in two hours.
func wide(n int) *v1.Data {
	at := conc.At
	return tel.One(tel.Res("n", "same"), nil, tel.Gauge(fmt.Sprintf("m%d", n),
		tel.Num(uint64(at.UnixNano())+uint64(n), float64(n)),
		tel.Num(uint64(at.Add(time.Hour).UnixNano())+uint64(n), float64(n)+0.5)))
}

func shapes() []shape {
	m := conc.Msg
	d := func(ds ...*v1.Data) []*v1.Data { return ds }
	hour := conc.Hour
	const M, L, T = v1.Scan_METRICS, v1.Scan_LOGS, v1.Scan_TRACES
	two := tel.Range(M, conc.At.Truncate(time.Hour), conc.At.Truncate(time.Hour).Add(2*time.Hour))
	day := tel.Range(M, conc.At.Truncate(24*time.Hour), conc.At.Truncate(24*time.Hour).Add(24*time.Hour))
	year := tel.Range(M, conc.At.AddDate(-1, 0, 0), conc.At.AddDate(1, 0, 0))
	same := tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "n", "same")
	instant := &v1.Scan{Scope: M, Now: timestamppb.New(conc.At.Add(5 * time.Minute))}
	q := func(s ...*v1.Scan) []*v1.Scan { return s }
	return []shape{
		{name: "scan during a flush", base: d(m('m', 1, true), m('l', 2, true)), queued: d(m('m', 3, true), m('m', 4, false)),
			scans: [][]*v1.Scan{q(hour(M), hour(M))}},
		{name: "filters during a flush", base: d(m('m', 1, true)), queued: d(m('m', 2, true), m('l', 3, true)),
			scans: [][]*v1.Scan{q(hour(M, same), hour(M, conc.Own(m('m', 2, true))), hour(L), hour(M, same))}},
		{name: "message of two hours", base: d(wide(1)), queued: d(wide(2), m('t', 3, true)),
			scans: [][]*v1.Scan{q(two, two, hour(T))}},
		{name: "first messages", queued: d(m('m', 1, true), m('l', 2, true)),
			scans: [][]*v1.Scan{q(hour(M), hour(M, same), hour(M)), q(hour(L), hour(L))}},
		{name: "two scanners", base: d(m('m', 1, true), m('m', 2, false), m('l', 3, true)),
			scans: [][]*v1.Scan{q(hour(M), hour(L)), q(hour(L, same), hour(M, same))}},
		{name: "two scanners after a restart", base: d(m('m', 1, true), m('l', 2, true)), restart: true, deep: true,
			scans: [][]*v1.Scan{q(hour(M)), q(hour(L))}},
		{name: "flush after a restart", base: d(m('m', 1, true)), queued: d(m('m', 2, true)), restart: true, deep: true,
			scans: [][]*v1.Scan{q(hour(M), hour(M))}},
		{name: "short and long ranges", queued: d(m('m', 1, true)),
			scans: [][]*v1.Scan{q(year, day, hour(M), day)}},
		{name: "instant scan during a flush", base: d(m('m', 1, true)), queued: d(m('m', 2, true), m('m', 3, true)),
			scans: [][]*v1.Scan{q(instant, instant)}},
		{name: "scanner, exporter and flush", base: d(m('m', 1, true)), queued: d(m('m', 2, true)), exp: d(m('m', 3, true)),
			scans: [][]*v1.Scan{q(hour(M), hour(M))}},
		{name: "scan while shutting down", base: d(m('m', 1, true)), queued: d(m('m', 2, true)), late: hour(M)},
	}
}

type seen struct {
	q   *v1.Scan
	got *v1.Data
	err error
}

func scenario(s shape) explore.Scenario {
	return explore.Scenario{Name: s.name, Prepare: func(dir string) (func(), func() error) {
		st, err := stack.Open(dir, true)
		if err != nil {
			panic(err)
		}
		var fail error
		conc.Export(st, &fail, s.base...)()
		if len(s.base) > 0 {
			if err := st.Flush(); err != nil {
				panic(err)
			}
		}
		if s.restart {
			if err := st.Restart(); err != nil {
				panic(err)
			}
		}
		conc.Export(st, &fail, s.queued...)()
		all := append(append(append([]*v1.Data{}, s.base...), s.queued...), s.exp...)
		res := make([][]seen, len(s.scans))
		body := func() {
			ctx, cancel := context.WithCancel(context.Background())
			st.Svc.Start(ctx)
			var joins []func()
			for i, qs := range s.scans {
				joins = append(joins, sched.Start(fmt.Sprint("scanner ", i), func() {
					for _, q := range qs {
						got, err := st.Scan(q)
						res[i] = append(res[i], seen{q, got, err})
					}
				}))
			}
			if s.exp != nil {
				joins = append(joins, sched.Start("exporter", conc.Export(st, &fail, s.exp...)))
			}
			if len(s.queued) > 0 {
				sched.Block("the ticker exists", func() bool { return len(vtime.All) > 0 })
				vtime.Fire()
				sched.Block("the tick is taken", vtime.Taken)
			}
			for _, j := range joins {
				j()
			}
			if s.late == nil {
				// everything is stored now
				sched.Settle()
				for _, scope := range conc.Scopes {
					if len(s.exp) == 0 && fail == nil {
						fail = stored(st, all, scope)
					}
				}
			} else {
				sched.Start("late scanner", func() { st.Scan(s.late) })
			}
			conc.Shutdown(st, cancel, &fail)
		}
		check := func() error {
			if fail != nil {
				return fail
			}
			for i, l := range res {
				if len(l) != len(s.scans[i]) {
					return fmt.Errorf("scanner %d did %d scans, not %d", i, len(l), len(s.scans[i]))
				}
				for n, a := range l {
					if err := judge(s, all, l[:n], a); err != nil {
						return fmt.Errorf("scanner %d, scan %d of %v: %w", i, n, a.q, err)
					}
				}
			}
			if err := st.OpenParts(); err != nil {
				return err
			}
			defer st.Close()
			return conc.Verify(st, all, nil)
		}
		return body, check
	}}
}

// stored checks that a scan finds all messages of a kind.
func stored(st *stack.Stack, all []*v1.Data, scope v1.Scan_SCOPE) error {
	var want []*v1.Data
	for _, d := range all {
		if tel.Kind(d) == scope {
			want = append(want, d)
		}
	}
	if want == nil {
		return nil
	}
	got, err := st.Scan(conc.Hour(scope))
	if err == nil {
		err = conc.Among(got, want, nil)
	}
	if err != nil {
		return fmt.Errorf("scan of %v after the flush: %w", scope, err)
	}
	return nil
}

func judge(s shape, all []*v1.Data, before []seen, a seen) error {
	if a.err != nil {
		return a.err
	}
	match := func(d *v1.Data) bool {
		return tel.Kind(d) == a.q.Scope && len(tel.Filter(tel.Records(d), 0, 1<<63, a.q.Filters...)) > 0
	}
	var base, more []*v1.Data
	for i, d := range all {
		if !match(d) {
			continue
		}
		if i < len(s.base) {
			base = append(base, d)
		} else {
			more = append(more, d)
		}
	}
	if a.q.TimeRange == nil {
		// one of the messages, no older than the last one of base
		for _, d := range append(more, base[len(base)-1]) {
			if conc.Among(a.got, []*v1.Data{d}, nil) == nil {
				return nil
			}
		}
		return fmt.Errorf("not the last message: %v", a.got)
	}
	// what an earlier scan has seen, whatever its query was
	must := base
	var may []*v1.Data
	for _, d := range more {
		seen := false
		for _, b := range before {
			seen = seen || b.got != nil && b.q.TimeRange != nil && conc.Has(b.got, d)
		}
		if seen {
			must = append(must[:len(must):len(must)], d)
		} else {
			may = append(may, d)
		}
	}
	return conc.Among(a.got, must, may)
}

func main() {
	var all []explore.Scenario
	for _, s := range shapes() {
		all = append(all, scenario(s))
	}
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		conc.Init()
		explore.Worker(all)
		return
	}
	lib.Main("R07", "model_checking", func(r *lib.Run) {
		r.Rule("every schedule within the bounds")
		ex := func(s explore.Scenario, o explore.Options) { explore.Explore(r, s, o, 8, r.FastScratch("w")) }
		if r.Quick() {
			few := []string{"dataframe", "translate"}
			none := append(few, "pools")
			for i, s := range all {
				ex(s, explore.Options{Skip: few, Bounds: []explore.Bound{{Stmt: 1}, {Free: 2}}})
				if shapes()[i].deep {
					ex(s, explore.Options{Tag: "deep", Skip: none, Bounds: []explore.Bound{{Sync: 2}}})
				}
				if explore.HasRace() {
					b := explore.Bound{Free: 1}
					if shapes()[i].name == "first messages" {
						b = explore.Bound{Sync: 1}
					}
					ex(s, explore.Options{Tag: "watched for data races", Race: true, Skip: none, Bounds: []explore.Bound{b}})
				}
			}
			return
		}
		for _, s := range all {
			ex(s, explore.Options{Bounds: []explore.Bound{{Stmt: 1}, {Free: 2}}})
			ex(s, explore.Options{Tag: "deep", Skip: []string{"pools"}, Bounds: []explore.Bound{{Sync: 2, Free: 1}}})
			if explore.HasRace() {
				ex(s, explore.Options{Tag: "watched for data races", Race: true, Bounds: []explore.Bound{{Sync: 1}, {Free: 2}}})
			}
		}
		for _, s := range all {
			ex(s, explore.Options{Tag: "deeper", Skip: []string{"dataframe", "translate", "pools"}, Bounds: []explore.Bound{{Stmt: 2}, {Sync: 3}, {Free: 3}}})
		}
	})
}

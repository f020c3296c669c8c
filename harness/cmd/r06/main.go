// R06: no interleaving loses, repeats or alters an accepted export.
package main

import (
	"context"
	"os"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/conc"
	"github.com/gernest/requiemdb/internal/zzverif/explore"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/sched"
	"github.com/gernest/requiemdb/internal/zzverif/shim/vtime"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
)

type shape struct {
	name   string
	base   []*v1.Data   // stored before
	queued []*v1.Data   // accepted before
	exp    [][]*v1.Data // exporters
	late   []*v1.Data   // exporter that still runs during shutdown
	ticks  int
	wait   bool // the timer is done before shutdown begins
	first  bool // a flush begins before the exporters do
}

func shapes() []shape {
	m := conc.Msg
	d := func(ds ...*v1.Data) []*v1.Data { return ds }
	return []shape{
		{name: "two exporters", exp: [][]*v1.Data{d(m('m', 1, false)), d(m('m', 2, false))}},
		{name: "exporters and flush", exp: [][]*v1.Data{d(m('m', 1, false), m('l', 2, false))}, ticks: 1, wait: true},
		{name: "flush and shutdown", queued: d(m('m', 1, true), m('t', 2, true)), ticks: 1},
		{name: "exporter, flush and shutdown", queued: d(m('m', 1, true)), exp: [][]*v1.Data{d(m('m', 2, true))}, ticks: 1},
		{name: "two flushes", base: d(m('l', 1, true)), queued: d(m('l', 2, true)), exp: [][]*v1.Data{d(m('l', 3, true))}, ticks: 2, wait: true},
		{name: "flush overtaken", queued: d(m('m', 1, true), m('l', 2, true)), exp: [][]*v1.Data{d(m('m', 3, true))}, first: true},
		{name: "late export", queued: d(m('m', 1, true)), late: d(m('m', 2, false)), ticks: 1},
	}
}

func scenario(s shape) explore.Scenario {
	return explore.Scenario{Name: s.name, Prepare: func(dir string) (func(), func() error) {
		st, err := stack.Open(dir, true)
		if err != nil {
			panic(err)
		}
		var want []*v1.Data
		var fail error
		conc.Export(st, &fail, s.base...)()
		if len(s.base) > 0 {
			if err := st.Flush(); err != nil {
				panic(err)
			}
		}
		conc.Export(st, &fail, s.queued...)()
		want = append(append(want, s.base...), s.queued...)
		for _, e := range s.exp {
			want = append(want, e...)
		}
		body := func() {
			ctx, cancel := context.WithCancel(context.Background())
			st.Svc.Start(ctx)
			var joins []func()
			if s.first {
				sched.Block("the ticker exists", func() bool { return len(vtime.All) > 0 })
				vtime.Fire()
				sched.Block("the tick is taken", vtime.Taken)
			}
			for i, e := range s.exp {
				joins = append(joins, sched.Start("exporter "+string('a'+rune(i)), conc.Export(st, &fail, e...)))
			}
			if s.ticks > 0 {
				j := sched.Start("timer", func() {
					for i := 0; i < s.ticks; i++ {
						vtime.Fire()
					}
				})
				if s.wait {
					joins = append(joins, j)
				}
			}
			if s.late != nil {
				// not joined: the client learns nothing about it
				sched.Start("late exporter", conc.Export(st, new(error), s.late...))
			}
			for _, j := range joins {
				j()
			}
			conc.Shutdown(st, cancel, &fail)
		}
		check := func() error {
			if fail != nil {
				return fail
			}
			if err := st.OpenParts(); err != nil {
				return err
			}
			defer st.Close()
			return conc.Verify(st, want, s.late)
		}
		return body, check
	}}
}

func main() {
	var all []explore.Scenario
	for _, s := range shapes() {
		all = append(all, scenario(s))
	}
	if len(os.Args) > 1 && os.Args[1] == "worker" {
		conc.Init()
		explore.Worker(all)
		return
	}
	lib.Main("R06", "model_checking", func(r *lib.Run) {
		r.Rule("every schedule within the bounds")
		skip := lib.Pick(r, []string{"dataframe", "translate"}, nil)
		for _, s := range all {
			explore.Explore(r, s, explore.Options{Skip: skip, Bounds: lib.Pick(r,
				[]explore.Bound{{Stmt: 1}, {Free: 2}},
				[]explore.Bound{{Stmt: 1, Free: 1}, {Stmt: 1, Sync: 1}, {Sync: 2, Free: 1}, {Free: 3}})}, 8, r.FastScratch("w"))
		}
		// deeper, between synchronisations only
		for _, s := range all {
			explore.Explore(r, s, explore.Options{Tag: "deep", Skip: append(skip, "pools"), Bounds: lib.Pick(r,
				[]explore.Bound{{Sync: 2}},
				[]explore.Bound{{Sync: 3}})}, 8, r.FastScratch("w"))
		}
		if explore.HasRace() {
			for _, s := range all {
				explore.Explore(r, s, explore.Options{Skip: skip, Race: true, Tag: "watched for data races", Bounds: lib.Pick(r,
					[]explore.Bound{{Sync: 1}, {Free: 1}},
					[]explore.Bound{{Stmt: 1}, {Free: 2}})}, 8, r.FastScratch("w"))
			}
		}
	})
}

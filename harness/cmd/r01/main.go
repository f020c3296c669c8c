// R01: what was exported is what scans answer, over every short history of
// exports, flushes and restarts.
package main

import (
	"fmt"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
)

type op struct {
	name string
	msg  func(int, time.Time) *v1.Data // nil: not an export
	hour int
}

var ops = []op{
	{"metrics@10", tel.RichMetrics, 10},
	{"metrics2@10", tel.PlainMetrics, 10},
	{"logs@10", tel.RichLogs, 10},
	{"traces@11", tel.RichTraces, 11},
	{"metrics2@11", tel.PlainMetrics, 11},
	{"flush", nil, 0},
	{"restart", nil, 0},
}

func name(h []int) string {
	var s []string
	for _, i := range h {
		s = append(s, ops[i].name)
	}
	return strings.Join(s, " ")
}

func verify(r *lib.Run, s *stack.Stack, all []*v1.Data) error {
	type rng struct {
		lo, hi int // hours
	}
	for _, g := range []rng{{9, 13}, {0, 24}, {10, 11}} {
		for _, sc := range tel.Scopes {
			want := tel.Flat{}
			for _, d := range all {
				if tel.Kind(d) != sc {
					continue
				}
				if g == (rng{10, 11}) && hourOf(d) != 10 {
					continue
				}
				want.Add(tel.Clone(d))
			}
			q := tel.Range(sc, lib.Day0.Add(time.Duration(g.lo)*time.Hour), lib.Day0.Add(time.Duration(g.hi)*time.Hour))
			res, err := s.Scan(q)
			r.Transitions(1)
			if err != nil {
				return fmt.Errorf("scan of %s %v: %w", sc, g, err)
			}
			if res.GetData() != nil && tel.Kind(res) != sc {
				return fmt.Errorf("scan of %s answers %T", sc, res.GetData())
			}
			if d := tel.Diff(want, tel.Of(res), false); d != "" {
				return fmt.Errorf("scan of %s in hours %v: %s", sc, g, d)
			}
		}
	}
	return nil
}

func hourOf(d *v1.Data) int {
	var ts uint64
	switch e := d.Data.(type) {
	case *v1.Data_Metrics:
		m := e.Metrics.ResourceMetrics[0].ScopeMetrics[0].Metrics[0]
		ts = m.GetGauge().DataPoints[0].TimeUnixNano
	case *v1.Data_Logs:
		ts = e.Logs.ResourceLogs[0].ScopeLogs[0].LogRecords[0].TimeUnixNano
	case *v1.Data_Traces:
		ts = e.Traces.ResourceSpans[0].ScopeSpans[0].Spans[0].StartTimeUnixNano
	}
	return time.Unix(0, int64(ts)).UTC().Hour()
}

func run(r *lib.Run, h []int) error {
	s, err := stack.Open(r.Scratch("h"), false)
	if err != nil {
		return err
	}
	defer func() { s.Close() }()
	var all []*v1.Data
	for k, i := range h {
		o := ops[i]
		switch {
		case o.msg != nil:
			d := o.msg(k+1, lib.Day0.Add(time.Duration(o.hour)*time.Hour+time.Duration(k)*time.Minute))
			all = append(all, tel.Clone(d))
			if err := s.Export(d); err != nil {
				return fmt.Errorf("step %d export: %w", k, err)
			}
		case o.name == "flush":
			if err := s.Flush(); err != nil {
				return fmt.Errorf("step %d flush: %w", k, err)
			}
			if err := verify(r, s, all); err != nil {
				return fmt.Errorf("after step %d: %w", k, err)
			}
		default:
			if err := s.Restart(); err != nil {
				return fmt.Errorf("step %d restart: %w", k, err)
			}
			if err := verify(r, s, all); err != nil {
				return fmt.Errorf("after step %d: %w", k, err)
			}
		}
	}
	if err := s.Flush(); err != nil {
		return fmt.Errorf("last flush: %w", err)
	}
	if err := verify(r, s, all); err != nil {
		return fmt.Errorf("at the end: %w", err)
	}
	return nil
}

func main() {
	lib.Main("R01", "model_checking", func(r *lib.Run) {
		lib.FastParquet()
		r.Rule("every sequence of {5 kinds of export in two hours, flush, clean restart} up to the depth; after every flush and restart three time ranges of all signals are compared with the list of accepted exports")
		depth := lib.Pick(r, 4, 6)
		var hs [][]int
		var rec func(h []int)
		rec = func(h []int) {
			if len(h) == depth {
				hs = append(hs, append([]int{}, h...))
				return
			}
			for i := range ops {
				if r.Quick() && (i == 1 || i == 2 && len(h) > 2) {
					continue
				}
				if len(h) == 0 && ops[i].msg == nil && depth > 4 {
					continue // an empty database, flushed: covered by shorter histories
				}
				if len(h) > 0 && ops[i].msg == nil && ops[h[len(h)-1]].msg == nil && len(h) > 3 {
					continue
				}
				rec(append(h, i))
			}
		}
		// shorter depths first, so that a run out of time has them complete
		for d := 1; d <= lib.Pick(r, 4, 6); d++ {
			depth = d
			if r.Quick() && d < 4 && d > 1 {
				continue // prefixes of the longer ones
			}
			rec(nil)
		}
		r.Note("histories", len(hs))
		r.Note("depth", depth)
		volume(r)
		r.Parallel(len(hs), 12, func(i int) {
			h := hs[i]
			n := name(h)
			r.State(n)
			r.Trace()
			r.Transitions(len(h))
			if i%331 == 0 {
				r.Sample(n)
			}
			r.Case(n, n, func() error { return run(r, h) })
		})
	})
}

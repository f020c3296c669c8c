// R04: a range scan misses no sample of its range and answers none from
// outside the calendar units that the range touches.
package main

import (
	"fmt"
	"sort"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type sample struct {
	name string
	ts   []time.Time // of its points, in message order
	data map[v1.Scan_SCOPE]*v1.Data
}

func build(n int, ts []time.Time) map[v1.Scan_SCOPE]*v1.Data {
	var ps []*metricsv1.NumberDataPoint
	var ls []*logsv1.LogRecord
	var ss []*tracev1.Span
	for _, t := range ts {
		u := uint64(t.Unix())*1e9 + uint64(t.Nanosecond())
		ps = append(ps, tel.Num(u, float64(n)))
		ls = append(ls, &logsv1.LogRecord{TimeUnixNano: u, Body: tel.Int(int64(n))})
		ss = append(ss, &tracev1.Span{StartTimeUnixNano: u, EndTimeUnixNano: u + 1, Name: fmt.Sprint(n)})
	}
	name := fmt.Sprint("g", n)
	var m *metricsv1.Metric
	switch n % 3 {
	case 0:
		m = tel.Gauge(name, ps...)
	case 1:
		m = tel.Sum(name, 1, true, ps...)
	default:
		hs := make([]*metricsv1.HistogramDataPoint, len(ps))
		for i := range ps {
			hs[i] = &metricsv1.HistogramDataPoint{TimeUnixNano: ps[i].TimeUnixNano, Count: uint64(n)}
		}
		m = &metricsv1.Metric{Name: name, Data: &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: hs}}}
	}
	return map[v1.Scan_SCOPE]*v1.Data{
		v1.Scan_METRICS: tel.One(tel.Res("n", fmt.Sprint(n)), nil, m),
		v1.Scan_LOGS:    tel.OneLog(tel.Res("n", fmt.Sprint(n)), nil, ls...),
		v1.Scan_TRACES:  tel.OneSpan(tel.Res("n", fmt.Sprint(n)), nil, ss...),
	}
}

// unit is the layout of the calendar unit a range is answered at.
func unit(start, end time.Time) string {
	d := end.Sub(start)
	switch {
	case d >= 12*30*24*time.Hour:
		return "2006"
	case d >= 30*24*time.Hour:
		return "200601"
	case d >= 24*time.Hour:
		return "20060102"
	}
	return "2006010215"
}

func main() {
	lib.Main("R04", "model_checking", func(r *lib.Run) {
		lib.FastParquet()
		r.Rule("samples one ns around every kind of calendar boundary, multi-point samples in every order; every pair of range ends from the boundaries, their ns neighbours and hour, day, month and year offsets, as such and with a time and an offset of the query in turn")
		d := func(y int, m time.Month, day, hh int) time.Time { return time.Date(y, m, day, hh, 0, 0, 0, time.UTC) }
		bounds := []time.Time{
			d(2023, 12, 31, 23), d(2024, 1, 1, 0), d(2024, 2, 29, 0), d(2024, 3, 1, 0), d(2024, 4, 1, 0), d(2024, 4, 3, 10), d(2024, 4, 3, 11), d(2025, 1, 1, 0),
			// after 2262 a timestamp does not fit into an int64
			d(2262, 4, 12, 0), d(2400, 2, 29, 0), d(2554, 7, 21, 22),
		}
		if !r.Quick() {
			bounds = append(bounds, d(2024, 2, 28, 23), d(2024, 4, 4, 0), d(2024, 4, 30, 23), d(2022, 1, 1, 0))
		}
		var pop []sample
		add := func(name string, ts ...time.Time) {
			pop = append(pop, sample{name, ts, build(len(pop)+1, ts)})
		}
		for _, b := range bounds {
			for _, o := range []time.Duration{-1, 0, 1, 30 * time.Minute} {
				add(fmt.Sprintf("%s%+d", b.Format("2006-01-02T15"), o), b.Add(o))
			}
			// several points of one hour, in every order
			x, y, z := b, b.Add(time.Minute), b.Add(time.Hour-1)
			for _, p := range [][]time.Time{{x, y, z}, {x, z, y}, {y, x, z}, {y, z, x}, {z, x, y}, {z, y, x}} {
				add("multi", p...)
			}
		}
		s, err := stack.Open(r.Scratch("s"), true)
		if err != nil {
			panic(err)
		}
		for i, p := range pop {
			for _, sc := range tel.Scopes {
				if err := s.Export(tel.Clone(p.data[sc])); err != nil {
					panic(err)
				}
			}
			if i%20 == 19 {
				s.Flush()
			}
		}
		s.Flush()
		r.Note("samples_stored", 3*len(pop))
		ends := map[string]time.Time{}
		for _, b := range bounds {
			for _, o := range []time.Duration{-1, 0, 1, 30 * time.Minute, -30 * time.Minute, 23 * time.Hour, -24 * time.Hour, 24 * time.Hour, 29 * 24 * time.Hour, 24*time.Hour - 1} {
				e := b.Add(o)
				ends[e.String()] = e
			}
			if !r.Quick() {
				for _, o := range []time.Duration{time.Hour - 1, time.Hour, time.Hour + 1, -time.Hour, 15 * time.Minute, 30 * 24 * time.Hour, 31 * 24 * time.Hour, 360 * 24 * time.Hour, -360 * 24 * time.Hour, 365 * 24 * time.Hour} {
					e := b.Add(o)
					ends[e.String()] = e
				}
			}
		}
		var es []time.Time
		for _, e := range ends {
			es = append(es, e)
		}
		sort.Slice(es, func(i, j int) bool { return es[i].Before(es[j]) })
		es = append(es, time.Unix(0, 0).UTC(), time.Unix(0, 1<<63-1).UTC(), time.Unix(0, -1).UTC(), d(1, 1, 1, 0), d(1600, 1, 1, 0), d(1900, 1, 1, 0), d(3000, 1, 1, 0), d(9999, 12, 31, 23))
		type rng struct{ a, b time.Time }
		var rs []rng
		for _, a := range es {
			for _, b := range es {
				if b.Before(a) && b.Sub(a) < -40*24*time.Hour && r.Quick() {
					continue
				}
				rs = append(rs, rng{a, b})
			}
		}
		r.Note("ranges", len(rs))
		r.Parallel(len(rs), 12, func(i int) {
			a, b := rs[i].a, rs[i].b
			sc := tel.Scopes[i%3]
			scs := []v1.Scan_SCOPE{sc}
			if !r.Quick() {
				scs = tel.Scopes
			}
			layout := unit(a, b)
			for _, sc := range scs {
				key := fmt.Sprintf("%s [%s,%s)", sc, a.Format(time.RFC3339Nano), b.Format(time.RFC3339Nano))
				r.State(key)
				r.Trace()
				r.Transitions(1)
				if i%911 == 0 {
					r.Sample(key)
				}
				r.Case(key, key, func() error {
					q := tel.Range(sc, a, b)
					res, err := s.Scan(q)
					if err != nil {
						return err
					}
					got := tel.Of(res)
					// the time of the query and its offset do not move the range
					now := []time.Time{a.Add(-time.Hour), a, a.Add(b.Sub(a) / 2), b.Add(-1), b, b.Add(48 * time.Hour)}[i%6]
					switch i / 6 % 3 {
					case 0:
						q.Now = timestamppb.New(now)
					case 1:
						q.Now = timestamppb.New(now)
						q.Offset = durationpb.New(90 * time.Minute)
					case 2:
						q.Offset = durationpb.New([]time.Duration{-time.Hour, 0, time.Hour}[i%3])
					}
					if q.Now != nil && q.Now.CheckValid() != nil {
						q.Now = nil
					}
					r.Transitions(1)
					res, err = s.Scan(q)
					if err != nil {
						return fmt.Errorf("with now %v and offset %v: %w", q.Now, q.Offset, err)
					}
					if d := tel.Diff(got, tel.Of(res), true); d != "" {
						return fmt.Errorf("with now %v and offset %v: %s", q.Now.AsTime(), q.Offset.AsDuration(), d)
					}
					seen := 0
					for _, p := range pop {
						all, touched := true, false
						for _, t := range p.ts {
							in := !t.Before(a) && t.Before(b)
							all = all && in
							// the unit of t overlaps [a,b)
							x := t.Format(layout)
							if a.Before(b) && x >= a.Format(layout) && x <= b.Add(-1).Format(layout) {
								touched = true
							}
						}
						want := tel.Of(tel.Clone(p.data[sc]))
						here := true
						for k, ps := range want {
							g, ok := got[k]
							if !ok {
								here = false
							} else if len(g) != len(ps) {
								return fmt.Errorf("sample %s: %d points instead of %d", p.name, len(g), len(ps))
							}
						}
						if all && !here {
							return fmt.Errorf("sample %s at %v is missing", p.name, p.ts)
						}
						if here && !touched {
							return fmt.Errorf("sample %s at %v does not belong here", p.name, p.ts)
						}
						if here {
							seen += len(want)
						}
					}
					if seen != len(got) {
						return fmt.Errorf("%d unknown parts in the answer", len(got)-seen)
					}
					return nil
				})
			}
		})
		// samples whose points are in different units
		for i, ts := range [][]time.Time{
			{d(2024, 5, 3, 10).Add(59 * time.Minute), d(2024, 5, 3, 11).Add(time.Minute)},
			{d(2024, 5, 4, 11).Add(time.Minute), d(2024, 5, 4, 10).Add(59 * time.Minute)},
		} {
			p := sample{"straddle", ts, build(1000+i, ts)}
			for _, sc := range tel.Scopes {
				if err := s.Export(tel.Clone(p.data[sc])); err != nil {
					panic(err)
				}
			}
			s.Flush()
			for _, sc := range tel.Scopes {
				lo := ts[0].Truncate(24 * time.Hour)
				find := func(a, b time.Time) func() error {
					return func() error {
						res, err := s.Scan(tel.Range(sc, a, b))
						if err != nil {
							return err
						}
						if d := tel.Diff(tel.Of(tel.Clone(p.data[sc])), tel.Of(res), true); d != "" {
							return fmt.Errorf("%s", d)
						}
						return nil
					}
				}
				r.Transitions(3)
				r.Case(fmt.Sprintf("straddle-whole-%d-%s", i, sc), nil, find(lo.Add(10*time.Hour), lo.Add(12*time.Hour)))
				r.Case(fmt.Sprintf("straddle-first-hour-%d-%s", i, sc), nil, find(lo.Add(10*time.Hour), lo.Add(11*time.Hour)))
				later := find(lo.Add(11*time.Hour), lo.Add(12*time.Hour))
				// listed as a finding is that such a sample is not found at all
				key := fmt.Sprintf("straddle-later-hour-%d-%s", i, sc)
				if res, err := s.Scan(tel.Range(sc, lo.Add(11*time.Hour), lo.Add(12*time.Hour))); err != nil || len(tel.Of(res)) != 0 {
					key += "-differs"
				}
				r.Case(key, nil, later)
			}
		}
	})
}

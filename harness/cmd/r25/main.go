// R25: the time bounds of a sample are those of its records.
package main

import (
	"fmt"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/transform"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

type rec struct {
	kind  int // 0-4 kinds of metrics, 5 log, 6 span
	at    uint64
	until uint64 // of a span
	split int    // 0: next to the one before, 1: new metric, 2: new scope, 3: new resource
}

func metric(kind int, t uint64) *metricsv1.Metric {
	m := &metricsv1.Metric{Name: "m"}
	switch kind {
	case 0:
		m.Data = &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: t, StartTimeUnixNano: 3, Attributes: tel.KV("k", "v")}}}}
	case 1:
		m.Data = &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: []*metricsv1.NumberDataPoint{{TimeUnixNano: t, StartTimeUnixNano: 3}}}}
	case 2:
		m.Data = &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: []*metricsv1.HistogramDataPoint{{TimeUnixNano: t, StartTimeUnixNano: 3}}}}
	case 3:
		m.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsv1.ExponentialHistogram{DataPoints: []*metricsv1.ExponentialHistogramDataPoint{{TimeUnixNano: t, StartTimeUnixNano: 3}}}}
	default:
		m.Data = &metricsv1.Metric_Summary{Summary: &metricsv1.Summary{DataPoints: []*metricsv1.SummaryDataPoint{{TimeUnixNano: t, StartTimeUnixNano: 3}}}}
	}
	return m
}

func build(rs []rec) *v1.Data {
	var m []*metricsv1.ResourceMetrics
	var l []*logsv1.ResourceLogs
	var t []*tracev1.ResourceSpans
	for i, r := range rs {
		if i == 0 || r.split == 3 {
			m = append(m, &metricsv1.ResourceMetrics{})
			l = append(l, &logsv1.ResourceLogs{})
			t = append(t, &tracev1.ResourceSpans{})
		}
		a, b, c := m[len(m)-1], l[len(l)-1], t[len(t)-1]
		if i == 0 || r.split >= 2 {
			a.ScopeMetrics = append(a.ScopeMetrics, &metricsv1.ScopeMetrics{})
			b.ScopeLogs = append(b.ScopeLogs, &logsv1.ScopeLogs{})
			c.ScopeSpans = append(c.ScopeSpans, &tracev1.ScopeSpans{})
		}
		x, y, z := a.ScopeMetrics[len(a.ScopeMetrics)-1], b.ScopeLogs[len(b.ScopeLogs)-1], c.ScopeSpans[len(c.ScopeSpans)-1]
		switch r.kind {
		case 5:
			y.LogRecords = append(y.LogRecords, &logsv1.LogRecord{TimeUnixNano: r.at, ObservedTimeUnixNano: 3})
		case 6:
			z.Spans = append(z.Spans, &tracev1.Span{StartTimeUnixNano: r.at, EndTimeUnixNano: r.until, Name: "s"})
		default:
			n := metric(r.kind, r.at)
			if k := len(x.Metrics); r.split == 0 && k > 0 && rs[i-1].kind == r.kind {
				switch e := x.Metrics[k-1].Data.(type) {
				case *metricsv1.Metric_Gauge:
					e.Gauge.DataPoints = append(e.Gauge.DataPoints, n.GetGauge().DataPoints...)
				case *metricsv1.Metric_Sum:
					e.Sum.DataPoints = append(e.Sum.DataPoints, n.GetSum().DataPoints...)
				case *metricsv1.Metric_Histogram:
					e.Histogram.DataPoints = append(e.Histogram.DataPoints, n.GetHistogram().DataPoints...)
				case *metricsv1.Metric_ExponentialHistogram:
					e.ExponentialHistogram.DataPoints = append(e.ExponentialHistogram.DataPoints, n.GetExponentialHistogram().DataPoints...)
				case *metricsv1.Metric_Summary:
					e.Summary.DataPoints = append(e.Summary.DataPoints, n.GetSummary().DataPoints...)
				}
			} else {
				x.Metrics = append(x.Metrics, n)
			}
		}
	}
	switch {
	case len(rs) == 0:
		return tel.Metrics()
	case rs[0].kind == 5:
		return tel.Logs(l...)
	case rs[0].kind == 6:
		return tel.Traces(t...)
	}
	return tel.Metrics(m...)
}

func bounds(rs []rec) (lo, hi uint64) {
	for _, r := range rs {
		if r.at != 0 && (lo == 0 || r.at < lo) {
			lo = r.at
		}
		hi = max(hi, r.at, r.until)
	}
	return
}

func main() {
	lib.Main("R25", "model_checking", func(r *lib.Run) {
		r.Rule("every list of up to n records with times over four instants (one of them absent), every grouping of neighbours into metrics, scopes and resources, every kind (mixed kinds of metrics included), each processed alone and after every one of a set of earlier samples by the same context")
		times := []uint64{0, uint64(lib.Day0.UnixNano()), uint64(lib.Day0.UnixNano()) + 7_200_000_000_000, 1 << 62}
		var all [][]rec
		var names []string
		var gen func(fam int, rs []rec, n int)
		gen = func(fam int, rs []rec, n int) {
			all = append(all, append([]rec{}, rs...))
			names = append(names, fmt.Sprintf("family %d %v", fam, rs))
			if len(rs) == n {
				return
			}
			kinds := []int{fam}
			if fam == 7 {
				kinds = []int{0, 1, 2, 3, 4}
			}
			for _, k := range kinds {
				for ti, t := range times {
					for split := 0; split < 4; split++ {
						if len(rs) == 0 && split > 0 || k >= 5 && split == 1 {
							continue
						}
						if fam == 7 && split == 2 && r.Quick() {
							continue
						}
						if k == 6 {
							for _, u := range times[ti:] {
								gen(fam, append(rs[:len(rs):len(rs)], rec{k, t, u, split}), n)
							}
							continue
						}
						gen(fam, append(rs[:len(rs):len(rs)], rec{k, t, 0, split}), n)
					}
				}
			}
		}
		for fam := 0; fam < 7; fam++ {
			n := lib.Pick(r, 4, 5)
			if fam == 6 {
				n = lib.Pick(r, 3, 4)
			}
			gen(fam, nil, n)
		}
		gen(7, nil, lib.Pick(r, 2, 3))
		r.Sample(names[len(names)/2])
		earlier := [][]rec{{}, {{kind: 0, at: times[3]}}, {{kind: 5, at: times[1]}}, {{kind: 6, at: times[1], until: times[3]}}}
		r.Parallel(len(all), 8, func(i int) {
			rs := all[i]
			r.State(names[i])
			r.Trace()
			r.Transitions(len(rs))
			lo, hi := bounds(rs)
			r.Case(names[i], nil, func() error {
				d := build(rs)
				for _, e := range earlier {
					c := transform.NewContext(func([]byte) uint64 { return 1 })
					a, b := &v1.Sample{Id: 1, Data: build(e)}, &v1.Sample{Id: 2, Data: d}
					if _, err := c.ProcessSamples(a, b); err != nil {
						return err
					}
					if b.MinTs != lo || b.MaxTs != hi {
						return fmt.Errorf("bounds are [%d,%d] instead of [%d,%d] after %v", b.MinTs, b.MaxTs, lo, hi, e)
					}
					if x, y := bounds(e); a.MinTs != x || a.MaxTs != y {
						return fmt.Errorf("bounds of the first are [%d,%d] instead of [%d,%d]", a.MinTs, a.MaxTs, x, y)
					}
				}
				return nil
			})
		})
	})
}

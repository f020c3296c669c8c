// R13: merging samples loses, invents and mixes up nothing.
package main

import (
	"fmt"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/data"
	"github.com/gernest/requiemdb/internal/zzverif/gen"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

type item struct {
	name  string
	d     *v1.Data
	twice bool // the same series is in two places of the message
	forms int
	path  string
}

func check(ms []item) error {
	in := make([]*v1.Data, len(ms))
	want := tel.Flat{}
	for i := range ms {
		in[i] = tel.Clone(ms[i].d)
		want.Add(ms[i].d)
	}
	out := data.Collapse(in)
	if out.GetData() == nil || tel.Kind(out) != tel.Kind(ms[0].d) {
		return fmt.Errorf("the result is %T", out.GetData())
	}
	// the order of a series is claimed when no part has it in two places, and
	// absent and empty resources and scopes are not mixed
	ordered := true
	forms := 0
	for i := range ms {
		ordered = ordered && !ms[i].twice
		forms |= ms[i].forms
	}
	ordered = ordered && forms != 3
	if d := tel.Diff(want, tel.Of(out), ordered); d != "" {
		return fmt.Errorf("%s", d)
	}
	// nothing is in two groups, unless a part already came like that
	for i := range ms {
		if again(ms[i].d) != "" {
			return nil
		}
	}
	if a := again(out); a != "" {
		return fmt.Errorf("two groups for the same %s", a)
	}
	return nil
}

func ident(ms ...proto.Message) string {
	var s string
	for _, m := range ms {
		if !m.ProtoReflect().IsValid() {
			s += "absent;"
			continue
		}
		b, _ := proto.MarshalOptions{Deterministic: true}.Marshal(m)
		s += fmt.Sprintf("%x;", b)
	}
	return s
}

// again returns a resource, scope or metric that has two groups in d, if any.
func again(d *v1.Data) string {
	seen := map[string]bool{}
	dup := ""
	add := func(k string) string {
		if seen[k] {
			dup = k
		}
		seen[k] = true
		return k
	}
	for _, rm := range d.GetMetrics().GetResourceMetrics() {
		rk := add("resource " + rm.SchemaUrl + " " + ident(rm.Resource))
		for _, sm := range rm.ScopeMetrics {
			sk := add(rk + " scope " + sm.SchemaUrl + " " + ident(sm.Scope))
			for _, m := range sm.Metrics {
				m = proto.Clone(m).(*metricsv1.Metric)
				switch e := m.Data.(type) {
				case *metricsv1.Metric_Gauge:
					e.Gauge = &metricsv1.Gauge{}
				case *metricsv1.Metric_Sum:
					if e.Sum != nil {
						e.Sum.DataPoints = nil
					}
				case *metricsv1.Metric_Histogram:
					if e.Histogram != nil {
						e.Histogram.DataPoints = nil
					}
				case *metricsv1.Metric_ExponentialHistogram:
					if e.ExponentialHistogram != nil {
						e.ExponentialHistogram.DataPoints = nil
					}
				case *metricsv1.Metric_Summary:
					e.Summary = &metricsv1.Summary{}
				}
				add(sk + " metric " + ident(m))
			}
		}
	}
	for _, rm := range d.GetLogs().GetResourceLogs() {
		rk := add("resource " + rm.SchemaUrl + " " + ident(rm.Resource))
		for _, sm := range rm.ScopeLogs {
			add(rk + " scope " + sm.SchemaUrl + " " + ident(sm.Scope))
		}
	}
	for _, rm := range d.GetTraces().GetResourceSpans() {
		rk := add("resource " + rm.SchemaUrl + " " + ident(rm.Resource))
		for _, sm := range rm.ScopeSpans {
			add(rk + " scope " + sm.SchemaUrl + " " + ident(sm.Scope))
		}
	}
	return dup
}

// shapes are all messages of a signal with up to two resources, each with up to
// two groups, each with no or one entry, where a group is a scope (logs and
// traces) or a metric (metrics).
func shapes(sig string) (out []item) {
	// what a resource holds: -1 absent, 0 group without entry, 1 with one
	var opts [][2]int
	for a := -1; a < 2; a++ {
		for b := -1; b < 2; b++ {
			opts = append(opts, [2]int{a, b})
		}
	}
	build := func(id uint64, rs ...int) *v1.Data {
		d := &v1.Data{}
		md, ld, td := &metricsv1.MetricsData{}, &logsv1.LogsData{}, &tracev1.TracesData{}
		for n, o := range rs {
			if o < 0 {
				continue
			}
			res := tel.Res("r", fmt.Sprint(n))
			rm, rl, rt := &metricsv1.ResourceMetrics{Resource: res}, &logsv1.ResourceLogs{Resource: res}, &tracev1.ResourceSpans{Resource: res}
			sm := &metricsv1.ScopeMetrics{Scope: tel.Scope("s", "")}
			for g, k := range opts[o] {
				if k < 0 {
					continue
				}
				ts := id*100 + uint64(n*10+g) + 1
				scope := tel.Scope("s", fmt.Sprint(g))
				gauge := &metricsv1.Gauge{}
				sl, st := &logsv1.ScopeLogs{Scope: scope}, &tracev1.ScopeSpans{Scope: scope}
				if k == 1 {
					gauge.DataPoints = append(gauge.DataPoints, tel.Num(ts, 1))
					sl.LogRecords = append(sl.LogRecords, &logsv1.LogRecord{TimeUnixNano: ts})
					st.Spans = append(st.Spans, &tracev1.Span{StartTimeUnixNano: ts})
				}
				sm.Metrics = append(sm.Metrics, &metricsv1.Metric{Name: fmt.Sprint("m", g), Data: &metricsv1.Metric_Gauge{Gauge: gauge}})
				rl.ScopeLogs = append(rl.ScopeLogs, sl)
				rt.ScopeSpans = append(rt.ScopeSpans, st)
			}
			if len(sm.Metrics) > 0 {
				rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
			}
			md.ResourceMetrics = append(md.ResourceMetrics, rm)
			ld.ResourceLogs = append(ld.ResourceLogs, rl)
			td.ResourceSpans = append(td.ResourceSpans, rt)
		}
		switch sig {
		case "metrics":
			d.Data = &v1.Data_Metrics{Metrics: md}
		case "logs":
			d.Data = &v1.Data_Logs{Logs: ld}
		default:
			d.Data = &v1.Data_Traces{Traces: td}
		}
		return d
	}
	for a := -1; a < len(opts); a++ {
		for b := -1; b < len(opts); b++ {
			out = append(out, item{name: fmt.Sprintf("shape %d %d", a, b), d: build(uint64(len(out)+1), a, b)})
		}
	}
	return
}

func main() {
	lib.Main("R13", "model_checking", func(r *lib.Run) {
		r.Rule("per signal: every ordered pair of messages that each differ from a base in one field of the schema (and the base itself; quick: every pair with a base and every pair over the same field, and a fixed quarter of the pairs over different fields), every triple with the base in each position and a fixed share of the other triples; single-field messages are paired the same way; and every triple of messages of up to two resources, each with up to two groups, each with no or one entry (quick: the third has one resource); and messages whose resources differ and have the same checksum")
		paths := gen.Paths()
		for _, sig := range []string{"metrics", "logs", "traces"} {
			var ps []gen.Path
			for _, p := range paths {
				if string(p.Fields[0].Name()) == sig && len(p.Fields) > 1 {
					ps = append(ps, p)
				}
			}
			// the base of each kind: with all of the simple fields set
			var bases []item
			switch sig {
			case "metrics":
				bases = append(bases, item{name: "rich", d: tel.RichMetrics(1, lib.Day0)}, item{name: "plain", d: tel.PlainMetrics(2, lib.Day0)})
			case "logs":
				bases = append(bases, item{name: "rich", d: tel.RichLogs(1, lib.Day0)})
			default:
				bases = append(bases, item{name: "rich", d: tel.RichTraces(1, lib.Day0)})
			}
			var vs []item
			for _, b := range bases {
				vs = append(vs, b)
				for _, p := range ps {
					for v := 0; v < min(p.Variants(), lib.Pick(r, 2, 4)); v++ {
						d := tel.Clone(b.d)
						p.Set(d, v, -1)
						vs = append(vs, item{name: fmt.Sprintf("%s:%s#%d", b.name, p, v), d: d, path: p.String()})
					}
					for l := 0; l < p.Repeated(); l++ {
						d := tel.Clone(b.d)
						p.Set(d, 0, l)
						vs = append(vs, item{name: fmt.Sprintf("%s:%s+%d", b.name, p, l), d: d, path: p.String()})
					}
				}
			}
			nb := len(vs)
			for _, p := range ps {
				vs = append(vs, item{name: p.String(), d: p.Build(0), path: p.String()})
				for v := 1; v < min(p.Variants(), 3); v++ {
					vs = append(vs, item{name: fmt.Sprintf("%s#%d", p, v), d: p.Build(v), path: p.String()})
				}
			}
			vs = append(vs, item{name: "empty", d: map[string]*v1.Data{"metrics": tel.Metrics(), "logs": tel.Logs(), "traces": tel.Traces()}[sig]})
			for i := range vs {
				vs[i].twice = tel.Twice(vs[i].d)
				vs[i].forms = tel.Forms(vs[i].d)
			}
			r.Note("messages_"+sig, len(vs))
			r.Sample(vs[nb/2].name)
			do := func(ms ...item) {
				key := sig
				for _, m := range ms {
					key += " | " + m.name
				}
				r.Trace()
				r.Transitions(len(ms))
				r.Case(key, key, func() error { return check(ms) })
			}
			for _, v := range vs {
				r.State(sig + v.name)
			}
			// all ordered pairs
			r.Parallel(len(vs), 8, func(i int) {
				for j := range vs {
					if r.Quick() && vs[i].path != "" && vs[j].path != "" && vs[i].path != vs[j].path && (i+j)%4 != 0 {
						continue
					}
					do(vs[i], vs[j])
				}
			})
			// triples around a base
			r.Parallel(nb, 8, func(i int) {
				b := vs[0]
				do(b, vs[i], b)
				do(vs[i], b, vs[i])
				do(vs[i], vs[i], b)
				do(b, b, vs[i])
				do(vs[i], vs[i], vs[i])
				for j := i % 5; j < nb; j += lib.Pick(r, 41, 3) {
					do(b, vs[i], vs[j])
					do(vs[i], b, vs[j])
					do(vs[i], vs[j], vs[i])
				}
			})
		}
		// every way in which groups are shared between messages
		for _, sig := range []string{"metrics", "logs", "traces"} {
			vs := shapes(sig)
			r.Note("shapes_"+sig, len(vs))
			quick := r.Quick()
			r.Parallel(len(vs), 8, func(i int) {
				r.State("shape" + sig + vs[i].name)
				for j := range vs {
					for k := range vs {
						// quick: the third is one of those that hold one resource
						if quick && k%10 != 0 && k/10 != 0 {
							continue
						}
						ms := []item{vs[i], vs[j], vs[k]}
						key := fmt.Sprintf("%s %d %d %d", sig, i, j, k)
						r.Trace()
						r.Transitions(3)
						r.Case(key, key, func() error { return check(ms) })
					}
				}
			})
		}
		// one message, none
		// what differs stays apart, even with the same checksum
		{
			var size [8]byte
			size[7] = 88
			u, v := lib.Collide(string(size[:]))
			if len(u) != 88 {
				panic(len(u))
			}
			for _, p := range [][2]string{{u, v}, {v, u}} {
				for _, d := range []*v1.Data{tel.RichMetrics(1, lib.Day0), tel.RichLogs(1, lib.Day0), tel.RichTraces(1, lib.Day0)} {
					var ms []item
					for i, t := range p {
						d := tel.Clone(d)
						switch e := d.Data.(type) {
						case *v1.Data_Metrics:
							e.Metrics.ResourceMetrics[0].SchemaUrl = t
						case *v1.Data_Logs:
							e.Logs.ResourceLogs[0].SchemaUrl = t
						case *v1.Data_Traces:
							e.Traces.ResourceSpans[0].SchemaUrl = t
						}
						ms = append(ms, item{name: fmt.Sprint(i), d: d, twice: tel.Twice(d), forms: tel.Forms(d)})
					}
					key := fmt.Sprintf("same checksum %v %q", tel.Kind(d), p)
					r.State(key)
					r.Trace()
					r.Case(key, nil, func() error { return check(ms) })
				}
			}
		}
		r.Case("none", nil, func() error {
			if d := data.Collapse(nil); d != nil {
				return fmt.Errorf("nothing collapses to %v", d)
			}
			return nil
		})
	})
}

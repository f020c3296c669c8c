// R14: a query script sees exactly the records that it asked for.
package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/visit"
	"github.com/gernest/requiemdb/internal/zzverif/gen"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// A subject is a message with the list of what is in it.
type subject struct {
	name string
	d    *v1.Data
	rs   []*tel.Record
}

func subj(name string, d *v1.Data) *subject { return &subject{name, d, tel.Records(d)} }

func (s *subject) check(start, end uint64, fs ...*v1.Scan_Filter) error {
	vs := visit.New()
	defer vs.Release()
	vs.SetTimeRange(start, end)
	vs.Compile(fs...)
	out := vs.Visit(s.d)
	if tel.Kind(out) != tel.Kind(s.d) {
		return fmt.Errorf("the answer is a %T", out.GetData())
	}
	if d := tel.Diff(tel.Filter(s.rs, start, end, fs...), tel.Of(out), true); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

// kinds of records
const nKinds = 7

var kindNames = [nKinds]string{"gauge", "sum", "histogram", "exphistogram", "summary", "log", "span"}

// A spec describes one record.
type spec struct {
	resSchema, scSchema, scName, scVersion, name, level string
	res, sc, attrs                                      []*commonv1.KeyValue
	trace, span, parent                                 []byte
	time                                                uint64
	n                                                   int
}

func metric(kind int, name string, ps ...spec) *metricsv1.Metric {
	m := &metricsv1.Metric{Name: name, Unit: "By", Description: "d"}
	switch kind {
	case 0:
		g := &metricsv1.Gauge{}
		for _, p := range ps {
			g.DataPoints = append(g.DataPoints, &metricsv1.NumberDataPoint{TimeUnixNano: p.time, Attributes: p.attrs, Value: &metricsv1.NumberDataPoint_AsInt{AsInt: int64(p.n)}})
		}
		m.Data = &metricsv1.Metric_Gauge{Gauge: g}
	case 1:
		g := &metricsv1.Sum{IsMonotonic: true, AggregationTemporality: 2}
		for _, p := range ps {
			g.DataPoints = append(g.DataPoints, &metricsv1.NumberDataPoint{TimeUnixNano: p.time, Attributes: p.attrs, Value: &metricsv1.NumberDataPoint_AsDouble{AsDouble: float64(p.n)}})
		}
		m.Data = &metricsv1.Metric_Sum{Sum: g}
	case 2:
		g := &metricsv1.Histogram{AggregationTemporality: 1}
		for _, p := range ps {
			g.DataPoints = append(g.DataPoints, &metricsv1.HistogramDataPoint{TimeUnixNano: p.time, Attributes: p.attrs, Count: uint64(p.n)})
		}
		m.Data = &metricsv1.Metric_Histogram{Histogram: g}
	case 3:
		g := &metricsv1.ExponentialHistogram{AggregationTemporality: 2}
		for _, p := range ps {
			g.DataPoints = append(g.DataPoints, &metricsv1.ExponentialHistogramDataPoint{TimeUnixNano: p.time, Attributes: p.attrs, Count: uint64(p.n)})
		}
		m.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: g}
	default:
		g := &metricsv1.Summary{}
		for _, p := range ps {
			g.DataPoints = append(g.DataPoints, &metricsv1.SummaryDataPoint{TimeUnixNano: p.time, Attributes: p.attrs, Count: uint64(p.n)})
		}
		m.Data = &metricsv1.Metric_Summary{Summary: g}
	}
	return m
}

func logOf(p spec) *logsv1.LogRecord {
	return &logsv1.LogRecord{TimeUnixNano: p.time, SeverityText: p.level, Attributes: p.attrs, TraceId: p.trace, SpanId: p.span, Body: tel.Int(int64(p.n))}
}

func spanOf(p spec) *tracev1.Span {
	return &tracev1.Span{StartTimeUnixNano: p.time, EndTimeUnixNano: p.time + 7, Name: p.name, Attributes: p.attrs, TraceId: p.trace, SpanId: p.span, ParentSpanId: p.parent, DroppedAttributesCount: uint32(p.n)}
}

// group is a scope with its records, for kinds of metrics one metric for each
// list of records.
type group struct {
	s  spec
	ms [][]spec
}

// message builds resources of scopes of records of one kind.
func message(kind int, rs ...[]group) *v1.Data {
	var m []*metricsv1.ResourceMetrics
	var l []*logsv1.ResourceLogs
	var t []*tracev1.ResourceSpans
	for _, scopes := range rs {
		a := scopes[0].s
		res := &resourcev1.Resource{Attributes: a.res}
		rm := &metricsv1.ResourceMetrics{SchemaUrl: a.resSchema, Resource: res}
		rl := &logsv1.ResourceLogs{SchemaUrl: a.resSchema, Resource: res}
		rt := &tracev1.ResourceSpans{SchemaUrl: a.resSchema, Resource: res}
		for _, g := range scopes {
			b := g.s
			sc := &commonv1.InstrumentationScope{Name: b.scName, Version: b.scVersion, Attributes: b.sc}
			sm := &metricsv1.ScopeMetrics{SchemaUrl: b.scSchema, Scope: sc}
			sl := &logsv1.ScopeLogs{SchemaUrl: b.scSchema, Scope: sc}
			st := &tracev1.ScopeSpans{SchemaUrl: b.scSchema, Scope: sc}
			for _, ps := range g.ms {
				switch kind {
				case 5:
					for _, p := range ps {
						sl.LogRecords = append(sl.LogRecords, logOf(p))
					}
				case 6:
					for _, p := range ps {
						st.Spans = append(st.Spans, spanOf(p))
					}
				default:
					sm.Metrics = append(sm.Metrics, metric(kind, ps[0].name, ps...))
				}
			}
			rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
			rl.ScopeLogs = append(rl.ScopeLogs, sl)
			rt.ScopeSpans = append(rt.ScopeSpans, st)
		}
		m, l, t = append(m, rm), append(l, rl), append(t, rt)
	}
	switch kind {
	case 5:
		return tel.Logs(l...)
	case 6:
		return tel.Traces(t...)
	}
	return tel.Metrics(m...)
}

const (
	t0   = uint64(1_700_000_000_000_000_000)
	full = uint64(math.MaxUint64)
)

// A dim is one property that a filter can ask for, with two values and the
// way to give them to a record.
type dim struct {
	name string
	has  func(kind int) bool
	set  func(s *spec, v int) // v: 0, 1, or -1 for none
	f    func(v int) *v1.Scan_Filter
}

func dims() []dim {
	all := func(int) bool { return true }
	word := func(v int) string {
		if v < 0 {
			return ""
		}
		return []string{"k", "two", "nowhere"}[v]
	}
	ids := [][]byte{{0x0a, 0x0b}, {0xff}, {0xee}}
	hexs := []string{"0a0b", "ff", "ee"}
	id := func(v int) []byte {
		if v < 0 {
			return nil
		}
		return ids[v]
	}
	kv := func(v int) []*commonv1.KeyValue {
		if v < 0 {
			return nil
		}
		return tel.KV("k", word(v))
	}
	return []dim{
		{"resource_schema", all, func(s *spec, v int) { s.resSchema = word(v) }, func(v int) *v1.Scan_Filter { return tel.Base(v1.Scan_RESOURCE_SCHEMA, word(v)) }},
		{"resource_attr", all, func(s *spec, v int) { s.res = kv(v) }, func(v int) *v1.Scan_Filter { return tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "k", word(v)) }},
		{"scope_schema", all, func(s *spec, v int) { s.scSchema = word(v) }, func(v int) *v1.Scan_Filter { return tel.Base(v1.Scan_SCOPE_SCHEMA, word(v)) }},
		{"scope_name", all, func(s *spec, v int) { s.scName = word(v) }, func(v int) *v1.Scan_Filter { return tel.Base(v1.Scan_SCOPE_NAME, word(v)) }},
		{"scope_version", all, func(s *spec, v int) { s.scVersion = word(v) }, func(v int) *v1.Scan_Filter { return tel.Base(v1.Scan_SCOPE_VERSION, word(v)) }},
		{"scope_attr", all, func(s *spec, v int) { s.sc = kv(v) }, func(v int) *v1.Scan_Filter { return tel.Attr(v1.Scan_SCOPE_ATTRIBUTES, "k", word(v)) }},
		{"name", func(k int) bool { return k != 5 }, func(s *spec, v int) { s.name = word(v) }, func(v int) *v1.Scan_Filter { return tel.Base(v1.Scan_NAME, word(v)) }},
		{"attr", all, func(s *spec, v int) { s.attrs = kv(v) }, func(v int) *v1.Scan_Filter { return tel.Attr(v1.Scan_ATTRIBUTES, "k", word(v)) }},
		{"trace_id", func(k int) bool { return k >= 5 }, func(s *spec, v int) { s.trace = id(v) }, func(v int) *v1.Scan_Filter { return tel.Base(v1.Scan_TRACE_ID, hexs[v]) }},
		{"span_id", func(k int) bool { return k >= 5 }, func(s *spec, v int) { s.span = id(v) }, func(v int) *v1.Scan_Filter { return tel.Base(v1.Scan_SPAN_ID, hexs[v]) }},
		{"parent_id", func(k int) bool { return k == 6 }, func(s *spec, v int) { s.parent = id(v) }, func(v int) *v1.Scan_Filter { return tel.Base(v1.Scan_PARENT_SPAN_ID, hexs[v]) }},
		{"level", func(k int) bool { return k == 5 }, func(s *spec, v int) { s.level = word(v) }, func(v int) *v1.Scan_Filter { return tel.Base(v1.Scan_LOGS_LEVEL, word(v)) }},
	}
}

func main() {
	lib.Main("R14", "model_checking", func(r *lib.Run) {
		r.Rule("seven families, each complete in its bounds: filter sets × records that miss up to two properties; attribute lists × attribute filter sets; long attributes that differ only in where the key ends; values with equal checksums; match/miss of every node of a resource/scope/record tree; times × ranges; every field of the schema. States are (message, filter set) pairs")
		r.Assume("several filters of the same property other than attributes have no agreed meaning and are not generated", "filters that no record of the signal can have are not generated; the server never returns data for them")
		ds := dims()

		// 1. every filter set × every record that deviates from the full one in
		// up to two properties, in one message
		for kind := 0; kind < nKinds; kind++ {
			var ks []dim
			for _, d := range ds {
				if d.has(kind) {
					ks = append(ks, d)
				}
			}
			base := func() spec {
				s := spec{time: t0}
				for _, d := range ks {
					d.set(&s, 0)
				}
				return s
			}
			var rs [][]group
			one := func(s spec) {
				s.n = len(rs)
				rs = append(rs, []group{{s, [][]spec{{s}}}})
			}
			one(base())
			for i, a := range ks {
				for _, v := range []int{-1, 1} {
					s := base()
					a.set(&s, v)
					one(s)
					for _, b := range ks[i+1:] {
						for _, w := range []int{-1, 1} {
							t := base()
							a.set(&t, v)
							b.set(&t, w)
							one(t)
						}
					}
				}
			}
			one(spec{time: t0})
			sub := subj(kindNames[kind], message(kind, rs...))
			before := proto.Clone(sub.d)
			var sets [][]*v1.Scan_Filter
			var names []string
			var rec func(i int, fs []*v1.Scan_Filter, n string)
			size := lib.Pick(r, 4, 6)
			rec = func(i int, fs []*v1.Scan_Filter, n string) {
				if i == len(ks) {
					sets = append(sets, fs)
					names = append(names, n)
					return
				}
				rec(i+1, fs, n)
				if len(fs) == size {
					return
				}
				for v := 0; v < 3; v++ {
					if len(fs) > 1 && v == 2 && r.Quick() {
						continue
					}
					rec(i+1, append(fs[:len(fs):len(fs)], ks[i].f(v)), fmt.Sprintf("%s %s=%d", n, ks[i].name, v))
				}
			}
			rec(0, nil, kindNames[kind]+":")
			r.Sample(names[len(names)-1])
			r.Parallel(len(sets), 8, func(i int) {
				r.State(names[i])
				r.Trace()
				r.Transitions(len(sub.rs))
				r.Case(names[i], nil, func() error { return sub.check(0, full, sets[i]...) })
				if len(sets[i]) == 2 {
					// the order of filters, and saying one twice, change nothing
					r.Case(names[i]+" swapped", nil, func() error { return sub.check(0, full, sets[i][1], sets[i][0], sets[i][1]) })
				}
			})
			r.Case("unchanged "+kindNames[kind], nil, func() error {
				if !proto.Equal(before, sub.d) {
					return errors.New("filtering changed its input")
				}
				return nil
			})
			if r.Expired() {
				return
			}
		}

		// 2. attributes
		var kvs []*commonv1.KeyValue
		words := []string{"", "a", "b", "ab"}
		for _, k := range words {
			for _, v := range words {
				kvs = append(kvs, &commonv1.KeyValue{Key: k, Value: tel.Str(v)})
			}
		}
		kvs = append(kvs, &commonv1.KeyValue{Key: "a"}, &commonv1.KeyValue{Key: "a", Value: tel.Int(7)}, &commonv1.KeyValue{Key: "b", Value: &commonv1.AnyValue{}},
			&commonv1.KeyValue{Key: "a", Value: &commonv1.AnyValue{Value: &commonv1.AnyValue_BytesValue{BytesValue: []byte("b")}}})
		lists := [][]*commonv1.KeyValue{nil}
		for _, a := range kvs {
			lists = append(lists, []*commonv1.KeyValue{a})
			for _, b := range kvs {
				lists = append(lists, []*commonv1.KeyValue{a, b})
			}
		}
		if !r.Quick() {
			for i, a := range kvs {
				for j, b := range kvs {
					for k, c := range kvs {
						if (i+j+k)%3 == 0 {
							lists = append(lists, []*commonv1.KeyValue{a, b, c})
						}
					}
				}
			}
		}
		for pi, place := range []v1.Scan_AttributeProp{v1.Scan_RESOURCE_ATTRIBUTES, v1.Scan_SCOPE_ATTRIBUTES, v1.Scan_ATTRIBUTES} {
			for _, kind := range []int{0, 1, 2, 3, 4, 5, 6} {
				if pi < 2 && kind > 0 && kind < 5 {
					continue
				}
				var rs [][]group
				for i, l := range lists {
					s := spec{time: t0, n: i}
					// the same words are in the other places
					s.res, s.sc, s.attrs = tel.KV("a", "ab"), tel.KV("b", "a"), tel.KV("ab", "b")
					switch place {
					case v1.Scan_RESOURCE_ATTRIBUTES:
						s.res = l
					case v1.Scan_SCOPE_ATTRIBUTES:
						s.sc = l
					default:
						s.attrs = l
					}
					rs = append(rs, []group{{s, [][]spec{{s}}}})
				}
				sub := subj(fmt.Sprint(kindNames[kind], place), message(kind, rs...))
				var sets [][]*v1.Scan_Filter
				var names []string
				str := kvs[:16]
				for i, a := range str {
					fa := tel.Attr(place, a.Key, a.Value.GetStringValue())
					sets = append(sets, []*v1.Scan_Filter{fa})
					names = append(names, fmt.Sprintf("%s %s=%q", sub.name, a.Key, a.Value.GetStringValue()))
					for _, b := range str[i:] {
						sets = append(sets, []*v1.Scan_Filter{fa, tel.Attr(place, b.Key, b.Value.GetStringValue())})
						names = append(names, fmt.Sprintf("%s %s=%q %s=%q", sub.name, a.Key, a.Value.GetStringValue(), b.Key, b.Value.GetStringValue()))
					}
				}
				r.Parallel(len(sets), 8, func(i int) {
					r.State(names[i])
					r.Trace()
					r.Transitions(len(sub.rs))
					r.Case(names[i], nil, func() error { return sub.check(0, full, sets[i]...) })
				})
			}
		}

		// 2b. the same long text cut into key and value at different places
		long := strings.Repeat("a", 1<<16+300)
		cuts := []int{0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537, len(long) - 1, len(long)}
		for _, place := range []v1.Scan_AttributeProp{v1.Scan_RESOURCE_ATTRIBUTES, v1.Scan_SCOPE_ATTRIBUTES, v1.Scan_ATTRIBUTES} {
			for kind := 0; kind < nKinds; kind++ {
				var rs [][]group
				for i, c := range cuts {
					s := spec{time: t0, n: i}
					l := tel.KV(long[:c], long[c:])
					switch place {
					case v1.Scan_RESOURCE_ATTRIBUTES:
						s.res = l
					case v1.Scan_SCOPE_ATTRIBUTES:
						s.sc = l
					default:
						s.attrs = l
					}
					rs = append(rs, []group{{s, [][]spec{{s}}}})
				}
				sub := subj(fmt.Sprint("long ", kindNames[kind], place), message(kind, rs...))
				r.Parallel(len(cuts), 8, func(i int) {
					key := fmt.Sprintf("%s cut at %d", sub.name, cuts[i])
					r.State(key)
					r.Trace()
					r.Transitions(len(sub.rs))
					r.Case(key, nil, func() error { return sub.check(0, full, tel.Attr(place, long[:cuts[i]], long[cuts[i]:])) })
				})
			}
		}

		// 2c. values that differ and have the same checksum
		{
			u, v := lib.Collide("")
			var size [8]byte
			size[7] = 1
			au, av := lib.Collide(string(size[:]) + "k")
			bu, bv := lib.Collide("k")
			for kind := 0; kind < nKinds; kind++ {
				for _, p := range [][2]string{{u, v}, {au, av}, {bu, bv}} {
					for _, d := range ds {
						if !d.has(kind) {
							continue
						}
						set := func(s *spec, t string) {
							switch d.name {
							case "resource_schema":
								s.resSchema = t
							case "resource_attr":
								s.res = tel.KV("k", t)
							case "scope_schema":
								s.scSchema = t
							case "scope_name":
								s.scName = t
							case "scope_version":
								s.scVersion = t
							case "scope_attr":
								s.sc = tel.KV("k", t)
							case "name":
								s.name = t
							case "attr":
								s.attrs = tel.KV("k", t)
							case "trace_id":
								s.trace = []byte(t)
							case "span_id":
								s.span = []byte(t)
							case "parent_id":
								s.parent = []byte(t)
							case "level":
								s.level = t
							}
						}
						var rs [][]group
						for i, t := range p {
							s := spec{time: t0, n: i + 1}
							set(&s, t)
							rs = append(rs, []group{{s, [][]spec{{s}}}})
						}
						sub := subj(kindNames[kind], message(kind, rs...))
						for i, t := range p {
							f := d.f(0)
							switch e := f.Value.(type) {
							case *v1.Scan_Filter_Base:
								e.Base.Value = t
								if strings.HasSuffix(d.name, "_id") {
									e.Base.Value = hex.EncodeToString([]byte(t))
								}
							case *v1.Scan_Filter_Attr:
								e.Attr.Value = t
							}
							key := fmt.Sprintf("same checksum %s %s %d of %q", kindNames[kind], d.name, i, p)
							r.State(key)
							r.Trace()
							r.Transitions(2)
							r.Case(key, nil, func() error { return sub.check(0, full, f) })
						}
					}
				}
			}
		}

		// 3. match and miss of every node of a tree
		fs := []*v1.Scan_Filter{tel.Base(v1.Scan_RESOURCE_SCHEMA, "in"), tel.Base(v1.Scan_SCOPE_NAME, "in"), tel.Attr(v1.Scan_ATTRIBUTES, "k", "in")}
		for kind := 0; kind < nKinds; kind++ {
			// two resources of two scopes of two records: 14 nodes, or with a
			// metric one resource of two scopes of two metrics of two points
			bits := 14
			if kind < 5 {
				bits = lib.Pick(r, 15, 15)
			}
			r.Parallel(1<<bits, 8, func(m int) {
				bit := func(i int) string {
					if m>>i&1 == 1 {
						return "in"
					}
					return "out"
				}
				n := 0
				next := func() string { n++; return bit(n - 1) }
				var rs [][]group
				x := 0
				nr := 2
				if kind < 5 {
					nr = 1
				}
				for i := 0; i < nr; i++ {
					var gs []group
					a := next()
					for j := 0; j < 2; j++ {
						g := group{s: spec{resSchema: a, scName: next(), scVersion: fmt.Sprint(j), res: tel.KV("i", fmt.Sprint(i))}}
						for k := 0; k < 2; k++ {
							var name string
							if kind < 5 {
								name = next()
							}
							var ps []spec
							pn := 1
							if kind < 5 {
								pn = 2
								if bits == 13 && j == 1 {
									pn = 1
								}
							}
							for p := 0; p < pn; p++ {
								x++
								ps = append(ps, spec{name: name, time: t0, n: x, attrs: tel.KV("k", next())})
							}
							g.ms = append(g.ms, ps)
						}
						gs = append(gs, g)
					}
					rs = append(rs, gs)
				}
				f := fs
				if kind < 5 {
					f = append(f[:3:3], tel.Base(v1.Scan_NAME, "in"))
				}
				key := fmt.Sprintf("tree %s %x", kindNames[kind], m)
				r.State(key)
				r.Trace()
				r.Transitions(8)
				r.Case(key, nil, func() error { return subj(key, message(kind, rs...)).check(0, full, f...) })
			})
		}

		// 4. times, through the visitor and through the script engine
		times := []uint64{0, 1, t0 - 1, t0, t0 + 1, t0 + 999, t0 + 1_000_000, t0 + 900_000_000_000 - 1, t0 + 900_000_000_000, full/2 - 1, full / 2, full/2 + 1, full - 1_000_000_001}
		// times that no timestamp of telemetry can hold, before and after all of them
		before := []time.Time{time.Unix(0, -1), time.Unix(-1, 0), time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1677, 9, 21, 0, 0, 0, 0, time.UTC), time.Date(1600, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)}
		after := []time.Time{time.Date(2555, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 23, 59, 59, 999_999_999, time.UTC)}
		for kind := 0; kind < nKinds; kind++ {
			var one []spec
			for i, t := range times {
				one = append(one, spec{time: t, n: i, name: "m"})
			}
			sub := subj("times "+kindNames[kind], message(kind, []group{{ms: [][]spec{one}}}))
			for _, a := range times {
				for _, b := range times {
					key := fmt.Sprintf("%s [%d,%d)", sub.name, a, b)
					r.State(key)
					r.Trace()
					r.Transitions(len(times))
					r.Case(key, nil, func() error { return sub.check(a, b) })
					r.Case(key+" js", nil, func() error {
						return script(sub, &v1.Scan{Scope: tel.Kind(sub.d), TimeRange: &v1.Scan_TimeRange{Start: ns(a), End: ns(b)}}, a, b)
					})
				}
				for _, o := range before {
					key := fmt.Sprintf("%s [%s,%d) js", sub.name, o, a)
					r.State(key)
					r.Trace()
					r.Transitions(len(times))
					r.Case(key, nil, func() error {
						return script(sub, &v1.Scan{Scope: tel.Kind(sub.d), TimeRange: &v1.Scan_TimeRange{Start: timestamppb.New(o), End: ns(a)}}, 0, a)
					})
				}
				for _, o := range after {
					key := fmt.Sprintf("%s [%d,%s) js", sub.name, a, o)
					r.State(key)
					r.Trace()
					r.Transitions(len(times))
					r.Case(key, nil, func() error {
						return script(sub, &v1.Scan{Scope: tel.Kind(sub.d), TimeRange: &v1.Scan_TimeRange{Start: ns(a), End: timestamppb.New(o)}}, a, full)
					})
				}
				// instant: the quarter of an hour before the time of the scan
				for _, off := range []time.Duration{-1, 0, time.Nanosecond, time.Second, time.Hour} {
					if a < t0 || a >= full/2-1 {
						continue
					}
					q := &v1.Scan{Scope: tel.Kind(sub.d), Now: ns(a), Filters: []*v1.Scan_Filter{}}
					end := a
					if off >= 0 {
						q.Offset = durationpb.New(off)
						end -= uint64(off)
					}
					key := fmt.Sprintf("%s instant %d offset %s", sub.name, a, off)
					r.State(key)
					r.Case(key+" no filter", nil, func() error { return script(sub, proto.Clone(q).(*v1.Scan), 0, full) })
					if kind != 5 {
						r.Case(key, nil, func() error {
							q := proto.Clone(q).(*v1.Scan)
							q.Filters = append(q.Filters, tel.Base(v1.Scan_NAME, "m"))
							return script(sub, q, end-uint64(15*time.Minute), end, q.Filters...)
						})
						// the clock of the engine when the scan has none
						r.Case(key+" clock", nil, func() error {
							q := proto.Clone(q).(*v1.Scan)
							q.Filters = append(q.Filters, tel.Base(v1.Scan_NAME, "m"))
							q.Now = nil
							return scriptAt(time.Unix(0, int64(a)), sub, q, end-uint64(15*time.Minute), end, q.Filters...)
						})
					}
				}
			}
		}
		r.Case("scan error", nil, func() error {
			boom := errors.New("boom")
			vm := js.New().WithScan(func(*v1.Scan) (*v1.Data, error) { return nil, boom })
			defer vm.Release()
			if _, err := vm.Scan(&v1.Scan{Scope: v1.Scan_METRICS}); !errors.Is(err, boom) {
				return fmt.Errorf("the error of the server becomes %v", err)
			}
			return nil
		})

		// 5. every field of the schema survives
		ps := gen.Paths()
		r.Parallel(len(ps), 8, func(i int) {
			p := ps[i]
			if len(p.Fields) < 2 {
				return
			}
			for v := 0; v < p.Variants(); v++ {
				for _, base := range []string{"alone", "rich"} {
					d := p.Build(v)
					if base == "rich" {
						switch p.Fields[0].Name() {
						case "metrics":
							d = tel.RichMetrics(1, lib.Day0)
						case "logs":
							d = tel.RichLogs(1, lib.Day0)
						default:
							d = tel.RichTraces(1, lib.Day0)
						}
						p.Set(d, v, -1)
					}
					key := fmt.Sprintf("field %s %s#%d", base, p, v)
					r.State(key)
					r.Trace()
					r.Transitions(1)
					r.Case(key, nil, func() error {
						s := subj(key, d)
						if err := s.check(0, full); err != nil {
							return err
						}
						return s.check(0, full, tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "service.name", "a"))
					})
				}
			}
		})
	})
}

func ns(t uint64) *timestamppb.Timestamp {
	return &timestamppb.Timestamp{Seconds: int64(t / 1e9), Nanos: int32(t % 1e9)}
}

func script(s *subject, q *v1.Scan, start, end uint64, fs ...*v1.Scan_Filter) error {
	return scriptAt(time.Unix(0, int64(t0)), s, q, start, end, fs...)
}

func scriptAt(now time.Time, s *subject, q *v1.Scan, start, end uint64, fs ...*v1.Scan_Filter) error {
	var got *v1.Scan
	vm := js.New().WithNow(func() time.Time { return now }).WithScan(func(x *v1.Scan) (*v1.Data, error) {
		got = proto.Clone(x).(*v1.Scan)
		return s.d, nil
	})
	defer vm.Release()
	want := proto.Clone(q)
	out, err := vm.Scan(q)
	if err != nil {
		return err
	}
	if !proto.Equal(want, got) {
		return fmt.Errorf("the server was asked for %v", got)
	}
	if d := tel.Diff(tel.Filter(s.rs, start, end, fs...), tel.Of(out), true); d != "" {
		return fmt.Errorf("%s", d)
	}
	return nil
}

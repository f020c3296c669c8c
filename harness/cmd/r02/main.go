// R02: a scan answers exactly the samples that satisfy all of its filters.
package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/labels"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

var at = lib.Day0.Add(10 * time.Hour)

// A prop is one thing that a filter can ask for.
type prop int

const (
	resSchema prop = iota
	resAttr
	scSchema
	scName
	scVersion
	scAttr
	nameP
	attrP
	traceID
	spanID
	parentID
	level
	nProps
)

var propNames = []string{"resource_schema", "resource_attr", "scope_schema", "scope_name", "scope_version", "scope_attr", "name", "attr", "trace_id", "span_id", "parent_span_id", "level"}

func has(sc v1.Scan_SCOPE, p prop) bool {
	switch p {
	case traceID, spanID:
		return sc != v1.Scan_METRICS
	case parentID:
		return sc == v1.Scan_TRACES
	case level:
		return sc == v1.Scan_LOGS
	case nameP:
		return sc != v1.Scan_LOGS
	}
	return true
}

// value is v for prop p: the same words are used by all of them, so that a
// mix-up of two properties is seen.
func value(p prop, v int) string {
	switch p {
	case traceID, spanID, parentID:
		return []string{"0a0b", "ff00"}[v]
	case resAttr, scAttr, attrP:
		return []string{"one", "two"}[v]
	}
	return []string{"k", "two"}[v]
}

func filter(p prop, v int) *v1.Scan_Filter {
	s := "nowhere"
	if v < 2 {
		s = value(p, v)
	} else if p == traceID || p == spanID || p == parentID {
		s = "eeee"
	}
	switch p {
	case resSchema:
		return tel.Base(v1.Scan_RESOURCE_SCHEMA, s)
	case resAttr:
		return tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "k", s)
	case scSchema:
		return tel.Base(v1.Scan_SCOPE_SCHEMA, s)
	case scName:
		return tel.Base(v1.Scan_SCOPE_NAME, s)
	case scVersion:
		return tel.Base(v1.Scan_SCOPE_VERSION, s)
	case scAttr:
		return tel.Attr(v1.Scan_SCOPE_ATTRIBUTES, "k", s)
	case nameP:
		return tel.Base(v1.Scan_NAME, s)
	case attrP:
		return tel.Attr(v1.Scan_ATTRIBUTES, "k", s)
	case traceID:
		return tel.Base(v1.Scan_TRACE_ID, s)
	case spanID:
		return tel.Base(v1.Scan_SPAN_ID, s)
	case parentID:
		return tel.Base(v1.Scan_PARENT_SPAN_ID, s)
	case level:
		return tel.Base(v1.Scan_LOGS_LEVEL, s)
	}
	panic("prop")
}

// Every sample is a list of leaves, each with a set of labels: label[p] is
// the value of prop p or -1. All leaves of a sample are in a resource of
// their own.
type leaf [nProps]int

func none() (l leaf) {
	for i := range l {
		l[i] = -1
	}
	return
}

func str(l leaf, p prop) string {
	if l[p] < 0 {
		return ""
	}
	return value(p, l[p])
}
func kv(l leaf, p prop) []*commonv1.KeyValue {
	if l[p] < 0 {
		return nil
	}
	return tel.KV("k", value(p, l[p]))
}
func id(l leaf, p prop) []byte {
	if l[p] < 0 {
		return nil
	}
	b, _ := hex.DecodeString(value(p, l[p]))
	return b
}

func build(sc v1.Scan_SCOPE, n int, ls []leaf) *v1.Data {
	ts := uint64(at.UnixNano())
	out := tel.Metrics()
	switch sc {
	case v1.Scan_LOGS:
		out = tel.Logs()
	case v1.Scan_TRACES:
		out = tel.Traces()
	}
	for _, l := range ls {
		res := &resourcev1.Resource{Attributes: kv(l, resAttr)}
		scope := &commonv1.InstrumentationScope{Name: str(l, scName), Version: str(l, scVersion), Attributes: kv(l, scAttr)}
		switch sc {
		case v1.Scan_METRICS:
			// the kinds of metrics take turns
			var m *metricsv1.Metric
			switch n % 5 {
			case 0:
				m = tel.Gauge(str(l, nameP), tel.Num(ts, float64(n)), &metricsv1.NumberDataPoint{TimeUnixNano: ts, Attributes: kv(l, attrP)})
			case 1:
				m = tel.Sum(str(l, nameP), 1, false, &metricsv1.NumberDataPoint{TimeUnixNano: ts, Attributes: kv(l, attrP), Value: &metricsv1.NumberDataPoint_AsInt{AsInt: int64(n)}})
			case 2:
				m = &metricsv1.Metric{Name: str(l, nameP), Data: &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: []*metricsv1.HistogramDataPoint{{TimeUnixNano: ts, Count: uint64(n), Attributes: kv(l, attrP)}}}}}
			case 3:
				m = &metricsv1.Metric{Name: str(l, nameP), Data: &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsv1.ExponentialHistogram{DataPoints: []*metricsv1.ExponentialHistogramDataPoint{{TimeUnixNano: ts, Count: uint64(n), Attributes: kv(l, attrP)}}}}}
			case 4:
				m = &metricsv1.Metric{Name: str(l, nameP), Data: &metricsv1.Metric_Summary{Summary: &metricsv1.Summary{DataPoints: []*metricsv1.SummaryDataPoint{{TimeUnixNano: ts, Count: uint64(n), Attributes: kv(l, attrP)}}}}}
			}
			out.GetMetrics().ResourceMetrics = append(out.GetMetrics().ResourceMetrics, &metricsv1.ResourceMetrics{SchemaUrl: str(l, resSchema), Resource: res,
				ScopeMetrics: []*metricsv1.ScopeMetrics{{SchemaUrl: str(l, scSchema), Scope: scope, Metrics: []*metricsv1.Metric{m}}}})
		case v1.Scan_LOGS:
			out.GetLogs().ResourceLogs = append(out.GetLogs().ResourceLogs, &logsv1.ResourceLogs{SchemaUrl: str(l, resSchema), Resource: res,
				ScopeLogs: []*logsv1.ScopeLogs{{SchemaUrl: str(l, scSchema), Scope: scope, LogRecords: []*logsv1.LogRecord{
					{TimeUnixNano: ts, Body: tel.Int(int64(n)), SeverityText: str(l, level), Attributes: kv(l, attrP), TraceId: id(l, traceID), SpanId: id(l, spanID)}}}}})
		default:
			out.GetTraces().ResourceSpans = append(out.GetTraces().ResourceSpans, &tracev1.ResourceSpans{SchemaUrl: str(l, resSchema), Resource: res,
				ScopeSpans: []*tracev1.ScopeSpans{{SchemaUrl: str(l, scSchema), Scope: scope, Spans: []*tracev1.Span{
					{StartTimeUnixNano: ts, EndTimeUnixNano: ts + uint64(n), Name: str(l, nameP), Attributes: kv(l, attrP), TraceId: id(l, traceID), SpanId: id(l, spanID), ParentSpanId: id(l, parentID)}}}}})
		}
	}
	return out
}

// join puts the leaves of d into the same resource (layout 1), scope (2) or
// metric (3). The leaves must not disagree about what they then share.
func join(d *v1.Data, layout int) *v1.Data {
	m := d.ProtoReflect()
	m = m.Get(m.WhichOneof(m.Descriptor().Oneofs().Get(0))).Message()
	for ; layout > 0; layout-- {
		var list protoreflect.List
		m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
			if f.IsList() && f.Message() != nil {
				list = v.List()
				return false
			}
			return true
		})
		for i := 1; i < list.Len(); i++ {
			proto.Merge(list.Get(0).Message().Interface(), list.Get(i).Message().Interface())
		}
		list.Truncate(1)
		m = list.Get(0).Message()
	}
	return d
}

type sample struct {
	sc   v1.Scan_SCOPE
	ls   []leaf
	data *v1.Data
}

func population() (out []sample) {
	for _, sc := range tel.Scopes {
		var ps []prop
		for p := prop(0); p < nProps; p++ {
			if has(sc, p) {
				ps = append(ps, p)
			}
		}
		add := func(ls ...leaf) {
			n := len(out)
			out = append(out, sample{sc, ls, build(sc, n, ls)})
		}
		add()       // nothing in it
		add(none()) // one leaf without labels
		for _, p := range ps {
			for v := 0; v < 2; v++ {
				l := none()
				l[p] = v
				add(l)
			}
		}
		// all pairs of properties, once in one leaf and once in two
		for i, p := range ps {
			for _, q := range ps[i+1:] {
				l := none()
				l[p], l[q] = 0, 1
				add(l)
				a, b := none(), none()
				a[p], b[q] = 1, 0
				add(a, b)
				for layout := 1; layout <= 3; layout++ {
					if layout == 3 && sc != v1.Scan_METRICS {
						continue
					}
					n := len(out)
					out = append(out, sample{sc, []leaf{a, b}, join(build(sc, n, []leaf{a, b}), layout)})
				}
			}
		}
		// everything
		l := none()
		for _, p := range ps {
			l[p] = 0
		}
		add(l)
		m := none()
		for _, p := range ps {
			m[p] = 1
		}
		add(m)
		add(l, m)
		// all but one
		for _, p := range ps {
			x := l
			x[p] = -1
			add(x)
		}
	}
	return
}

type query struct {
	p prop
	v int
}

func (s sample) match(q query) bool {
	for _, l := range s.ls {
		if l[q.p] == q.v {
			return true
		}
	}
	return false
}

// alike stores messages whose labels are easily confused and asks for each.
// The messages of a family have one property of their own, in each family
// another one.
func alike(r *lib.Run, split int) {
	type one struct {
		sc v1.Scan_SCOPE
		d  *v1.Data
		f  *v1.Scan_Filter
	}
	var all []one
	add := func(sc v1.Scan_SCOPE, p prop, k, v string) {
		n := len(all) + 1
		res := &resourcev1.Resource{}
		scope := &commonv1.InstrumentationScope{}
		lf := none()
		var schema, sschema string
		var attrs []*commonv1.KeyValue
		var name, lvl string
		f := proto.Clone(filter(p, 0)).(*v1.Scan_Filter)
		switch e := f.Value.(type) {
		case *v1.Scan_Filter_Base:
			e.Base.Value = v
		case *v1.Scan_Filter_Attr:
			e.Attr.Key, e.Attr.Value = k, v
		}
		switch p {
		case resSchema:
			schema = v
		case resAttr:
			res.Attributes = tel.KV(k, v)
		case scSchema:
			sschema = v
		case scName:
			scope.Name = v
		case scVersion:
			scope.Version = v
		case scAttr:
			scope.Attributes = tel.KV(k, v)
		case nameP:
			name = v
		case attrP:
			attrs = tel.KV(k, v)
		case level:
			lvl = v
		}
		d := build(sc, n, []leaf{lf})
		switch e := d.Data.(type) {
		case *v1.Data_Metrics:
			rm := e.Metrics.ResourceMetrics[0]
			rm.Resource, rm.SchemaUrl = res, schema
			sm := rm.ScopeMetrics[0]
			sm.Scope, sm.SchemaUrl = scope, sschema
			sm.Metrics = []*metricsv1.Metric{tel.Gauge(name, &metricsv1.NumberDataPoint{TimeUnixNano: uint64(at.UnixNano()), Attributes: attrs, Value: &metricsv1.NumberDataPoint_AsInt{AsInt: int64(n)}})}
		case *v1.Data_Logs:
			rl := e.Logs.ResourceLogs[0]
			rl.Resource, rl.SchemaUrl = res, schema
			sl := rl.ScopeLogs[0]
			sl.Scope, sl.SchemaUrl = scope, sschema
			sl.LogRecords[0].Attributes, sl.LogRecords[0].SeverityText = attrs, lvl
		case *v1.Data_Traces:
			rt := e.Traces.ResourceSpans[0]
			rt.Resource, rt.SchemaUrl = res, schema
			st := rt.ScopeSpans[0]
			st.Scope, st.SchemaUrl = scope, sschema
			st.Spans[0].Attributes, st.Spans[0].Name = attrs, name
		}
		all = append(all, one{sc, d, f})
	}
	for _, sc := range tel.Scopes {
		for _, p := range []prop{resSchema, resAttr, scSchema, scName, scVersion, scAttr, nameP, attrP, level} {
			if !has(sc, p) {
				continue
			}
			// the same checksum
			f := filter(p, 0)
			l := labels.NewLabel().WithResource(v1.RESOURCE(sc))
			k := ""
			if a := f.GetAttr(); a != nil {
				k = a.Key
				l.WithPrefix(v1.PREFIX(a.Prop)).WithKey(k).WithValue("-")
			} else {
				l.WithPrefix(v1.PREFIX(f.GetBase().Prop)).WithKey("-")
			}
			u, v := lib.Collide(strings.TrimSuffix(l.String(), "-"))
			l.Release()
			add(sc, p, k, u)
			add(sc, p, k, v)
			// the letters that have a meaning in the text of a label
			words := []string{}
			// long texts which end differently
			long := strings.Repeat("long ", 7000)
			add(sc, p, k, long+"1")
			add(sc, p, k, long+"2")
			for _, a := range []string{"a", "=", "\\", ":", "A"} {
				words = append(words, a)
				for _, b := range []string{"a", "=", "\\", ":"} {
					words = append(words, a+b)
					if a != "A" {
						words = append(words, a+b+"=", a+b+"\\")
					}
				}
			}
			if f.GetAttr() == nil {
				for _, w := range words {
					add(sc, p, "", w)
				}
				continue
			}
			for i, k := range append([]string{""}, words...) {
				for j, v := range words {
					// longer ones on one side only
					if n := len(k) + len(v); n <= 3 || n == 4 && (!r.Quick() || (i+j)%8 == 0) {
						add(sc, p, k, v)
					}
				}
			}
		}
	}
	s, err := stack.Open(r.Scratch("alike"), true)
	if err != nil {
		panic(err)
	}
	for i, m := range all {
		err := s.Export(tel.Clone(m.d))
		if err == nil && ((i+1)%split == 0 || i == len(all)-1) {
			err = s.Flush()
		}
		if err != nil {
			r.Fail("labels that are alike", nil, err)
			return
		}
	}
	r.Note(fmt.Sprintf("labels that are alike, %d in a flush", split), len(all))
	r.Parallel(len(all), 12, func(i int) {
		m := all[i]
		key := fmt.Sprintf("alike %d: %v %v", split, m.sc, m.f)
		r.State(key)
		r.Trace()
		r.Transitions(1)
		r.Case(key, key, func() error {
			want := tel.Flat{}
			want.Add(tel.Clone(m.d))
			res, err := s.Scan(tel.Range(m.sc, at, at.Add(time.Minute), m.f))
			if err != nil {
				return err
			}
			if d := tel.Diff(want, tel.Of(res), false); d != "" {
				return fmt.Errorf("%s", d)
			}
			return nil
		})
	})
	if err := s.Close(); err != nil {
		r.Fail("close", nil, err)
	}
}

func main() {
	lib.Main("R02", "model_checking", func(r *lib.Run) {
		lib.FastParquet()
		r.Rule("a population with every property, value and pair of properties (in one record and in two) of every signal; every scan with up to 3 filters over {2 stored values, 1 unknown value} of every property; and for every property messages whose labels consist of the letters that separate parts of a label, or have equal checksums")
		pop := population()
		r.Note("samples_stored", len(pop))
		open := func(firstLabel uint64, split int) *stack.Stack {
			dir := r.Scratch("s")
			s, err := stack.Open(dir, true)
			if err != nil {
				panic(err)
			}
			if firstLabel > 0 {
				// a dictionary that already holds that many labels
				if err := s.CloseParts(); err != nil {
					panic(err)
				}
				var b [8]byte
				binary.BigEndian.PutUint64(b[:], firstLabel)
				if err := s.DB.Update(func(txn *badger.Txn) error {
					return txn.Set(append(append([]byte{}, stack.Prefix...), "seq"...), b[:])
				}); err != nil {
					panic(err)
				}
				if err := s.OpenParts(); err != nil {
					panic(err)
				}
			}
			for i, m := range pop {
				if err := s.Export(tel.Clone(m.data)); err != nil {
					panic(err)
				}
				if (i+1)%split == 0 {
					if err := s.Flush(); err != nil {
						panic(err)
					}
				}
			}
			if err := s.Flush(); err != nil {
				panic(err)
			}
			return s
		}
		stacks := []struct {
			name string
			s    *stack.Stack
		}{
			{"one shard", open(0, 1000)},
			{"labels on both sides of a shard boundary", open(1<<20-9, 97)},
		}
		check := func(name string, s *stack.Stack, sc v1.Scan_SCOPE, qs []query) {
			var fs []*v1.Scan_Filter
			var ns []string
			for _, q := range qs {
				fs = append(fs, filter(q.p, q.v))
				ns = append(ns, fmt.Sprintf("%s=%d", propNames[q.p], q.v))
			}
			key := fmt.Sprintf("%s %s %s", name, sc, strings.Join(ns, "&"))
			r.State(fmt.Sprint(sc, ns))
			r.Trace()
			r.Transitions(len(qs))
			r.Case(key, key, func() error {
				want := tel.Flat{}
				for _, m := range pop {
					if m.sc != sc {
						continue
					}
					ok := true
					for _, q := range qs {
						ok = ok && m.match(q)
					}
					if ok {
						want.Add(tel.Clone(m.data))
					}
				}
				res, err := s.Scan(tel.Range(sc, at, at.Add(time.Minute), fs...))
				if err != nil {
					return err
				}
				if res.GetData() != nil && tel.Kind(res) != sc {
					return fmt.Errorf("answer is %T", res.GetData())
				}
				if d := tel.Diff(want, tel.Of(res), false); d != "" {
					return fmt.Errorf("%s", d)
				}
				return nil
			})
		}
		var jobs []func()
		for d := 0; d <= 3; d++ {
			for si, st := range stacks {
				for _, sc := range tel.Scopes {
					var qs []query
					for p := prop(0); p < nProps; p++ {
						// a property that the signal does not have is asked for, too
						for v := 0; v < 3; v++ {
							if !has(sc, p) && v > 0 {
								continue
							}
							qs = append(qs, query{p, v})
						}
					}
					var rec func(cur []query, from int)
					rec = func(cur []query, from int) {
						if len(cur) == d {
							c := append([]query{}, cur...)
							jobs = append(jobs, func() { check(st.name, st.s, sc, c) })
							return
						}
						for i := from; i < len(qs); i++ {
							if d == 3 && r.Quick() && si == 0 {
								continue
							}
							rec(append(cur, qs[i]), i)
						}
					}
					rec(nil, 0)
				}
			}
		}
		r.Note("scans", len(jobs))
		r.Sample(map[string]any{"sample": pop[30].data.String()})
		r.Parallel(len(jobs), 12, func(i int) { jobs[i]() })
		alike(r, 1<<20)
		alike(r, 50)
	})
}

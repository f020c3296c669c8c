// Package tel is an independent reading of telemetry messages: what a message
// says, regardless of how it is grouped.
package tel

import (
	"fmt"
	"sort"
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

// Flat maps the identity of every series (resource, scope, metric) to its
// data points in order. An identity without points has an empty list.
type Flat map[string][]string

func enc(m proto.Message) string {
	if m == nil || !m.ProtoReflect().IsValid() {
		return "-"
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return "ERR " + err.Error()
	}
	return fmt.Sprintf("<%x>", b)
}

// rid identifies a resource. An absent resource and an empty one say the
// same, so they are not told apart.
func rid(schema string, r *resourcev1.Resource) string {
	if r == nil {
		r = &resourcev1.Resource{}
	}
	return fmt.Sprintf("R%q%s", schema, enc(r))
}

func sid(schema string, s *commonv1.InstrumentationScope) string {
	if s == nil {
		s = &commonv1.InstrumentationScope{}
	}
	return fmt.Sprintf("S%q%s", schema, enc(s))
}

// MetricPoints is the identity of m with its points.
func MetricPoints(m *metricsv1.Metric) (id string, points []string) {
	c := proto.Clone(m).(*metricsv1.Metric)
	switch e := c.Data.(type) {
	case *metricsv1.Metric_Gauge:
		for _, p := range e.Gauge.GetDataPoints() {
			points = append(points, enc(p))
		}
		c.Data = &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{}}
	case *metricsv1.Metric_Sum:
		for _, p := range e.Sum.GetDataPoints() {
			points = append(points, enc(p))
		}
		c.Data = &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{AggregationTemporality: e.Sum.GetAggregationTemporality(), IsMonotonic: e.Sum.GetIsMonotonic()}}
	case *metricsv1.Metric_Histogram:
		for _, p := range e.Histogram.GetDataPoints() {
			points = append(points, enc(p))
		}
		c.Data = &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{AggregationTemporality: e.Histogram.GetAggregationTemporality()}}
	case *metricsv1.Metric_ExponentialHistogram:
		for _, p := range e.ExponentialHistogram.GetDataPoints() {
			points = append(points, enc(p))
		}
		c.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsv1.ExponentialHistogram{AggregationTemporality: e.ExponentialHistogram.GetAggregationTemporality()}}
	case *metricsv1.Metric_Summary:
		for _, p := range e.Summary.GetDataPoints() {
			points = append(points, enc(p))
		}
		c.Data = &metricsv1.Metric_Summary{Summary: &metricsv1.Summary{}}
	}
	return "M" + enc(c), points
}

// Add adds what d says to f.
func (f Flat) Add(d *v1.Data) {
	touch := func(id string, ps ...string) {
		f[id] = append(f[id], ps...)
	}
	switch e := d.GetData().(type) {
	case *v1.Data_Metrics:
		for _, r := range e.Metrics.GetResourceMetrics() {
			a := rid(r.GetSchemaUrl(), r.GetResource())
			touch("m" + a)
			for _, s := range r.GetScopeMetrics() {
				b := sid(s.GetSchemaUrl(), s.GetScope())
				touch("m" + a + b)
				for _, m := range s.GetMetrics() {
					c, ps := MetricPoints(m)
					touch("m"+a+b+c, ps...)
				}
			}
		}
	case *v1.Data_Logs:
		for _, r := range e.Logs.GetResourceLogs() {
			a := rid(r.GetSchemaUrl(), r.GetResource())
			touch("l" + a)
			for _, s := range r.GetScopeLogs() {
				b := sid(s.GetSchemaUrl(), s.GetScope())
				touch("l" + a + b)
				for _, m := range s.GetLogRecords() {
					touch("l"+a+b, enc(m))
				}
			}
		}
	case *v1.Data_Traces:
		for _, r := range e.Traces.GetResourceSpans() {
			a := rid(r.GetSchemaUrl(), r.GetResource())
			touch("t" + a)
			for _, s := range r.GetScopeSpans() {
				b := sid(s.GetSchemaUrl(), s.GetScope())
				touch("t" + a + b)
				for _, m := range s.GetSpans() {
					touch("t"+a+b, enc(m))
				}
			}
		}
	}
}

// Twice tells whether a resource, a scope of a resource or a metric of a scope
// is in two places of d.
func Twice(d *v1.Data) bool {
	seen := map[string]bool{}
	twice := false
	at := func(id string) {
		twice = twice || seen[id]
		seen[id] = true
	}
	switch e := d.GetData().(type) {
	case *v1.Data_Metrics:
		for _, r := range e.Metrics.GetResourceMetrics() {
			a := rid(r.GetSchemaUrl(), r.GetResource())
			at(a)
			for _, s := range r.GetScopeMetrics() {
				b := sid(s.GetSchemaUrl(), s.GetScope())
				at(a + b)
				for _, m := range s.GetMetrics() {
					c, _ := MetricPoints(m)
					at(a + b + c)
				}
			}
		}
	case *v1.Data_Logs:
		for _, r := range e.Logs.GetResourceLogs() {
			a := rid(r.GetSchemaUrl(), r.GetResource())
			at(a)
			for _, s := range r.GetScopeLogs() {
				at(a + sid(s.GetSchemaUrl(), s.GetScope()))
			}
		}
	case *v1.Data_Traces:
		for _, r := range e.Traces.GetResourceSpans() {
			a := rid(r.GetSchemaUrl(), r.GetResource())
			at(a)
			for _, s := range r.GetScopeSpans() {
				at(a + sid(s.GetSchemaUrl(), s.GetScope()))
			}
		}
	}
	return twice
}

// Forms tells which of the two ways to say "no resource" or "no scope" (1:
// absent, 2: empty) are in d.
func Forms(d *v1.Data) (n int) {
	at := func(m proto.Message) {
		switch {
		case !m.ProtoReflect().IsValid():
			n |= 1
		case proto.Size(m) == 0:
			n |= 2
		}
	}
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		at(r.GetResource())
		for _, s := range r.GetScopeMetrics() {
			at(s.GetScope())
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		at(r.GetResource())
		for _, s := range r.GetScopeLogs() {
			at(s.GetScope())
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		at(r.GetResource())
		for _, s := range r.GetScopeSpans() {
			at(s.GetScope())
		}
	}
	return
}

// Of flattens messages in the given order.
func Of(ds ...*v1.Data) Flat {
	f := Flat{}
	for _, d := range ds {
		f.Add(d)
	}
	return f
}

// Diff describes how got differs from want, or is "". ordered tells whether
// the order of the points in a series counts.
func Diff(want, got Flat, ordered bool) string {
	var out []string
	keys := map[string]bool{}
	for k := range want {
		keys[k] = true
	}
	for k := range got {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, okw := want[k]
		g, okg := got[k]
		switch {
		case !okw:
			out = append(out, "unexpected "+k+": "+strings.Join(g, ","))
			continue
		case !okg:
			out = append(out, "missing "+k+": "+strings.Join(w, ","))
			continue
		}
		if !ordered {
			w = append([]string{}, w...)
			g = append([]string{}, g...)
			sort.Strings(w)
			sort.Strings(g)
		}
		if strings.Join(w, ",") != strings.Join(g, ",") {
			out = append(out, fmt.Sprintf("%s: want %v got %v", k, w, g))
		}
	}
	if len(out) > 4 {
		out = append(out[:4], "...")
	}
	return strings.Join(out, "; ")
}

// KV makes string attributes from k, v, k, v...
func KV(kv ...string) (o []*commonv1.KeyValue) {
	for i := 0; i+1 < len(kv); i += 2 {
		o = append(o, &commonv1.KeyValue{Key: kv[i], Value: Str(kv[i+1])})
	}
	return
}

func Str(s string) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: s}}
}

func Int(i int64) *commonv1.AnyValue {
	return &commonv1.AnyValue{Value: &commonv1.AnyValue_IntValue{IntValue: i}}
}

func Num(ts uint64, v float64, kv ...string) *metricsv1.NumberDataPoint {
	return &metricsv1.NumberDataPoint{TimeUnixNano: ts, Attributes: KV(kv...), Value: &metricsv1.NumberDataPoint_AsDouble{AsDouble: v}}
}

func Gauge(name string, ps ...*metricsv1.NumberDataPoint) *metricsv1.Metric {
	return &metricsv1.Metric{Name: name, Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: ps}}}
}

func Sum(name string, t metricsv1.AggregationTemporality, mono bool, ps ...*metricsv1.NumberDataPoint) *metricsv1.Metric {
	return &metricsv1.Metric{Name: name, Data: &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: ps, AggregationTemporality: t, IsMonotonic: mono}}}
}

func Res(kv ...string) *resourcev1.Resource { return &resourcev1.Resource{Attributes: KV(kv...)} }

func Scope(name, version string, kv ...string) *commonv1.InstrumentationScope {
	return &commonv1.InstrumentationScope{Name: name, Version: version, Attributes: KV(kv...)}
}

func Metrics(rm ...*metricsv1.ResourceMetrics) *v1.Data {
	return &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{ResourceMetrics: rm}}}
}

func Logs(rm ...*logsv1.ResourceLogs) *v1.Data {
	return &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{ResourceLogs: rm}}}
}

func Traces(rm ...*tracev1.ResourceSpans) *v1.Data {
	return &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{ResourceSpans: rm}}}
}

// One is a message of one resource, one scope and one metric.
func One(res *resourcev1.Resource, sc *commonv1.InstrumentationScope, ms ...*metricsv1.Metric) *v1.Data {
	return Metrics(&metricsv1.ResourceMetrics{Resource: res, ScopeMetrics: []*metricsv1.ScopeMetrics{{Scope: sc, Metrics: ms}}})
}

func OneLog(res *resourcev1.Resource, sc *commonv1.InstrumentationScope, ms ...*logsv1.LogRecord) *v1.Data {
	return Logs(&logsv1.ResourceLogs{Resource: res, ScopeLogs: []*logsv1.ScopeLogs{{Scope: sc, LogRecords: ms}}})
}

func OneSpan(res *resourcev1.Resource, sc *commonv1.InstrumentationScope, ms ...*tracev1.Span) *v1.Data {
	return Traces(&tracev1.ResourceSpans{Resource: res, ScopeSpans: []*tracev1.ScopeSpans{{Scope: sc, Spans: ms}}})
}

// Kind is 1 for metrics, 2 for traces, 3 for logs as in the wire format.
func Kind(d *v1.Data) v1.Scan_SCOPE {
	switch d.GetData().(type) {
	case *v1.Data_Metrics:
		return v1.Scan_METRICS
	case *v1.Data_Traces:
		return v1.Scan_TRACES
	case *v1.Data_Logs:
		return v1.Scan_LOGS
	}
	return 0
}

func Clone(d *v1.Data) *v1.Data { return proto.Clone(d).(*v1.Data) }

package tel

import (
	"encoding/hex"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/proto"
)

// Record is one data point, log record or span with all that it is under.
type Record struct {
	Kind      byte
	ResSchema string
	Res       *resourcev1.Resource
	ScSchema  string
	Sc        *commonv1.InstrumentationScope
	Metric    string // identity of the metric
	Name      string
	Level     string
	Time      uint64
	Attrs     []*commonv1.KeyValue
	Trace     []byte
	Span      []byte
	Parent    []byte
	Enc       string
}

type point interface {
	proto.Message
	GetTimeUnixNano() uint64
	GetAttributes() []*commonv1.KeyValue
}

func points(m *metricsv1.Metric) (ps []point) {
	switch e := m.Data.(type) {
	case *metricsv1.Metric_Gauge:
		for _, p := range e.Gauge.GetDataPoints() {
			ps = append(ps, p)
		}
	case *metricsv1.Metric_Sum:
		for _, p := range e.Sum.GetDataPoints() {
			ps = append(ps, p)
		}
	case *metricsv1.Metric_Histogram:
		for _, p := range e.Histogram.GetDataPoints() {
			ps = append(ps, p)
		}
	case *metricsv1.Metric_ExponentialHistogram:
		for _, p := range e.ExponentialHistogram.GetDataPoints() {
			ps = append(ps, p)
		}
	case *metricsv1.Metric_Summary:
		for _, p := range e.Summary.GetDataPoints() {
			ps = append(ps, p)
		}
	}
	return
}

// Records lists all of d.
func Records(d *v1.Data) (out []*Record) {
	for _, r := range d.GetMetrics().GetResourceMetrics() {
		for _, s := range r.GetScopeMetrics() {
			for _, m := range s.GetMetrics() {
				id, _ := MetricPoints(m)
				for _, p := range points(m) {
					out = append(out, &Record{Kind: 'm', ResSchema: r.GetSchemaUrl(), Res: r.GetResource(), ScSchema: s.GetSchemaUrl(), Sc: s.GetScope(),
						Metric: id, Name: m.GetName(), Time: p.GetTimeUnixNano(), Attrs: p.GetAttributes(), Enc: enc(p)})
				}
			}
		}
	}
	for _, r := range d.GetLogs().GetResourceLogs() {
		for _, s := range r.GetScopeLogs() {
			for _, p := range s.GetLogRecords() {
				out = append(out, &Record{Kind: 'l', ResSchema: r.GetSchemaUrl(), Res: r.GetResource(), ScSchema: s.GetSchemaUrl(), Sc: s.GetScope(),
					Level: p.GetSeverityText(), Time: p.GetTimeUnixNano(), Attrs: p.GetAttributes(), Trace: p.GetTraceId(), Span: p.GetSpanId(), Enc: enc(p)})
			}
		}
	}
	for _, r := range d.GetTraces().GetResourceSpans() {
		for _, s := range r.GetScopeSpans() {
			for _, p := range s.GetSpans() {
				out = append(out, &Record{Kind: 't', ResSchema: r.GetSchemaUrl(), Res: r.GetResource(), ScSchema: s.GetSchemaUrl(), Sc: s.GetScope(),
					Name: p.GetName(), Time: p.GetStartTimeUnixNano(), Attrs: p.GetAttributes(), Trace: p.GetTraceId(), Span: p.GetSpanId(), Parent: p.GetParentSpanId(), Enc: enc(p)})
			}
		}
	}
	return
}

func hasAttr(kv []*commonv1.KeyValue, k, v string) bool {
	for _, a := range kv {
		if s, ok := a.GetValue().GetValue().(*commonv1.AnyValue_StringValue); ok && a.GetKey() == k && s.StringValue == v {
			return true
		}
	}
	return false
}

// Match tells whether r satisfies f.
func (r *Record) Match(f *v1.Scan_Filter) bool {
	switch e := f.Value.(type) {
	case *v1.Scan_Filter_Base:
		v := e.Base.Value
		switch e.Base.Prop {
		case v1.Scan_RESOURCE_SCHEMA:
			return r.ResSchema == v
		case v1.Scan_SCOPE_SCHEMA:
			return r.ScSchema == v
		case v1.Scan_SCOPE_NAME:
			return r.Sc.GetName() == v
		case v1.Scan_SCOPE_VERSION:
			return r.Sc.GetVersion() == v
		case v1.Scan_NAME:
			return r.Name == v
		case v1.Scan_LOGS_LEVEL:
			return r.Level == v
		case v1.Scan_TRACE_ID:
			return hex.EncodeToString(r.Trace) == v
		case v1.Scan_SPAN_ID:
			return hex.EncodeToString(r.Span) == v
		case v1.Scan_PARENT_SPAN_ID:
			return hex.EncodeToString(r.Parent) == v
		}
	case *v1.Scan_Filter_Attr:
		switch e.Attr.Prop {
		case v1.Scan_RESOURCE_ATTRIBUTES:
			return hasAttr(r.Res.GetAttributes(), e.Attr.Key, e.Attr.Value)
		case v1.Scan_SCOPE_ATTRIBUTES:
			return hasAttr(r.Sc.GetAttributes(), e.Attr.Key, e.Attr.Value)
		case v1.Scan_ATTRIBUTES:
			return hasAttr(r.Attrs, e.Attr.Key, e.Attr.Value)
		}
	}
	return true
}

// Filter is what remains of the records rs: those in [start,end) that satisfy
// every filter.
func Filter(rs []*Record, start, end uint64, fs ...*v1.Scan_Filter) Flat {
	f := Flat{}
next:
	for _, r := range rs {
		if r.Time < start || r.Time >= end {
			continue
		}
		for _, x := range fs {
			if !r.Match(x) {
				continue next
			}
		}
		a := string(r.Kind) + rid(r.ResSchema, r.Res)
		b := a + sid(r.ScSchema, r.Sc)
		for _, k := range []string{a, b} {
			if _, ok := f[k]; !ok {
				f[k] = nil
			}
		}
		f[b+r.Metric] = append(f[b+r.Metric], r.Enc)
	}
	return f
}

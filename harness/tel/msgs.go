package tel

import (
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// Rich messages: every kind of metric, record and span field in use. n keeps
// the content of messages apart, at is the time of all their points.

func RichMetrics(n int, at time.Time) *v1.Data {
	ts := uint64(at.UnixNano())
	f := float64(n)
	h := 1.5 * f
	return Metrics(
		&metricsv1.ResourceMetrics{
			SchemaUrl: "https://r/1",
			Resource:  Res("service.name", "a"),
			ScopeMetrics: []*metricsv1.ScopeMetrics{
				{
					Scope:     Scope("lib", "v1", "k", "v"),
					SchemaUrl: "https://s/1",
					Metrics: []*metricsv1.Metric{
						{Name: "g", Description: "a gauge", Unit: "By", Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{
							{TimeUnixNano: ts, StartTimeUnixNano: ts - 1, Attributes: KV("state", "idle"), Value: &metricsv1.NumberDataPoint_AsDouble{AsDouble: f}},
							{TimeUnixNano: ts, Attributes: KV("state", "user"), Value: &metricsv1.NumberDataPoint_AsInt{AsInt: int64(n)}, Flags: 1,
								Exemplars: []*metricsv1.Exemplar{{TimeUnixNano: ts, Value: &metricsv1.Exemplar_AsInt{AsInt: 4}, SpanId: []byte{1}, TraceId: []byte{2}, FilteredAttributes: KV("x", "y")}}},
						}}}},
						Sum("s", metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE, true, Num(ts, f, "p", "q")),
						{Name: "h", Unit: "s", Data: &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{AggregationTemporality: 1, DataPoints: []*metricsv1.HistogramDataPoint{
							{TimeUnixNano: ts, Count: uint64(n), Sum: &h, BucketCounts: []uint64{1, 2, uint64(n)}, ExplicitBounds: []float64{0.5, 1}, Min: &f, Max: &h},
						}}}},
						{Name: "e", Data: &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsv1.ExponentialHistogram{AggregationTemporality: 2, DataPoints: []*metricsv1.ExponentialHistogramDataPoint{
							{TimeUnixNano: ts, Count: uint64(n), Sum: &h, Scale: -2, ZeroCount: 3, Positive: &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: 1, BucketCounts: []uint64{7, uint64(n)}}, Negative: &metricsv1.ExponentialHistogramDataPoint_Buckets{Offset: -1}},
						}}}},
						{Name: "q", Data: &metricsv1.Metric_Summary{Summary: &metricsv1.Summary{DataPoints: []*metricsv1.SummaryDataPoint{
							{TimeUnixNano: ts, Count: uint64(n), Sum: f, QuantileValues: []*metricsv1.SummaryDataPoint_ValueAtQuantile{{Quantile: 0.5, Value: f}, {Quantile: 0.9, Value: h}}},
						}}}},
					},
				},
				{
					Scope:   Scope("lib2", ""),
					Metrics: []*metricsv1.Metric{Gauge("g", Num(ts, f))},
				},
			},
		},
		&metricsv1.ResourceMetrics{Resource: Res("service.name", "b"), ScopeMetrics: []*metricsv1.ScopeMetrics{{Metrics: []*metricsv1.Metric{Gauge("only", Num(ts, f))}}}},
	)
}

// PlainMetrics shares its resource and scope with RichMetrics.
func PlainMetrics(n int, at time.Time) *v1.Data {
	ts := uint64(at.UnixNano())
	return Metrics(&metricsv1.ResourceMetrics{
		SchemaUrl: "https://r/1",
		Resource:  Res("service.name", "a"),
		ScopeMetrics: []*metricsv1.ScopeMetrics{{
			Scope:     Scope("lib", "v1", "k", "v"),
			SchemaUrl: "https://s/1",
			Metrics: []*metricsv1.Metric{
				{Name: "g", Description: "a gauge", Unit: "By", Data: &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: []*metricsv1.NumberDataPoint{
					Num(ts, float64(n), "state", "idle"),
				}}}},
				Gauge("extra", Num(ts, float64(n))),
			},
		}},
	})
}

func RichLogs(n int, at time.Time) *v1.Data {
	ts := uint64(at.UnixNano())
	return Logs(&logsv1.ResourceLogs{
		SchemaUrl: "https://r/1",
		Resource:  Res("service.name", "a"),
		ScopeLogs: []*logsv1.ScopeLogs{{
			Scope:     Scope("lib", "v1"),
			SchemaUrl: "https://s/1",
			LogRecords: []*logsv1.LogRecord{
				{TimeUnixNano: ts, ObservedTimeUnixNano: ts + 1, SeverityNumber: 9, SeverityText: "INFO", Body: Str("hello"), Attributes: []*commonv1.KeyValue{{Key: "n", Value: Int(int64(n))}, {Key: "s", Value: Str("v")}},
					DroppedAttributesCount: 1, Flags: 1, TraceId: []byte{0xab, byte(n)}, SpanId: []byte{0xcd}},
				{TimeUnixNano: ts, SeverityText: "ERROR", Body: &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: &commonv1.ArrayValue{Values: []*commonv1.AnyValue{Int(int64(n)), Str("x")}}}}},
			},
		}},
	})
}

func RichTraces(n int, at time.Time) *v1.Data {
	ts := uint64(at.UnixNano())
	return Traces(&tracev1.ResourceSpans{
		SchemaUrl: "https://r/1",
		Resource:  Res("service.name", "a"),
		ScopeSpans: []*tracev1.ScopeSpans{{
			Scope:     Scope("lib", "v1"),
			SchemaUrl: "https://s/1",
			Spans: []*tracev1.Span{
				{TraceId: []byte{1, byte(n)}, SpanId: []byte{2, byte(n)}, ParentSpanId: []byte{3}, TraceState: "a=b", Flags: 1, Name: "op", Kind: 2, StartTimeUnixNano: ts, EndTimeUnixNano: ts + 5, Attributes: KV("http.method", "GET"),
					DroppedAttributesCount: 2,
					Events:                 []*tracev1.Span_Event{{TimeUnixNano: ts + 1, Name: "ev", Attributes: KV("e", "f"), DroppedAttributesCount: 1}},
					DroppedEventsCount:     3,
					Links:                  []*tracev1.Span_Link{{TraceId: []byte{9}, SpanId: []byte{8}, TraceState: "x", Attributes: KV("l", "m"), Flags: 3}},
					DroppedLinksCount:      4,
					Status:                 &tracev1.Status{Message: "bad", Code: 2}},
				{TraceId: []byte{1, byte(n)}, SpanId: []byte{4}, Name: "child", StartTimeUnixNano: ts + 1, EndTimeUnixNano: ts + 2, Status: &tracev1.Status{}},
			},
		}},
	})
}

// Range is a scan of [start,end).
func Range(scope v1.Scan_SCOPE, start, end time.Time, fs ...*v1.Scan_Filter) *v1.Scan {
	return &v1.Scan{Scope: scope, TimeRange: &v1.Scan_TimeRange{Start: timestamppb.New(start), End: timestamppb.New(end)}, Filters: fs}
}

func Base(p v1.Scan_BaseProp, v string) *v1.Scan_Filter {
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: p, Value: v}}}
}

func Attr(p v1.Scan_AttributeProp, k, v string) *v1.Scan_Filter {
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: p, Key: k, Value: v}}}
}

var Scopes = []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_LOGS, v1.Scan_TRACES}

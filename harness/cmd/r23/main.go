// R23: the server's own metrics are converted exactly.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/gernest/requiemdb/internal/self"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/otelkv"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	md "go.opentelemetry.io/otel/sdk/metric/metricdata"
	"go.opentelemetry.io/otel/sdk/resource"
	cmetrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	mp "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

// A made metric: the one of the SDK, what it is in OTLP (nil when it can not
// be converted), and a function that overwrites the memory of the former.
type made struct {
	key   string
	in    md.Metrics
	out   *mp.Metric
	smash func()
}

// Choices of the fields of points.
type ch struct{ attrs, value, times, ex, minmax, counts, extra int }

func (c ch) String() string {
	return fmt.Sprintf("%d.%d.%d.%d.%d.%d.%d", c.attrs, c.value, c.times, c.ex, c.minmax, c.counts, c.extra)
}

var base = time.Unix(1700000000, 123456789)

var times = []struct{ a, b time.Time }{
	{base, base.Add(time.Minute)}, {time.Time{}, base}, {base, base}, {time.Unix(0, 1), time.Unix(0, math.MaxInt64)}, {base.In(time.FixedZone("x", 3600)), time.Time{}},
}

func nano(t time.Time) uint64 {
	if t.IsZero() {
		return 0
	}
	return uint64(t.UnixNano())
}

var ints = []int64{0, 1, -1, math.MaxInt64, math.MinInt64, 1 << 53}
var floats = []float64{0, 1.5, -2.25, math.Inf(1), math.MaxFloat64, math.SmallestNonzeroFloat64}

func num[N int64 | float64](i int) N {
	var z N
	switch any(z).(type) {
	case int64:
		return N(ints[i%len(ints)])
	}
	return any(floats[i%len(floats)]).(N)
}

func point(v any) any {
	if i, ok := v.(int64); ok {
		return &mp.NumberDataPoint_AsInt{AsInt: i}
	}
	return &mp.NumberDataPoint_AsDouble{AsDouble: v.(float64)}
}

type smasher struct{ f []func() }

func (s *smasher) u(v []uint64) []uint64 {
	s.f = append(s.f, func() {
		for i := range v {
			v[i] = 424242
		}
	})
	return v
}
func (s *smasher) d(v []float64) []float64 {
	s.f = append(s.f, func() {
		for i := range v {
			v[i] = 424242
		}
	})
	return v
}
func (s *smasher) b(v []byte) []byte {
	s.f = append(s.f, func() {
		for i := range v {
			v[i] = 42
		}
	})
	return v
}

func exemplars[N int64 | float64](c ch, s *smasher) (in []md.Exemplar[N], out []*mp.Exemplar) {
	n := c.ex
	if n == 3 {
		n = 2
	}
	for i := range n {
		l := [][]int{{0}, {5, 9}, nil}[(i+c.ex)%3]
		e := md.Exemplar[N]{FilteredAttributes: otelkv.SDK("x", l), Time: base.Add(time.Duration(i)), Value: num[N](c.value + i + 1)}
		o := &mp.Exemplar{FilteredAttributes: otelkv.OTLP("x", l), TimeUnixNano: uint64(base.UnixNano()) + uint64(i)}
		if i == 0 || c.ex == 3 {
			e.SpanID, e.TraceID = s.b([]byte{1, 2, byte(i)}), s.b([]byte{3, 4, 5, byte(i)})
			o.SpanId, o.TraceId = []byte{1, 2, byte(i)}, []byte{3, 4, 5, byte(i)}
		}
		switch v := point(any(e.Value)).(type) {
		case *mp.NumberDataPoint_AsInt:
			o.Value = &mp.Exemplar_AsInt{AsInt: v.AsInt}
		case *mp.NumberDataPoint_AsDouble:
			o.Value = &mp.Exemplar_AsDouble{AsDouble: v.AsDouble}
		}
		in, out = append(in, e), append(out, o)
	}
	return
}

func set(c ch, i int) (attribute.Set, []*commonv1.KeyValue) {
	ls := otelkv.Lists()
	l := ls[(c.attrs+i)%len(ls)]
	return attribute.NewSet(otelkv.SDK("k", l)...), otelkv.OTLP("k", l)
}

// The kinds of aggregation.
const (
	gauge = iota
	sum
	hist
	exp
	summary
	unknown
	kinds
)

type agg struct {
	kind  int
	float bool
	temp  int // 0 cumulative, 1 delta, 2 unknown
	mono  bool
	n     int // points
	c     ch
}

func (a agg) String() string {
	return fmt.Sprintf("%d.%v.%d.%v.%d.%v", a.kind, a.float, a.temp, a.mono, a.n, a.c)
}

var temps = []md.Temporality{md.CumulativeTemporality, md.DeltaTemporality, md.Temporality(99)}
var tempsOut = []mp.AggregationTemporality{2, 1, 0}

func build(a agg) made {
	if a.float {
		return build2[float64](a)
	}
	return build2[int64](a)
}

var counts = [][]uint64{nil, {0}, {1, 2, 3}, {math.MaxUint64, 0, 5, 6}}
var bounds = [][]float64{nil, {}, {0, 5}, {-1, 0.5, math.MaxFloat64}}

func extrema[N int64 | float64](on bool, i int) (e md.Extrema[N], p *float64) {
	if on {
		v := num[N](i)
		f := float64(v)
		return md.NewExtrema(v), &f
	}
	return
}

func build2[N int64 | float64](a agg) made {
	names := [][3]string{{"m", "d", "u"}, {"", "", ""}, {"é/:", "a description", "By"}}[a.c.extra%3]
	m := made{key: a.String(), in: md.Metrics{Name: names[0], Description: names[1], Unit: names[2]}}
	out := &mp.Metric{Name: names[0], Description: names[1], Unit: names[2]}
	s := &smasher{}
	m.smash = func() {
		for _, f := range s.f {
			f()
		}
	}
	t, to := temps[a.temp], tempsOut[a.temp]
	if a.temp < 2 || a.kind == gauge || a.kind == summary {
		m.out = out
	}
	switch a.kind {
	case gauge, sum:
		var in []md.DataPoint[N]
		var o []*mp.NumberDataPoint
		for i := range a.n {
			at, ao := set(a.c, i)
			ex, eo := exemplars[N](a.c, s)
			tt := times[(a.c.times+i)%len(times)]
			v := num[N](a.c.value + i)
			in = append(in, md.DataPoint[N]{Attributes: at, StartTime: tt.a, Time: tt.b, Value: v, Exemplars: ex})
			p := &mp.NumberDataPoint{Attributes: ao, StartTimeUnixNano: nano(tt.a), TimeUnixNano: nano(tt.b), Exemplars: eo}
			switch x := point(any(v)).(type) {
			case *mp.NumberDataPoint_AsInt:
				p.Value = x
			case *mp.NumberDataPoint_AsDouble:
				p.Value = x
			}
			o = append(o, p)
		}
		s.f = append(s.f, func() { clear(in) })
		if a.kind == gauge {
			m.in.Data = md.Gauge[N]{DataPoints: in}
			out.Data = &mp.Metric_Gauge{Gauge: &mp.Gauge{DataPoints: o}}
		} else {
			m.in.Data = md.Sum[N]{DataPoints: in, Temporality: t, IsMonotonic: a.mono}
			out.Data = &mp.Metric_Sum{Sum: &mp.Sum{DataPoints: o, AggregationTemporality: to, IsMonotonic: a.mono}}
		}
	case hist:
		var in []md.HistogramDataPoint[N]
		var o []*mp.HistogramDataPoint
		for i := range a.n {
			at, ao := set(a.c, i)
			ex, eo := exemplars[N](a.c, s)
			tt := times[(a.c.times+i)%len(times)]
			v := num[N](a.c.value + i)
			f := float64(v)
			k := (a.c.counts + i) % len(counts)
			mi, mio := extrema[N](a.c.minmax&1 != 0, a.c.value+1)
			ma, mao := extrema[N](a.c.minmax&2 != 0, a.c.value+2)
			in = append(in, md.HistogramDataPoint[N]{Attributes: at, StartTime: tt.a, Time: tt.b, Count: uint64(i) + uint64(a.c.extra), Sum: v, Exemplars: ex, Min: mi, Max: ma,
				Bounds: s.d(append([]float64(nil), bounds[k]...)), BucketCounts: s.u(append([]uint64(nil), counts[k]...))})
			o = append(o, &mp.HistogramDataPoint{Attributes: ao, StartTimeUnixNano: nano(tt.a), TimeUnixNano: nano(tt.b), Exemplars: eo, Count: uint64(i) + uint64(a.c.extra), Sum: &f, Min: mio, Max: mao,
				ExplicitBounds: bounds[k], BucketCounts: counts[k]})
		}
		s.f = append(s.f, func() { clear(in) })
		m.in.Data = md.Histogram[N]{DataPoints: in, Temporality: t}
		out.Data = &mp.Metric_Histogram{Histogram: &mp.Histogram{DataPoints: o, AggregationTemporality: to}}
	case exp:
		var in []md.ExponentialHistogramDataPoint[N]
		var o []*mp.ExponentialHistogramDataPoint
		for i := range a.n {
			at, ao := set(a.c, i)
			ex, eo := exemplars[N](a.c, s)
			tt := times[(a.c.times+i)%len(times)]
			v := num[N](a.c.value + i)
			f := float64(v)
			k, k2 := (a.c.counts+i)%len(counts), (a.c.counts+2*i+1)%len(counts)
			mi, mio := extrema[N](a.c.minmax&1 != 0, a.c.value+1)
			ma, mao := extrema[N](a.c.minmax&2 != 0, a.c.value+2)
			sc := int32(a.c.extra*7 - 10 + i)
			in = append(in, md.ExponentialHistogramDataPoint[N]{Attributes: at, StartTime: tt.a, Time: tt.b, Count: uint64(i) + 5, Sum: v, Exemplars: ex, Min: mi, Max: ma,
				Scale: sc, ZeroCount: uint64(a.c.extra + 3),
				PositiveBucket: md.ExponentialBucket{Offset: -3 + int32(i), Counts: s.u(append([]uint64(nil), counts[k]...))},
				NegativeBucket: md.ExponentialBucket{Offset: 4 + int32(i), Counts: s.u(append([]uint64(nil), counts[k2]...))}})
			o = append(o, &mp.ExponentialHistogramDataPoint{Attributes: ao, StartTimeUnixNano: nano(tt.a), TimeUnixNano: nano(tt.b), Exemplars: eo, Count: uint64(i) + 5, Sum: &f, Min: mio, Max: mao,
				Scale: sc, ZeroCount: uint64(a.c.extra + 3),
				Positive: &mp.ExponentialHistogramDataPoint_Buckets{Offset: -3 + int32(i), BucketCounts: counts[k]},
				Negative: &mp.ExponentialHistogramDataPoint_Buckets{Offset: 4 + int32(i), BucketCounts: counts[k2]}})
		}
		s.f = append(s.f, func() { clear(in) })
		m.in.Data = md.ExponentialHistogram[N]{DataPoints: in, Temporality: t}
		out.Data = &mp.Metric_ExponentialHistogram{ExponentialHistogram: &mp.ExponentialHistogram{DataPoints: o, AggregationTemporality: to}}
	case summary:
		var in []md.SummaryDataPoint
		var o []*mp.SummaryDataPoint
		for i := range a.n {
			at, ao := set(a.c, i)
			tt := times[(a.c.times+i)%len(times)]
			f := floats[(a.c.value+i)%len(floats)]
			var qi []md.QuantileValue
			var qo []*mp.SummaryDataPoint_ValueAtQuantile
			for q := range (a.c.ex + i) % 4 {
				qi = append(qi, md.QuantileValue{Quantile: float64(q) / 4, Value: floats[(q+a.c.value)%len(floats)]})
				qo = append(qo, &mp.SummaryDataPoint_ValueAtQuantile{Quantile: float64(q) / 4, Value: floats[(q+a.c.value)%len(floats)]})
			}
			s.f = append(s.f, func() { clear(qi) })
			in = append(in, md.SummaryDataPoint{Attributes: at, StartTime: tt.a, Time: tt.b, Count: uint64(i) + uint64(a.c.extra), Sum: f, QuantileValues: qi})
			o = append(o, &mp.SummaryDataPoint{Attributes: ao, StartTimeUnixNano: nano(tt.a), TimeUnixNano: nano(tt.b), Count: uint64(i) + uint64(a.c.extra), Sum: f, QuantileValues: qo})
		}
		s.f = append(s.f, func() { clear(in) })
		m.in.Data = md.Summary{DataPoints: in}
		out.Data = &mp.Metric_Summary{Summary: &mp.Summary{DataPoints: o}}
	default:
		m.out = nil // an aggregation that there is none of in OTLP
	}
	return m
}

type sink struct {
	cmetrics.UnsafeMetricsServiceServer
	got []*mp.ResourceMetrics
	err error
}

func (s *sink) Export(_ context.Context, r *cmetrics.ExportMetricsServiceRequest) (*cmetrics.ExportMetricsServiceResponse, error) {
	s.got = append(s.got, r.ResourceMetrics...)
	return &cmetrics.ExportMetricsServiceResponse{}, s.err
}

type scoped struct {
	scope int
	ms    []made
}

var scopes = []instrumentation.Scope{{Name: "s"}, {Name: "s", Version: "1"}, {Name: "t", SchemaURL: "u"}, {}}

func empty(g *resourcev1.Resource) *resourcev1.Resource {
	if len(g.GetAttributes()) == 0 && g.GetDroppedAttributesCount() == 0 {
		return nil
	}
	return g
}

func check(res int, in []scoped) error {
	rm := &md.ResourceMetrics{}
	var wantR *resourcev1.Resource
	schema := ""
	switch res {
	case 1:
		rm.Resource = resource.NewSchemaless(otelkv.SDK("r", []int{0, 5, 14})...)
		wantR = &resourcev1.Resource{Attributes: otelkv.OTLP("r", []int{0, 5, 14})}
	case 2:
		rm.Resource = resource.NewWithAttributes("schema", otelkv.SDK("r", []int{1})...)
		wantR, schema = &resourcev1.Resource{Attributes: otelkv.OTLP("r", []int{1})}, "schema"
	}
	bad := 0
	for _, s := range in {
		sm := md.ScopeMetrics{Scope: scopes[s.scope]}
		for _, m := range s.ms {
			sm.Metrics = append(sm.Metrics, m.in)
			if m.out == nil {
				bad++
			}
		}
		rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
	}
	s := &sink{}
	err := (&self.Metrics{Collector: s}).Export(context.Background(), rm)
	if (err != nil) != (bad > 0) {
		return fmt.Errorf("%d metrics can not be converted, reported: %v", bad, err)
	}
	s2 := &sink{err: errors.New("no")}
	if err := (&self.Metrics{Collector: s2}).Export(context.Background(), rm); !errors.Is(err, s2.err) {
		return fmt.Errorf("the failure of the collector is reported as %v", err)
	}
	// The SDK reuses its memory once Export has returned.
	for _, s := range in {
		for _, m := range s.ms {
			m.smash()
		}
	}
	for i := range rm.ScopeMetrics {
		clear(rm.ScopeMetrics[i].Metrics)
	}
	clear(rm.ScopeMetrics)
	if len(s.got) != 1 {
		return fmt.Errorf("%d resources instead of one", len(s.got))
	}
	g := s.got[0]
	if !proto.Equal(empty(g.Resource), empty(wantR)) || g.SchemaUrl != schema {
		return fmt.Errorf("resource %s (%q) instead of %s (%q)", protojson.Format(g.Resource), g.SchemaUrl, protojson.Format(wantR), schema)
	}
	// A scope without a metric carries nothing; it may be there or not.
	var got, want []*mp.ScopeMetrics
	for _, s := range g.ScopeMetrics {
		if len(s.Metrics) > 0 {
			got = append(got, s)
		}
	}
	for _, s := range in {
		w := &mp.ScopeMetrics{Scope: &commonv1.InstrumentationScope{Name: scopes[s.scope].Name, Version: scopes[s.scope].Version}, SchemaUrl: scopes[s.scope].SchemaURL}
		for _, m := range s.ms {
			if m.out != nil {
				w.Metrics = append(w.Metrics, m.out)
			}
		}
		if len(w.Metrics) > 0 {
			want = append(want, w)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d scopes instead of %d", len(got), len(want))
	}
	for i := range want {
		if want[i].Scope.Name == "" && got[i].Scope == nil {
			want[i].Scope = nil
		}
		if !proto.Equal(got[i], want[i]) {
			return fmt.Errorf("scope %d:\n got %s\nwant %s", i, protojson.Format(got[i]), protojson.Format(want[i]))
		}
	}
	return nil
}

func main() { lib.Main("R23", "model_checking", run) }

func run(r *lib.Run) {
	r.Rule("a state is what is given to the exporter: one metric of every kind, number type, temporality and number of points with every variant of every field alone and with every variant of every other field, and every list up to the length of the tier of metrics of every kind, unknown ones among them, split into scopes in every way")
	var work []agg
	dims := []struct {
		n   int
		set func(*ch, int)
	}{
		{len(otelkv.Lists()), func(c *ch, i int) { c.attrs = i }},
		{6, func(c *ch, i int) { c.value = i }},
		{len(times), func(c *ch, i int) { c.times = i }},
		{4, func(c *ch, i int) { c.ex = i }},
		{4, func(c *ch, i int) { c.minmax = i }},
		{4, func(c *ch, i int) { c.counts = i }},
		{3, func(c *ch, i int) { c.extra = i }},
	}
	var cs []ch
	seen := map[ch]bool{}
	add := func(c ch) {
		if !seen[c] {
			seen[c] = true
			cs = append(cs, c)
		}
	}
	for a, d := range dims {
		for x := range d.n {
			var c ch
			d.set(&c, x)
			add(c)
			for b := a + 1; b < len(dims); b++ {
				for y := range dims[b].n {
					c2 := c
					dims[b].set(&c2, y)
					add(c2)
					if !r.Quick() {
						for e := b + 1; e < len(dims); e++ {
							for z := range dims[e].n {
								c3 := c2
								dims[e].set(&c3, z)
								add(c3)
							}
						}
					}
				}
			}
		}
	}
	for kind := range kinds {
		for _, fl := range []bool{false, true} {
			for temp := range 3 {
				for _, mono := range []bool{false, true} {
					if (mono && kind != sum) || (kind == unknown && (temp > 0 || fl)) || (fl && kind == summary) || (temp > 0 && (kind == gauge || kind == summary)) {
						continue
					}
					for n := range 4 {
						if n == 3 && r.Quick() {
							continue
						}
						for _, c := range cs {
							if kind == unknown && (n > 0 || c != (ch{})) || n == 0 && c != (ch{extra: c.extra}) {
								continue
							}
							work = append(work, agg{kind, fl, temp, mono, n, c})
						}
					}
				}
			}
		}
	}
	r.Note("single metrics", len(work))
	r.Parallel(len(work), 8, func(i int) {
		a := work[i]
		r.State("one-" + a.String())
		r.Trace()
		r.Transitions(1)
		r.Case("one-"+a.String(), a, func() error { return check(1, []scoped{{0, []made{build(a)}}}) })
	})

	// Lists of metrics over scopes.
	var alpha []agg
	for kind := range kinds {
		for _, fl := range []bool{false, true} {
			if fl && kind >= summary {
				continue
			}
			c := ch{attrs: 3*kind + 1, value: kind, times: kind, ex: 2, minmax: 3, counts: 2, extra: 0}
			alpha = append(alpha, agg{kind, fl, 0, kind == sum, 2, c})
			if kind == sum || kind == hist || kind == exp {
				alpha = append(alpha, agg{kind, fl, 2, false, 1, c})
			}
		}
	}
	depth := lib.Pick(r, 3, 4)
	type list struct {
		res int
		l   []int // metrics
		cut int   // bit i: metric i starts a new scope
	}
	var lists []list
	var rec func(l []int)
	rec = func(l []int) {
		for cut := 0; cut < 1<<max(len(l)-1, 0); cut++ {
			for res := range 3 {
				if res != (len(l)+cut)%3 && len(l) > 2 {
					continue
				}
				lists = append(lists, list{res, append([]int(nil), l...), cut})
			}
		}
		if len(l) < depth {
			for a := range alpha {
				rec(append(l[:len(l):len(l)], a))
			}
		}
	}
	rec(nil)
	r.Note("lists", len(lists))
	r.Parallel(len(lists), 8, func(i int) {
		l := lists[i]
		key := fmt.Sprintf("list-%d-%v-%d", l.res, l.l, l.cut)
		r.State(key)
		r.Trace()
		r.Transitions(len(l.l))
		r.Case(key, l, func() error {
			var in []scoped
			for i, a := range l.l {
				if i == 0 || l.cut>>(i-1)&1 == 1 {
					in = append(in, scoped{scope: len(in) % len(scopes)})
				}
				in[len(in)-1].ms = append(in[len(in)-1].ms, build(alpha[a]))
			}
			return check(l.res, in)
		})
	})
	// The width of the zero bucket.
	for _, z := range []float64{0, 0.01, 1e-300} {
		key := fmt.Sprintf("zero-threshold-%v", z)
		r.State(key)
		r.Trace()
		r.Transitions(1)
		r.Case(key, z, func() error {
			a := agg{exp, true, 0, false, 1, ch{}}
			m := build(a)
			d := m.in.Data.(md.ExponentialHistogram[float64])
			d.DataPoints[0].ZeroThreshold = z
			m.out.GetExponentialHistogram().DataPoints[0].ZeroThreshold = z
			return check(1, []scoped{{0, []made{m}}})
		})
	}
	r.Sample(map[string]any{"lists up to": depth, "metrics": len(alpha)})
}

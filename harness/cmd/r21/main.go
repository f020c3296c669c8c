// R21: rendered tables show every record with its values.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/js"
	"github.com/gernest/requiemdb/internal/render"
	"github.com/gernest/requiemdb/internal/zzverif/gen"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

// The text of attribute values.
func anyText(v *commonv1.AnyValue) string {
	switch e := v.GetValue().(type) {
	case *commonv1.AnyValue_StringValue:
		return strconv.Quote(e.StringValue)
	case *commonv1.AnyValue_BoolValue:
		if e.BoolValue {
			return "true"
		}
		return "false"
	case *commonv1.AnyValue_IntValue:
		return fmt.Sprintf("%d", e.IntValue)
	case *commonv1.AnyValue_DoubleValue:
		return fmt.Sprint(e.DoubleValue)
	case *commonv1.AnyValue_BytesValue:
		s := ""
		for _, b := range e.BytesValue {
			s += fmt.Sprintf("%02x", b)
		}
		return s
	case *commonv1.AnyValue_ArrayValue:
		var s []string
		for _, x := range e.ArrayValue.GetValues() {
			s = append(s, anyText(x))
		}
		return "[" + strings.Join(s, ", ") + "]"
	case *commonv1.AnyValue_KvlistValue:
		return kvText(e.KvlistValue.GetValues())
	}
	return ""
}

func kvText(kv []*commonv1.KeyValue) string {
	var s []string
	for _, x := range kv {
		s = append(s, x.Key+" = "+anyText(x.Value))
	}
	if s == nil {
		return "{}"
	}
	return "{ " + strings.Join(s, ", ") + " }"
}

// squash makes runs of blanks one blank: layout is not specified.
var blanks = regexp.MustCompile(`[ \t]+`)

func squash(s string) string { return strings.TrimSpace(blanks.ReplaceAllString(s, " ")) }

var scale = map[string]float64{"h": 3600e9, "m": 60e9, "s": 1e9, "ms": 1e6, "ns": 1}
var sizes = map[string]float64{"B": 1, "KiB": 1 << 10, "MiB": 1 << 20, "GiB": 1 << 30, "TiB": 1 << 40, "PiB": 1 << 50, "EiB": 1 << 60}

// shows tells whether text is the value of p in its unit.
func shows(text string, p *metricsv1.NumberDataPoint, unit string) bool {
	value := number(p)
	// a number as it is, with the unit of it or without
	plain := func(text string) bool {
		if e, ok := p.Value.(*metricsv1.NumberDataPoint_AsInt); ok {
			x, ok := new(big.Rat).SetString(text)
			return ok && x.Cmp(new(big.Rat).SetInt64(e.AsInt)) == 0
		}
		f, err := strconv.ParseFloat(text, 64)
		return err == nil && (f == value || math.IsNaN(f) && math.IsNaN(value))
	}
	if f, ok := scale[unit]; ok {
		if d, err := time.ParseDuration(text); err == nil {
			if e, ok := p.Value.(*metricsv1.NumberDataPoint_AsInt); ok && f == 1 {
				return int64(d) == e.AsInt
			}
			if math.Abs(float64(d)-value*f) <= 1+math.Abs(value*f)*1e-15 {
				return true
			}
		}
		num, ok := strings.CutSuffix(text, unit)
		g, err := strconv.ParseFloat(strings.TrimSpace(num), 64)
		return ok && err == nil && (g == value || math.IsNaN(g) && math.IsNaN(value))
	}
	if unit == "By" {
		num, size, ok := strings.Cut(text, " ")
		if !ok || sizes[size] == 0 {
			return false
		}
		f, err := strconv.ParseFloat(num, 64)
		if err != nil {
			return false
		}
		return f == value && size == "B" || math.IsNaN(f) && math.IsNaN(value) || math.Abs(f*sizes[size]-value) <= math.Max(1, math.Abs(value)*0.06)
	}
	return plain(text)
}

func number(d *metricsv1.NumberDataPoint) float64 {
	if e, ok := d.Value.(*metricsv1.NumberDataPoint_AsInt); ok {
		return float64(e.AsInt)
	}
	return d.GetAsDouble()
}

var row = regexp.MustCompile(`^(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d) (.*?) (\{.*)$`)

// verify compares the rendered text with the message.
func verify(text string, md *metricsv1.MetricsData, o render.MetricsFormatOption) error {
	lines := strings.Split(text, "\n")
	for i := range lines {
		lines[i] = squash(lines[i])
	}
	at := 0
	// find moves to the next line that is exactly s
	find := func(what, s string) error {
		s = squash(s)
		for i := at; i < len(lines); i++ {
			if lines[i] == s {
				at = i + 1
				return nil
			}
			if row.MatchString(lines[i]) {
				return fmt.Errorf("%s: a data point %q comes before it", what, lines[i])
			}
		}
		return fmt.Errorf("%s: there is no line %q", what, s)
	}
	// has looks for a line of a block that starts here
	has := func(what string, name, value string) error {
		want := squash(name + " " + value)
		for i := at; i < min(at+8, len(lines)); i++ {
			if lines[i] == want {
				return nil
			}
		}
		return fmt.Errorf("%s: there is no line %q", what, want)
	}
	hasNot := func(name string) error {
		if strings.Contains(text, name) {
			return fmt.Errorf("%s is shown but was not asked for", name)
		}
		return nil
	}
	if !o.Resource {
		if err := hasNot("resource.attributes"); err != nil {
			return err
		}
	}
	if !o.Scope {
		if err := hasNot("scope.attributes"); err != nil {
			return err
		}
	}
	if !o.Metrics {
		if err := hasNot("description "); err != nil {
			return err
		}
	}
	for _, rm := range md.ResourceMetrics {
		if err := find("resource", "=== "+rm.SchemaUrl); err != nil {
			return err
		}
		if o.Resource {
			if err := has("resource", "resource.schema", rm.SchemaUrl); err != nil {
				return err
			}
			if err := has("resource", "resource.attributes", kvText(rm.GetResource().GetAttributes())); err != nil {
				return err
			}
		}
		for _, sm := range rm.ScopeMetrics {
			if err := find("scope", "--> "+sm.GetScope().GetName()); err != nil {
				return err
			}
			if o.Scope {
				sc := sm.GetScope()
				for _, x := range [][2]string{{"scope.name", sc.GetName()}, {"scope.schema", sm.SchemaUrl}, {"scope.version", sc.GetVersion()}, {"scope.attributes", kvText(sc.GetAttributes())}} {
					if err := has("scope", x[0], x[1]); err != nil {
						return err
					}
				}
			}
			for _, m := range sm.Metrics {
				if err := find("metric", m.Name); err != nil {
					return err
				}
				unit := m.Unit
				if unit == "" && strings.Contains(m.Description, "nanoseconds") {
					unit = "ns"
				}
				if o.Metrics {
					if err := has("metric", "description", m.Description); err != nil {
						return err
					}
					if err := has("metric", "unit", unit); err != nil {
						return err
					}
				}
				var ps []*metricsv1.NumberDataPoint
				switch e := m.Data.(type) {
				case *metricsv1.Metric_Gauge:
					ps = e.Gauge.GetDataPoints()
				case *metricsv1.Metric_Sum:
					ps = e.Sum.GetDataPoints()
				default:
					// other kinds are not shown in tables
					continue
				}
				for i, p := range ps {
					for at < len(lines) && !row.MatchString(lines[at]) {
						at++
					}
					what := fmt.Sprintf("data point %d of %s", i, m.Name)
					if at == len(lines) {
						return fmt.Errorf("%s is not shown", what)
					}
					g := row.FindStringSubmatch(lines[at])
					at++
					if want := time.Unix(int64(p.TimeUnixNano/1e9), int64(p.TimeUnixNano%1e9)).UTC().Format("2006-01-02 15:04:05"); g[1] != want {
						return fmt.Errorf("%s: its time is shown as %q, want %q", what, g[1], want)
					}
					if !shows(g[2], p, unit) {
						return fmt.Errorf("%s: its value %v with unit %q is shown as %q", what, number(p), unit, g[2])
					}
					if want := squash(kvText(p.Attributes)); g[3] != want {
						return fmt.Errorf("%s: its attributes are shown as %q, want %q", what, g[3], want)
					}
				}
			}
		}
	}
	for ; at < len(lines); at++ {
		if row.MatchString(lines[at]) {
			return fmt.Errorf("there is a data point %q too many", lines[at])
		}
	}
	return nil
}

func num(at uint64, v any, kv ...*commonv1.KeyValue) *metricsv1.NumberDataPoint {
	p := &metricsv1.NumberDataPoint{TimeUnixNano: at, Attributes: kv}
	switch e := v.(type) {
	case int64:
		p.Value = &metricsv1.NumberDataPoint_AsInt{AsInt: e}
	case float64:
		p.Value = &metricsv1.NumberDataPoint_AsDouble{AsDouble: e}
	}
	return p
}

func metric(kind int, name, unit, desc string, ps ...*metricsv1.NumberDataPoint) *metricsv1.Metric {
	m := &metricsv1.Metric{Name: name, Unit: unit, Description: desc}
	switch kind {
	case 0:
		m.Data = &metricsv1.Metric_Gauge{Gauge: &metricsv1.Gauge{DataPoints: ps}}
	case 1:
		m.Data = &metricsv1.Metric_Sum{Sum: &metricsv1.Sum{DataPoints: ps}}
	case 2:
		m.Data = &metricsv1.Metric_Histogram{Histogram: &metricsv1.Histogram{DataPoints: []*metricsv1.HistogramDataPoint{{Count: 1}}}}
	case 3:
		m.Data = &metricsv1.Metric_ExponentialHistogram{ExponentialHistogram: &metricsv1.ExponentialHistogram{}}
	case 4:
		m.Data = &metricsv1.Metric_Summary{Summary: &metricsv1.Summary{}}
	}
	return m
}

func one(ms ...*metricsv1.Metric) *metricsv1.MetricsData {
	return &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{{SchemaUrl: "s", ScopeMetrics: []*metricsv1.ScopeMetrics{{Scope: tel.Scope("lib", "v1"), Metrics: ms}}}}}
}

func options() (o []render.MetricsFormatOption) {
	for i := 0; i < 8; i++ {
		o = append(o, render.MetricsFormatOption{Resource: i&1 != 0, Scope: i&2 != 0, Metrics: i&4 != 0})
	}
	return
}

func main() {
	lib.Main("R21", "model_checking", func(r *lib.Run) {
		r.Rule("all lists of up to N number data points over values × units × attribute values, in gauges and sums; all messages of resources, scopes and metrics (all kinds) up to two each with every combination of options, several in a row through the same pool; JSON of every field of the schema parsed back. Rows are read back from the text: time, value in its unit, attributes, in order and once. Blanks are not significant. A state is a rendered message.")
		ok := func(key string, md *metricsv1.MetricsData, o render.MetricsFormatOption) {
			r.Case(key, nil, func() error {
				before := proto.Clone(md)
				s := render.MetricsData(md, o)
				if err := verify(s, md, o); err != nil {
					return fmt.Errorf("%w\n%s", err, s)
				}
				if !proto.Equal(before, md) {
					return fmt.Errorf("the message was changed")
				}
				return nil
			})
			r.Count("transitions", 1)
		}
		at := uint64(lib.Day0.UnixNano())
		times := []uint64{at, 0, at + 999999999, at - 1, 4102444799e9, 1<<63 - 1, 1 << 63, math.MaxUint64}
		values := []any{int64(0), int64(7), int64(-5), int64(1023), int64(1024), int64(1 << 40), int64(-(1 << 33)), 0.5, -0.25, 1500.75, 1e15, nil}
		units := []string{"", "By", "h", "m", "s", "ms", "ns", "1", "{x}", "KiBy"}
		wild := []any{math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -1e300, 5e-324, int64(1 << 53), int64(1<<53 + 1), int64(math.MaxInt64), int64(math.MinInt64), int64(-1<<53 - 1), 9223372036854775807.0, -9223372036854775808.0, 18446744073709551615.0, 2562048.5, 9223372036.9}
		var kvs [][]*commonv1.KeyValue
		kvs = append(kvs, nil, tel.KV("a", "b"), tel.KV("a", "b", "c", "d \" \t\n"), tel.KV("", ""))
		for _, v := range gen.AnyValues() {
			kvs = append(kvs, []*commonv1.KeyValue{{Key: "k", Value: v}}, []*commonv1.KeyValue{{Key: "k", Value: v}, {Key: "l", Value: tel.Int(1)}, {Key: "m", Value: v}})
		}
		kvs = append(kvs, []*commonv1.KeyValue{{Key: "absent"}})
		r.Note("attribute_lists", len(kvs))
		// 1. single points
		r.Parallel(len(units), 0, func(i int) {
			u := units[i]
			for vi, v := range append(append([]any{}, values...), wild...) {
				for ti, t := range times {
					for ki, kv := range kvs {
						ok(fmt.Sprintf("point %v %q %d %d", v, u, t, ki), one(metric((vi+ti+ki)%2, "m", u, "", num(t, v, kv...))), render.MetricsFormatOption{Metrics: (vi+ki)%2 == 0})
						r.State(fmt.Sprint(v, u, t, ki))
					}
				}
			}
		})
		// 2. lists of points
		type pv struct {
			v  any
			t  uint64
			kv []*commonv1.KeyValue
		}
		var pool []pv
		for i, v := range values {
			pool = append(pool, pv{v, times[i%2], kvs[i%len(kvs)]})
		}
		pool = pool[:lib.Pick(r, 8, 12)]
		length := lib.Pick(r, 3, 4)
		n := 1
		for l := 0; l <= length; l++ {
			total := n
			r.Parallel(total, 0, func(i int) {
				var ps []*metricsv1.NumberDataPoint
				for k, x := 0, i; k < l; k, x = k+1, x/len(pool) {
					p := pool[x%len(pool)]
					ps = append(ps, num(p.t, p.v, p.kv...))
				}
				unit := []string{"", "By", "s"}[i%3]
				ok(fmt.Sprintf("list %d/%d", l, i), one(metric(i%2, "m", unit, "", ps...)), render.MetricsFormatOption{})
			})
			n *= len(pool)
		}
		// 3. structure
		metrics := [][]*metricsv1.Metric{
			{}, {metric(0, "a", "", "", num(at, int64(1)))},
			{metric(2, "h", "By", "bytes"), metric(1, "a", "ms", "time", num(at, 1.5), num(at+1e9, 2.5, tel.KV("x", "y")...))},
			{metric(0, "same", "", "in nanoseconds", num(at, int64(5e9))), metric(0, "same", "", "", num(at, int64(6)))},
			{metric(3, "e", "", ""), metric(4, "q", "", ""), metric(5, "none", "", ""), metric(0, "empty", "", "")},
		}
		var scopes []*metricsv1.ScopeMetrics
		for i, ms := range metrics {
			scopes = append(scopes, &metricsv1.ScopeMetrics{Metrics: ms})
			scopes = append(scopes, &metricsv1.ScopeMetrics{SchemaUrl: fmt.Sprint("ss", i), Scope: tel.Scope(fmt.Sprint("lib", i), "v1", "k", "v"), Metrics: ms})
		}
		resources := []*resourcev1.Resource{nil, {}, {Attributes: tel.KV("service.name", "a", "z", "b")}}
		opts := options()
		r.Parallel(len(scopes)+1, 0, func(i int) {
			for j := 0; j <= len(scopes); j++ {
				var ss []*metricsv1.ScopeMetrics
				if i < len(scopes) {
					ss = append(ss, scopes[i])
				}
				if j < len(scopes) {
					ss = append(ss, scopes[j])
				}
				for k, res := range resources {
					rm := &metricsv1.ResourceMetrics{SchemaUrl: fmt.Sprint("s", k), Resource: res, ScopeMetrics: ss}
					for oi, o := range opts {
						ok(fmt.Sprintf("structure %d %d %d %d", i, j, k, oi), &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{rm}}, o)
						two := &metricsv1.MetricsData{ResourceMetrics: []*metricsv1.ResourceMetrics{rm, {Resource: resources[(k+1)%3], ScopeMetrics: scopes[:(i+j)%3]}}}
						ok(fmt.Sprintf("structure two %d %d %d %d", i, j, k, oi), two, o)
						r.State(fmt.Sprint("structure ", i, j, k, oi))
					}
				}
			}
		})
		ok("nothing", &metricsv1.MetricsData{}, render.MetricsFormatOption{})
		// 4. JSON of every field
		for _, p := range gen.Paths() {
			for vi := 0; vi < p.Variants(); vi++ {
				md := p.Build(vi).GetMetrics()
				if md == nil {
					continue
				}
				if r.Expired() {
					return
				}
				for _, pretty := range []bool{false, true} {
					r.Case(fmt.Sprintf("json %v %d %v", p, vi, pretty), nil, func() error {
						var out bytes.Buffer
						vm := js.New().WithOutput(&out)
						err := vm.RenderMetricsDataJSON(md, render.JSONOptions{Pretty: pretty})
						vm.WithOutput(io.Discard).Release()
						if err != nil {
							return err
						}
						back := &metricsv1.MetricsData{}
						if err := protojson.Unmarshal(out.Bytes(), back); err != nil {
							return fmt.Errorf("%w: %s", err, out.String())
						}
						if !proto.Equal(back, md) {
							return fmt.Errorf("%v is shown as %s", md, out.String())
						}
						return nil
					})
					// the table of the same message must be there, too
					r.Case(fmt.Sprintf("table %v %d", p, vi), nil, func() error {
						s := render.MetricsData(md, render.MetricsFormatOption{Resource: true, Scope: true, Metrics: true})
						if len(md.ResourceMetrics) > 0 && s == "" {
							return fmt.Errorf("nothing is shown")
						}
						return nil
					})
					r.Count("transitions", 2)
				}
			}
		}
		r.Trace()
		r.Sample(render.MetricsData(one(metrics[2]...), opts[7]))
		_ = v1.Scan_METRICS
	})
}

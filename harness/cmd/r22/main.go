// R22: the server's own spans are converted exactly.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"time"

	"github.com/gernest/requiemdb/internal/self"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/otelkv"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/resource"
	sdk "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"
	ctrace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
)

func tid(b byte) (o trace.TraceID) { o[0], o[15] = b, b+1; return }
func sid(b byte) (o trace.SpanID)  { o[0], o[7] = b, b+1; return }

func sctx(t trace.TraceID, s trace.SpanID, state string) trace.SpanContext {
	ts, err := trace.ParseTraceState(state)
	if err != nil {
		panic(err)
	}
	return trace.NewSpanContext(trace.SpanContextConfig{TraceID: t, SpanID: s, TraceState: ts})
}

// A dimension is a field of a span with its variants. A variant sets both the
// field of the span of the SDK and the field of the span of OTLP.
type variant func(s *tracetest.SpanStub, o *tracev1.Span)
type dim struct {
	name string
	v    []variant
}

var base = time.Unix(1700000000, 123456789)

func dims() []dim {
	lists := otelkv.Lists()
	var attrs, events, links []variant
	for _, l := range lists {
		attrs = append(attrs, func(s *tracetest.SpanStub, o *tracev1.Span) {
			s.Attributes, o.Attributes = otelkv.SDK("", l), otelkv.OTLP("", l)
		})
	}
	type ev struct {
		name string
		at   time.Time
		l    []int
		drop int
	}
	evs := []ev{
		{"e", base, nil, 0}, {"", base.Add(1), []int{0}, 0}, {"e", base.Add(-time.Hour), []int{3, 5}, 7},
		{"f", time.Unix(0, 1), []int{14, 16, 18, 20}, math.MaxInt32}, {"e", base, []int{7}, 1},
	}
	event := func(is ...int) variant {
		return func(s *tracetest.SpanStub, o *tracev1.Span) {
			for _, i := range is {
				e := evs[i]
				s.Events = append(s.Events, sdk.Event{Name: e.name, Time: e.at, Attributes: otelkv.SDK("e", e.l), DroppedAttributeCount: e.drop})
				o.Events = append(o.Events, &tracev1.Span_Event{Name: e.name, TimeUnixNano: uint64(e.at.UnixNano()), Attributes: otelkv.OTLP("e", e.l), DroppedAttributesCount: uint32(e.drop)})
			}
		}
	}
	type ln struct {
		t     trace.TraceID
		s     trace.SpanID
		state string
		l     []int
		drop  int
	}
	lns := []ln{
		{tid(1), sid(2), "", nil, 0}, {tid(3), sid(2), "a=1,b=2", []int{0}, 2}, {tid(1), sid(4), "", []int{9, 5}, 0}, {trace.TraceID{}, trace.SpanID{}, "", nil, 0},
	}
	link := func(is ...int) variant {
		return func(s *tracetest.SpanStub, o *tracev1.Span) {
			for _, i := range is {
				e := lns[i]
				s.Links = append(s.Links, sdk.Link{SpanContext: sctx(e.t, e.s, e.state), Attributes: otelkv.SDK("l", e.l), DroppedAttributeCount: e.drop})
				t, p := e.t, e.s
				o.Links = append(o.Links, &tracev1.Span_Link{TraceId: t[:], SpanId: p[:], TraceState: e.state, Attributes: otelkv.OTLP("l", e.l), DroppedAttributesCount: uint32(e.drop)})
			}
		}
	}
	events = append(events, event())
	links = append(links, link())
	for i := range evs {
		events = append(events, event(i))
		for j := range evs {
			events = append(events, event(i, j))
			for k := range evs {
				events = append(events, event(i, j, k))
			}
		}
	}
	for i := range lns {
		links = append(links, link(i))
		for j := range lns {
			links = append(links, link(i, j))
			for k := range lns {
				links = append(links, link(i, j, k))
			}
		}
	}
	var names, ctxs, parents, kinds, stats, starts, ends, da, de, dl []variant
	for _, n := range []string{"n", "", "é n/:\x00", "a very long name that has more than one word"} {
		names = append(names, func(s *tracetest.SpanStub, o *tracev1.Span) { s.Name, o.Name = n, n })
	}
	for _, t := range []trace.TraceID{tid(9), tid(10), {15: 1}} {
		for _, p := range []trace.SpanID{sid(9), sid(10), {7: 1}} {
			for _, st := range []string{"", "k=v", "k=v,b=w"} {
				ctxs = append(ctxs, func(s *tracetest.SpanStub, o *tracev1.Span) {
					s.SpanContext = sctx(t, p, st)
					o.TraceId, o.SpanId, o.TraceState = t[:], p[:], st
				})
				parents = append(parents, func(s *tracetest.SpanStub, o *tracev1.Span) {
					s.Parent = sctx(t, p, st)
					o.ParentSpanId = p[:]
				})
			}
		}
	}
	parents = append(parents, func(s *tracetest.SpanStub, o *tracev1.Span) { s.Parent, o.ParentSpanId = trace.SpanContext{}, nil })
	for k, v := range map[trace.SpanKind]tracev1.Span_SpanKind{
		trace.SpanKindUnspecified: 0, trace.SpanKindInternal: tracev1.Span_SPAN_KIND_INTERNAL, trace.SpanKindServer: tracev1.Span_SPAN_KIND_SERVER,
		trace.SpanKindClient: tracev1.Span_SPAN_KIND_CLIENT, trace.SpanKindProducer: tracev1.Span_SPAN_KIND_PRODUCER, trace.SpanKindConsumer: tracev1.Span_SPAN_KIND_CONSUMER, 77: 0,
	} {
		kinds = append(kinds, func(s *tracetest.SpanStub, o *tracev1.Span) { s.SpanKind, o.Kind = k, v })
	}
	for _, m := range []string{"", "failed"} {
		for k, v := range map[codes.Code]tracev1.Status_StatusCode{codes.Unset: 0, codes.Ok: tracev1.Status_STATUS_CODE_OK, codes.Error: tracev1.Status_STATUS_CODE_ERROR, 99: 0} {
			stats = append(stats, func(s *tracetest.SpanStub, o *tracev1.Span) {
				s.Status = sdk.Status{Code: k, Description: m}
				o.Status = &tracev1.Status{Code: v, Message: m}
			})
		}
	}
	for _, t := range []time.Time{base, base.Add(1), base.Add(time.Hour), time.Unix(0, 0), base.In(time.FixedZone("x", 7200)), time.Unix(0, math.MaxInt64)} {
		starts = append(starts, func(s *tracetest.SpanStub, o *tracev1.Span) {
			s.StartTime, o.StartTimeUnixNano = t, uint64(t.UnixNano())
		})
		ends = append(ends, func(s *tracetest.SpanStub, o *tracev1.Span) { s.EndTime, o.EndTimeUnixNano = t, uint64(t.UnixNano()) })
	}
	for _, n := range []int{0, 1, 2, math.MaxInt32} {
		da = append(da, func(s *tracetest.SpanStub, o *tracev1.Span) {
			s.DroppedAttributes, o.DroppedAttributesCount = n, uint32(n)
		})
		de = append(de, func(s *tracetest.SpanStub, o *tracev1.Span) { s.DroppedEvents, o.DroppedEventsCount = n, uint32(n) })
		dl = append(dl, func(s *tracetest.SpanStub, o *tracev1.Span) { s.DroppedLinks, o.DroppedLinksCount = n, uint32(n) })
	}
	return []dim{{"name", names}, {"context", ctxs}, {"parent", parents}, {"kind", kinds}, {"status", stats}, {"start", starts}, {"end", ends},
		{"attributes", attrs}, {"events", events}, {"links", links}, {"dropped attributes", da}, {"dropped events", de}, {"dropped links", dl}}
}

// Resources that differ in attributes, and scopes.
func resources() []*resource.Resource {
	return []*resource.Resource{nil,
		resource.NewSchemaless(otelkv.SDK("r", []int{0})...),
		resource.NewWithAttributes("schema", otelkv.SDK("r", []int{0, 5})...),
		resource.NewWithAttributes("schema", otelkv.SDK("r", []int{5})...),
	}
}

func resOTLP(i int) (*resourcev1.Resource, string) {
	switch i {
	case 1:
		return &resourcev1.Resource{Attributes: otelkv.OTLP("r", []int{0})}, ""
	case 2:
		return &resourcev1.Resource{Attributes: otelkv.OTLP("r", []int{0, 5})}, "schema"
	case 3:
		return &resourcev1.Resource{Attributes: otelkv.OTLP("r", []int{5})}, "schema"
	}
	return nil, ""
}

var scopes = []instrumentation.Scope{{}, {Name: "s"}, {Name: "s", Version: "1"}, {Name: "s", SchemaURL: "u"}, {Name: "t"}}

func scopeOTLP(i int) (*commonv1.InstrumentationScope, string) {
	if i == 0 {
		return nil, ""
	}
	return &commonv1.InstrumentationScope{Name: scopes[i].Name, Version: scopes[i].Version}, scopes[i].SchemaURL
}

// sink is the collector that own spans are sent to.
type sink struct {
	ctrace.UnsafeTraceServiceServer
	got []*tracev1.ResourceSpans
	n   int
	err error
}

func (s *sink) Export(_ context.Context, r *ctrace.ExportTraceServiceRequest) (*ctrace.ExportTraceServiceResponse, error) {
	s.n++
	s.got = append(s.got, r.ResourceSpans...)
	return &ctrace.ExportTraceServiceResponse{}, s.err
}

func convert(in []sdk.ReadOnlySpan) (*tracev1.TracesData, error) {
	s := &sink{}
	e := &self.Trace{Collector: s}
	if err := e.ExportSpans(context.Background(), in); err != nil {
		return nil, err
	}
	s2 := &sink{err: errors.New("no")}
	if err := (&self.Trace{Collector: s2}).ExportSpans(context.Background(), in); !errors.Is(err, s2.err) {
		return nil, fmt.Errorf("the failure of the collector is reported as %v", err)
	}
	return &tracev1.TracesData{ResourceSpans: s.got}, nil
}

type item struct{ res, scope, n int } // res < 0: a nil span

// check: every resource once, every scope once per resource, spans in order.
func check(items []item, in []sdk.ReadOnlySpan, want []*tracev1.Span) error {
	got, err := convert(in)
	if err != nil {
		return err
	}
	type key struct{ r, s int }
	exp := map[key][]*tracev1.Span{}
	for i, it := range items {
		if it.res >= 0 {
			k := key{it.res, it.scope}
			exp[k] = append(exp[k], want[i])
		}
	}
	seenR := map[int]bool{}
	for _, rs := range got.ResourceSpans {
		ri := -1
		for i := range resources() {
			r, u := resOTLP(i)
			g := rs.Resource
			// A resource without attributes says the same as none.
			if len(g.GetAttributes()) == 0 && g.GetDroppedAttributesCount() == 0 {
				g = nil
			}
			if (r == nil) == (g == nil) && proto.Equal(r, g) && rs.SchemaUrl == u {
				ri = i
			}
		}
		if ri < 0 {
			return fmt.Errorf("unknown resource %s (%q)", protojson.Format(rs.Resource), rs.SchemaUrl)
		}
		if seenR[ri] {
			return fmt.Errorf("resource %d twice", ri)
		}
		seenR[ri] = true
		seenS := map[int]bool{}
		for _, ss := range rs.ScopeSpans {
			si := -1
			for i := range scopes {
				s, u := scopeOTLP(i)
				g := ss.Scope
				if proto.Equal(g, &commonv1.InstrumentationScope{}) {
					g = nil
				}
				if (s == nil) == (g == nil) && proto.Equal(s, g) && ss.SchemaUrl == u {
					si = i
				}
			}
			if si < 0 {
				return fmt.Errorf("unknown scope %s (%q)", protojson.Format(ss.Scope), ss.SchemaUrl)
			}
			if seenS[si] {
				return fmt.Errorf("scope %d of resource %d twice", si, ri)
			}
			seenS[si] = true
			w := exp[key{ri, si}]
			delete(exp, key{ri, si})
			if len(w) != len(ss.Spans) {
				return fmt.Errorf("resource %d scope %d: %d spans instead of %d", ri, si, len(ss.Spans), len(w))
			}
			for i := range w {
				// Flags are not part of this version of the SDK.
				g := proto.Clone(ss.Spans[i]).(*tracev1.Span)
				g.Flags = 0
				for _, l := range g.Links {
					l.Flags = 0
				}
				if !proto.Equal(w[i], g) {
					return fmt.Errorf("span %d:\n got %s\nwant %s", i, protojson.Format(g), protojson.Format(w[i]))
				}
			}
		}
	}
	if len(exp) > 0 {
		return fmt.Errorf("spans of %d resources and scopes are missing: %v", len(exp), exp)
	}
	return nil
}

func main() {
	lib.Main("R22", "model_checking", run)
}

func plain(i int) (tracetest.SpanStub, *tracev1.Span) {
	s := tracetest.SpanStub{Name: fmt.Sprint("p", i), SpanContext: sctx(tid(byte(20+i)), sid(byte(40+i)), ""), SpanKind: trace.SpanKindInternal, StartTime: base, EndTime: base.Add(time.Second)}
	t, p := tid(byte(20+i)), sid(byte(40+i))
	o := &tracev1.Span{Name: fmt.Sprint("p", i), TraceId: t[:], SpanId: p[:], Kind: tracev1.Span_SPAN_KIND_INTERNAL,
		StartTimeUnixNano: uint64(base.UnixNano()), EndTimeUnixNano: uint64(base.UnixNano()) + 1e9, Status: &tracev1.Status{}}
	return s, o
}

func run(r *lib.Run) {
	r.Rule("a state is a list of spans of the SDK: every variant of every field of a span alone, with every variant of every other field (thorough: in threes over a reduced set), and every list up to the length of the tier over resources, scopes and nil spans")
	r.Assume("resources that differ only in their schema URL are not told apart by the SDK", "flags of spans and links are not converted (fixed by the existing tests)")
	ds := dims()
	vals := func(pick map[int]int) error {
		s, o := plain(0)
		for d, v := range pick {
			ds[d].v[v](&s, o)
		}
		s2, o2 := plain(1)
		rs := resources()
		s.Resource, s2.Resource = rs[1], rs[1]
		s.InstrumentationLibrary, s2.InstrumentationLibrary = scopes[1], scopes[1]
		return check([]item{{1, 1, 0}, {1, 1, 1}, {1, 1, 0}}, tracetest.SpanStubs{s, s2, s}.Snapshots(), []*tracev1.Span{o, o2, o})
	}
	do := func(pick map[int]int) {
		key := "field"
		for d := range ds {
			if v, ok := pick[d]; ok {
				key += fmt.Sprintf("-%s.%d", ds[d].name, v)
			}
		}
		r.State(key)
		r.Trace()
		r.Transitions(3)
		r.Case(key, pick, func() error { return vals(pick) })
	}
	var work []map[int]int
	for d := range ds {
		for v := range ds[d].v {
			work = append(work, map[int]int{d: v})
			for d2 := d + 1; d2 < len(ds); d2++ {
				for v2 := range ds[d2].v {
					work = append(work, map[int]int{d: v, d2: v2})
				}
			}
		}
	}
	if !r.Quick() {
		for a := range ds {
			for b := a + 1; b < len(ds); b++ {
				for c := b + 1; c < len(ds); c++ {
					for x := 0; x < min(len(ds[a].v), 12); x++ {
						for y := 0; y < min(len(ds[b].v), 12); y++ {
							for z := 0; z < min(len(ds[c].v), 12); z++ {
								work = append(work, map[int]int{a: x, b: y, c: z})
							}
						}
					}
				}
			}
		}
	}
	r.Note("field combinations", len(work))
	r.Parallel(len(work), 8, func(i int) { do(work[i]) })

	// Lists.
	var alphabet []item
	alphabet = append(alphabet, item{-1, 0, 0})
	for i := range resources() {
		for j := range scopes {
			alphabet = append(alphabet, item{i, j, 0})
		}
	}
	depth := lib.Pick(r, 3, 4)
	var lists [][]item
	var rec func(p []item)
	rec = func(p []item) {
		lists = append(lists, append([]item(nil), p...))
		if len(p) < depth {
			for _, a := range alphabet {
				rec(append(p[:len(p):len(p)], a))
			}
		}
	}
	rec(nil)
	// Longer lists over fewer groups: growth of a group that is not the last.
	small := []item{{1, 1, 0}, {1, 2, 0}, {2, 1, 0}, {-1, 0, 0}}
	long := lib.Pick(r, 7, 9)
	var rec2 func(p []item)
	rec2 = func(p []item) {
		if len(p) > depth {
			lists = append(lists, append([]item(nil), p...))
		}
		if len(p) < long {
			for _, a := range small {
				rec2(append(p[:len(p):len(p)], a))
			}
		}
	}
	rec2(nil)
	r.Note("lists", len(lists))
	var snaps [][]sdk.ReadOnlySpan
	var wants []*tracev1.Span
	rs := resources()
	for i := range long {
		var row []sdk.ReadOnlySpan
		s, o := plain(i)
		for a := range rs {
			for b := range scopes {
				s.Resource, s.InstrumentationLibrary = rs[a], scopes[b]
				row = append(row, s.Snapshot())
			}
		}
		snaps = append(snaps, row)
		wants = append(wants, o)
	}
	r.Parallel(len(lists), 8, func(n int) {
		l := lists[n]
		key := "list"
		for _, it := range l {
			key += fmt.Sprintf("-%d.%d", it.res, it.scope)
		}
		r.State(key)
		r.Trace()
		r.Transitions(len(l))
		r.Case(key, l, func() error {
			var in []sdk.ReadOnlySpan
			for i, it := range l {
				if it.res < 0 {
					in = append(in, nil)
				} else {
					in = append(in, snaps[i][it.res*len(scopes)+it.scope])
				}
			}
			return check(l, in, wants[:len(l)])
		})
	})
	r.Sample(map[string]any{"lists up to": depth, "groups": len(alphabet)})
}

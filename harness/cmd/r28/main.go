// R28: no valid request brings the server down.
package main

import (
	"context"
	"fmt"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"sync"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/gen"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// wire gives m the way it comes out of a request.
func wire[T proto.Message](m T) (o T, err error) {
	b, err := proto.Marshal(m)
	if err != nil {
		return o, err
	}
	o = m.ProtoReflect().New().Interface().(T)
	return o, proto.Unmarshal(b, o)
}

// within runs f and fails when it does not come back.
func within(what string, f func() error) error {
	done := make(chan error, 1)
	go func() { done <- lib.Guard(f) }()
	select {
	case err := <-done:
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		return nil
	case <-time.After(40 * time.Second):
		return fmt.Errorf("%s does not return", what)
	}
}

// running has the cases in progress.
var running sync.Map

func regular(sc v1.Scan_SCOPE, n int) *v1.Data {
	at := lib.Day0.Add(10*time.Hour + time.Duration(n)*time.Minute)
	switch sc {
	case v1.Scan_METRICS:
		return tel.PlainMetrics(n, at)
	case v1.Scan_LOGS:
		return tel.RichLogs(n, at)
	}
	return tel.RichTraces(n, at)
}

// marker is a filter for the regular messages.
func marker() *v1.Scan_Filter { return tel.Base(v1.Scan_RESOURCE_SCHEMA, "https://r/1") }

func exportCase(r *lib.Run, ds ...*v1.Data) error {
	n := 0
	for _, d := range ds {
		n += proto.Size(d)
	}
	// A database in memory takes values of up to 1 MB.
	s, err := stack.Open(r.Scratch("h"), n < 1<<18)
	if err != nil {
		return err
	}
	sc := v1.Scan_METRICS
	for _, d := range ds {
		if err := within("the export", func() error {
			m, err := wire(d)
			if err != nil {
				return nil // not a valid request
			}
			if m.Data == nil {
				return nil
			}
			s.Export(m) // an error is an answer too
			return nil
		}); err != nil {
			return err
		}
		if d.Data != nil {
			sc = tel.Kind(d)
		}
	}
	want := tel.Flat{}
	want.Add(regular(sc, 1))
	if err := within("the export after it", func() error { return s.Export(regular(sc, 1)) }); err != nil {
		return err
	}
	if err := within("the flush", s.Flush); err != nil {
		return err
	}
	look := func(what string, want tel.Flat) error {
		return within(what, func() error {
			res, err := s.Scan(tel.Range(sc, lib.Day0.Add(9*time.Hour), lib.Day0.Add(12*time.Hour), marker()))
			if err != nil {
				return err
			}
			if d := tel.Diff(want, tel.Of(res), false); d != "" {
				return fmt.Errorf("%s", d)
			}
			return nil
		})
	}
	if err := look("the query for the regular message", want); err != nil {
		return err
	}
	// Queries that reach the odd message: everything there is.
	for _, rg := range [][2]time.Time{{time.Unix(0, 0), time.Unix(0, math.MaxInt64)}, {time.Unix(0, math.MinInt64), time.Unix(0, math.MaxInt64)}} {
		if err := within("a query over all time", func() error {
			_, err := s.Scan(tel.Range(sc, rg[0], rg[1]))
			return err
		}); err != nil {
			return err
		}
	}
	if err := within("a second flush", func() error {
		if err := s.Export(regular(sc, 2)); err != nil {
			return err
		}
		return s.Flush()
	}); err != nil {
		return err
	}
	want.Add(regular(sc, 2))
	if err := look("the second query for the regular messages", want); err != nil {
		return err
	}
	return within("the stop", s.Close)
}

// extremes are more values for scalars than gen has.
func extremes(f protoreflect.FieldDescriptor) (o []protoreflect.Value) {
	switch f.Kind() {
	case protoreflect.EnumKind:
		o = append(o, protoreflect.ValueOfEnum(99), protoreflect.ValueOfEnum(-1), protoreflect.ValueOfEnum(math.MaxInt32), protoreflect.ValueOfEnum(math.MinInt32))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		o = append(o, protoreflect.ValueOfUint64(math.MaxUint64), protoreflect.ValueOfUint64(math.MaxInt64), protoreflect.ValueOfUint64(1<<63), protoreflect.ValueOfUint64(1))
	case protoreflect.StringKind:
		for _, n := range []int{127, 255, 4096, 65519, 65535, 70000, 1 << 20} {
			o = append(o, protoreflect.ValueOfString(strings.Repeat("x", n)))
		}
		o = append(o, protoreflect.ValueOfString("\x00"), protoreflect.ValueOfString("=:\\\n"), protoreflect.ValueOfString("!badger!"))
	case protoreflect.BytesKind:
		for _, n := range []int{0, 7, 17, 65535, 70000} {
			o = append(o, protoreflect.ValueOfBytes(make([]byte, n)))
		}
	}
	return
}

func deep(n int, list bool) *commonv1.AnyValue {
	v := &commonv1.AnyValue{Value: &commonv1.AnyValue_StringValue{StringValue: "end"}}
	for range n {
		if list {
			v = &commonv1.AnyValue{Value: &commonv1.AnyValue_ArrayValue{ArrayValue: &commonv1.ArrayValue{Values: []*commonv1.AnyValue{v, {}}}}}
		} else {
			v = &commonv1.AnyValue{Value: &commonv1.AnyValue_KvlistValue{KvlistValue: &commonv1.KeyValueList{Values: []*commonv1.KeyValue{{Key: "k", Value: v}}}}}
		}
	}
	return v
}

// put sets the field at the end of path p to v in d.
func put(d *v1.Data, p gen.Path, v protoreflect.Value) {
	m := d.ProtoReflect()
	for i, f := range p.Fields {
		if i == len(p.Fields)-1 {
			if f.IsList() {
				l := m.Mutable(f).List()
				l.Append(v)
			} else {
				m.Set(f, v)
			}
			return
		}
		if f.IsList() {
			l := m.Mutable(f).List()
			if l.Len() == 0 {
				l.Append(l.NewElement())
			}
			m = l.Get(0).Message()
		} else {
			m = m.Mutable(f).Message()
		}
	}
}

type exp struct {
	key   string
	build func() *v1.Data
}

func rich(p gen.Path) *v1.Data {
	at := lib.Day0.Add(8 * time.Hour)
	switch p.Fields[0].Name() {
	case "metrics":
		return tel.RichMetrics(3, at)
	case "logs":
		return tel.RichLogs(3, at)
	}
	return tel.RichTraces(3, at)
}

func exports(r *lib.Run) (es []exp) {
	add := func(key string, f func() *v1.Data) { es = append(es, exp{key, f}) }
	for _, p := range gen.Paths() {
		f := p.Fields[len(p.Fields)-1]
		// Only this field is there.
		for v := range p.Variants() {
			if r.Quick() && p.Leaf && f.Message() != nil && v%3 != 2 {
				continue
			}
			if r.Quick() && p.Leaf && f.Message() == nil && v == 0 {
				continue
			}
			add(fmt.Sprintf("only %s variant %d", p, v), func() *v1.Data { return p.Build(v) })
		}
		if !p.Leaf {
			if r.Quick() && len(p.Fields) > 7 {
				continue
			}
			// A full message without this part, and with an empty one.
			add(fmt.Sprintf("full with empty %s", p), func() *v1.Data {
				d := rich(p)
				m := d.ProtoReflect()
				for i, f := range p.Fields {
					if i == len(p.Fields)-1 {
						m.Clear(f)
						if f.IsList() {
							l := m.Mutable(f).List()
							l.Append(l.NewElement())
						} else {
							m.Mutable(f)
						}
						break
					}
					if f.IsList() {
						l := m.Mutable(f).List()
						if l.Len() == 0 {
							l.Append(l.NewElement())
						}
						m = l.Get(0).Message()
					} else {
						m = m.Mutable(f).Message()
					}
				}
				return d
			})
			continue
		}
		if f.Message() != nil {
			for _, n := range lib.Pick(r, []int{400}, []int{400, 3000}) {
				for _, list := range []bool{true, false} {
					if r.Quick() && len(p.Fields) > 6 {
						continue
					}
					add(fmt.Sprintf("only %s nested %d %v", p, n, list), func() *v1.Data {
						d := &v1.Data{}
						put(d, p, protoreflect.ValueOfMessage(deep(n, list).ProtoReflect()))
						return d
					})
				}
			}
			continue
		}
		for i, v := range extremes(f) {
			if r.Quick() && f.Kind() == protoreflect.StringKind && (i == 0 || i == 1 || i == 2 || i == 3 || i == 8) {
				continue
			}
			add(fmt.Sprintf("only %s extreme %d", p, i), func() *v1.Data {
				d := &v1.Data{}
				put(d, p, v)
				return d
			})
			if !r.Quick() || f.Kind() == protoreflect.EnumKind && i == 0 {
				add(fmt.Sprintf("full with %s extreme %d", p, i), func() *v1.Data {
					d := rich(p)
					put(d, p, v)
					return d
				})
			}
		}
	}
	// Fields that are not known.
	for i, sc := range tel.Scopes {
		add(fmt.Sprintf("unknown fields %v", sc), func() *v1.Data {
			d := rich(gen.Path{Fields: []protoreflect.FieldDescriptor{(&v1.Data{}).ProtoReflect().Descriptor().Fields().ByName(protoreflect.Name([]string{"metrics", "traces", "logs"}[i]))}})
			var b []byte
			b = protowire.AppendTag(b, 2000+protowire.Number(i), protowire.BytesType)
			b = protowire.AppendBytes(b, []byte("unknown"))
			d.ProtoReflect().SetUnknown(b)
			return d
		})
	}
	return
}

func main() {
	lib.Main("R28", "model_checking", func(r *lib.Run) {
		lib.FastParquet()
		r.Rule("every export message in which exactly one field of the schema is set, to every ordinary and extreme value, and every full message with one part empty or one field extreme; every combination of up to two odd fields of a scan; each followed by a flush, regular exports and queries that must work. A request that is not answered in 40 s counts as a hang.")
		debug.SetGCPercent(100)
		debug.SetMemoryLimit(6 << 30)
		r.Progress()
		// A request that eats up the memory must not take the sandbox with it.
		go func() {
			var m runtime.MemStats
			for range time.Tick(100 * time.Millisecond) {
				if runtime.ReadMemStats(&m); m.HeapAlloc < 10<<30 {
					continue
				}
				runtime.GC()
				if runtime.ReadMemStats(&m); m.HeapAlloc > 10<<30 {
					fmt.Fprintln(os.Stderr, "10 GB of memory in use by one of:")
					running.Range(func(k, _ any) bool { fmt.Fprintf(os.Stderr, "  %.200s\n", k); return true })
					if p := os.Getenv("R28_HEAP"); p != "" {
						f, _ := os.Create(p)
						pprof.Lookup("heap").WriteTo(f, 0)
						f.Close()
					}
					os.Exit(66)
				}
			}
		}()

		scans(r)

		es := exports(r)
		r.Note("export messages", len(es))
		// Several at once; if that fails each of them alone.
		group := lib.Pick(r, 8, 1)
		var mu sync.Mutex
		var alone []exp
		if group > 1 {
			n := (len(es) + group - 1) / group
			r.Parallel(n, 10, func(i int) {
				g := es[i*group : min(len(es), (i+1)*group)]
				var ds []*v1.Data
				for _, e := range g {
					ds = append(ds, e.build())
					r.State(e.key)
				}
				r.Trace()
				r.Transitions(7 + len(g))
				key := "from " + g[0].key + " to " + g[len(g)-1].key
				running.Store(key, true)
				defer running.Delete(key)
				r.Begin(key)
				defer r.End(key)
				if err := lib.Guard(func() error { return exportCase(r, ds...) }); err != nil {
					mu.Lock()
					defer mu.Unlock()
					alone = append(alone, g...)
					alone = append(alone, exp{key, nil})
				}
			})
			es = alone
		}
		var last []exp
		failed := false
		r.Parallel(len(es), 10, func(i int) {
			e := es[i]
			if e.build == nil {
				mu.Lock()
				defer mu.Unlock()
				last = append(last, e)
				return
			}
			r.State(e.key)
			r.Trace()
			r.Transitions(8)
			if i%397 == 0 {
				r.Sample(e.key)
			}
			running.Store(e.key, true)
			defer running.Delete(e.key)
			if !r.Case(e.key, e.key, func() error { return exportCase(r, e.build()) }) {
				mu.Lock()
				defer mu.Unlock()
				failed = true
			}
		})
		// A group that fails though none of its members does.
		if group > 1 && !failed {
			all := exports(r)
			for _, e := range last {
				for i := 0; i < len(all); i += group {
					g := all[i:min(len(all), i+group)]
					if e.key == "from "+g[0].key+" to "+g[len(g)-1].key {
						r.Case(e.key, e.key, func() error {
							var ds []*v1.Data
							for _, x := range g {
								ds = append(ds, x.build())
							}
							return exportCase(r, ds...)
						})
					}
				}
			}
		}
	})
}

// A setter sets a part of a scan.
type setter struct {
	name string
	f    func(q *v1.Scan)
}

func times() map[string]*timestamppb.Timestamp {
	return map[string]*timestamppb.Timestamp{
		"nil": nil, "zero": {}, "day": timestamppb.New(lib.Day0.Add(10 * time.Hour)), "later": timestamppb.New(lib.Day0.Add(13 * time.Hour)),
		"year 1": timestamppb.New(time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)), "year 9999": timestamppb.New(time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC)),
		"min": {Seconds: math.MinInt64}, "max": {Seconds: math.MaxInt64, Nanos: math.MaxInt32}, "negative nanos": {Seconds: lib.Day0.Unix(), Nanos: math.MinInt32}, "before 1970": {Seconds: -1},
	}
}

func setters() (groups [][]setter) {
	ts := times()
	var scope, rg, now, off, lim, rev, fs []setter
	for _, s := range []int32{0, 1, 2, 3, 4, 5, 7, 99, -1, math.MaxInt32, math.MinInt32} {
		scope = append(scope, setter{fmt.Sprint("scope=", s), func(q *v1.Scan) { q.Scope = v1.Scan_SCOPE(s) }})
	}
	rg = append(rg, setter{"no range", func(q *v1.Scan) { q.TimeRange = nil }}, setter{"empty range", func(q *v1.Scan) { q.TimeRange = &v1.Scan_TimeRange{} }})
	for _, a := range keys(ts) {
		for _, b := range keys(ts) {
			rg = append(rg, setter{"range " + a + " to " + b, func(q *v1.Scan) { q.TimeRange = &v1.Scan_TimeRange{Start: ts[a], End: ts[b]} }})
		}
		now = append(now, setter{"now " + a, func(q *v1.Scan) { q.TimeRange = nil; q.Now = ts[a] }})
	}
	for i, d := range []*durationpb.Duration{{}, {Seconds: 3600}, {Seconds: -3600}, {Seconds: math.MaxInt64, Nanos: math.MaxInt32}, {Seconds: math.MinInt64, Nanos: math.MinInt32}, {Nanos: 1}} {
		off = append(off, setter{fmt.Sprint("offset ", i), func(q *v1.Scan) { q.Offset = d }},
			setter{fmt.Sprint("instant offset ", i), func(q *v1.Scan) { q.TimeRange = nil; q.Offset = d }})
	}
	for _, l := range []uint64{0, 1, 2, 1 << 31, 1 << 32, 1 << 63, math.MaxUint64} {
		lim = append(lim, setter{fmt.Sprint("limit ", l), func(q *v1.Scan) { q.Limit = l }})
	}
	rev = append(rev, setter{"reverse", func(q *v1.Scan) { q.Reverse = true }})
	filter := func(name string, f ...*v1.Scan_Filter) {
		fs = append(fs, setter{"filter " + name, func(q *v1.Scan) { q.Filters = append(q.Filters, f...) }})
	}
	filter("empty", &v1.Scan_Filter{})
	filter("empty base", &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{}}})
	filter("empty attr", &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{}}})
	for _, p := range []int32{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 99, -1, math.MaxInt32, math.MinInt32} {
		for _, v := range []string{"", "lib", "\x00", strings.Repeat("v", 70000)} {
			n := fmt.Sprintf("prop %d value %.5q", p, v)
			filter("base "+n, tel.Base(v1.Scan_BaseProp(p), v))
			filter("attr "+n, tel.Attr(v1.Scan_AttributeProp(p), v, v))
		}
	}
	var many []*v1.Scan_Filter
	for i := range 2000 {
		many = append(many, tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "service.name", "a"), tel.Attr(v1.Scan_ATTRIBUTES, "k", fmt.Sprint(i)))
	}
	filter("4000 of them", many...)
	return [][]setter{scope, rg, now, off, lim, rev, fs}
}

func keys(m map[string]*timestamppb.Timestamp) (o []string) {
	for _, k := range []string{"nil", "zero", "day", "later", "year 1", "year 9999", "min", "max", "negative nanos", "before 1970"} {
		if _, ok := m[k]; ok {
			o = append(o, k)
		}
	}
	return
}

func scans(r *lib.Run) {
	groups := setters()
	var work [][]setter
	for a, g := range groups {
		for xi, x := range g {
			work = append(work, []setter{x})
			for b := a + 1; b < len(groups); b++ {
				for _, y := range groups[b] {
					if r.Quick() && a == 1 && b == len(groups)-1 && xi%9 > 0 {
						continue
					}
					work = append(work, []setter{x, y})
				}
			}
		}
	}
	r.Note("scans", len(work))
	const n = 8
	r.Parallel(n, n, func(w int) {
		var s *stack.Stack
		open := func() (err error) {
			if s, err = stack.Open(r.Scratch("h"), true); err != nil {
				return err
			}
			for _, sc := range tel.Scopes {
				if err = s.Export(regular(sc, 1)); err != nil {
					return
				}
			}
			return s.Flush()
		}
		if err := open(); err != nil {
			r.Fail("open", nil, err)
			return
		}
		defer func() { s.Close() }()
		for i := w; i < len(work); i += n {
			if r.Expired() {
				return
			}
			var names []string
			for _, x := range work[i] {
				names = append(names, x.name)
			}
			key := strings.Join(names, ", ")
			r.State(key)
			r.Trace()
			r.Transitions(3)
			if i%2999 == 0 {
				r.Sample(key)
			}
			running.Store(key, true)
			r.Case(key, key, func() error {
				defer running.Delete(key)
				for _, sc := range []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_TRACES} {
					q := tel.Range(sc, lib.Day0.Add(9*time.Hour), lib.Day0.Add(12*time.Hour))
					for _, x := range work[i] {
						x.f(q)
					}
					m, err := wire(q)
					if err != nil {
						return nil
					}
					if err := within("the scan", func() error {
						d, err := s.Svc.ScanSamples(context.Background(), m)
						if err == nil {
							// the answer must fit in a response
							_, err = proto.Marshal(d)
							if err != nil {
								return fmt.Errorf("%s: %w", prototext.Format(d), err)
							}
						}
						return nil
					}); err != nil {
						return err
					}
					if len(work[i]) == 2 && i%8 != 0 {
						continue
					}
					if err := within("the regular scan after it", func() error {
						res, err := s.Scan(tel.Range(sc, lib.Day0.Add(9*time.Hour), lib.Day0.Add(12*time.Hour)))
						if err != nil {
							return err
						}
						want := tel.Flat{}
						want.Add(regular(sc, 1))
						if d := tel.Diff(want, tel.Of(res), false); d != "" {
							return fmt.Errorf("%s", d)
						}
						return nil
					}); err != nil {
						return err
					}
					if work[i][0].name[:5] == "scope" {
						break
					}
				}
				return nil
			})
		}
	})
}

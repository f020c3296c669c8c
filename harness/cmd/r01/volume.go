package main

import (
	"encoding/binary"
	"fmt"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// openAt opens a server that has used that many sample ids and labels.
func openAt(dir string, sample, label uint64) (*stack.Stack, error) {
	s, err := stack.Open(dir, false)
	if err != nil {
		return nil, err
	}
	if label > 0 {
		if err := s.CloseParts(); err != nil {
			return nil, err
		}
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], label)
		if err := s.DB.Update(func(txn *badger.Txn) error {
			return txn.Set(append(append([]byte{}, stack.Prefix...), "seq"...), b[:])
		}); err != nil {
			return nil, err
		}
		if err := s.OpenParts(); err != nil {
			return nil, err
		}
	}
	for i := uint64(0); i < sample; i++ {
		s.Seq.SampleID()
	}
	return s, nil
}

// later runs a history on a server that has been in use for long.
func later(r *lib.Run, sample, label uint64, h []int) error {
	s, err := openAt(r.Scratch("h"), sample, label)
	if err != nil {
		return err
	}
	defer func() { s.Close() }()
	var all []*v1.Data
	look := func() error {
		if err := verify(r, s, all); err != nil {
			return err
		}
		return filtered(r, s, all)
	}
	for k, i := range h {
		o := ops[i]
		switch {
		case o.msg != nil:
			d := o.msg(k+1, lib.Day0.Add(time.Duration(o.hour)*time.Hour+time.Duration(k)*time.Minute))
			all = append(all, tel.Clone(d))
			err = s.Export(d)
		case o.name == "flush":
			if err = s.Flush(); err == nil {
				err = look()
			}
		default:
			if err = s.Restart(); err == nil {
				err = look()
			}
		}
		if err != nil {
			return fmt.Errorf("step %d %s: %w", k, o.name, err)
		}
	}
	if err := s.Flush(); err != nil {
		return err
	}
	return look()
}

// filtered asks for every message by the name of something in it.
func filtered(r *lib.Run, s *stack.Stack, all []*v1.Data) error {
	for _, sc := range tel.Scopes {
		names := map[string]bool{}
		of := func(d *v1.Data) map[string]bool {
			m := map[string]bool{}
			for _, x := range tel.Records(d) {
				for _, a := range x.Res.GetAttributes() {
					if v, ok := a.GetValue().GetValue().(*commonv1.AnyValue_StringValue); ok {
						m[a.GetKey()+"\x00"+v.StringValue] = true
					}
				}
			}
			return m
		}
		for _, d := range all {
			if tel.Kind(d) == sc {
				for n := range of(d) {
					names[n] = true
				}
			}
		}
		for n := range names {
			k, v, _ := strings.Cut(n, "\x00")
			want := tel.Flat{}
			for _, d := range all {
				if tel.Kind(d) == sc && of(d)[n] {
					want.Add(tel.Clone(d))
				}
			}
			r.Transitions(1)
			res, err := s.Scan(tel.Range(sc, lib.Day0, lib.Day0.Add(24*time.Hour), tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, k, v)))
			if err != nil {
				return fmt.Errorf("scan of %s with %s=%s: %w", sc, k, v, err)
			}
			if d := tel.Diff(want, tel.Of(res), false); d != "" {
				return fmt.Errorf("scan of %s with %s=%s: %s", sc, k, v, d)
			}
		}
	}
	return nil
}

// A load is many things at once.
type load struct {
	name string
	make func() []*v1.Data
}

func loads(r *lib.Run) (o []load) {
	at := lib.Day0.Add(10 * time.Hour)
	ns := uint64(at.UnixNano())
	for _, n := range lib.Pick(r, []int{1025, 4097}, []int{1023, 1024, 1025, 4095, 4096, 4097, 8193}) {
		o = append(o, load{fmt.Sprintf("%d messages of all signals", n), func() (ds []*v1.Data) {
			for i := range n {
				res := tel.Res("service.name", fmt.Sprint("s", i%3))
				t := ns + uint64(i)*1e6
				switch i % 3 {
				case 0:
					ds = append(ds, tel.One(res, nil, tel.Gauge("g", tel.Num(t, float64(i), "i", fmt.Sprint(i)))))
				case 1:
					ds = append(ds, tel.OneLog(res, nil, &logsv1.LogRecord{TimeUnixNano: t, Body: tel.Int(int64(i))}))
				default:
					ds = append(ds, tel.OneSpan(res, nil, &tracev1.Span{Name: fmt.Sprint("n", i), StartTimeUnixNano: t, EndTimeUnixNano: t + 1}))
				}
			}
			return
		}})
	}
	for _, n := range lib.Pick(r, []int{1025, 70000}, []int{1023, 1024, 1025, 32769, 65535, 65536, 70000, 140000}) {
		o = append(o, load{fmt.Sprintf("%d records in each message", n), func() []*v1.Data {
			var ps []*metricsv1.NumberDataPoint
			var ls []*logsv1.LogRecord
			var ss []*tracev1.Span
			for i := range n {
				t := ns + uint64(i)
				ps = append(ps, tel.Num(t, float64(i)))
				ls = append(ls, &logsv1.LogRecord{TimeUnixNano: t, Body: tel.Int(int64(i))})
				ss = append(ss, &tracev1.Span{Name: "n", StartTimeUnixNano: t, EndTimeUnixNano: t + 1, DroppedEventsCount: uint32(i)})
			}
			res := tel.Res("service.name", "a")
			return []*v1.Data{tel.One(res, nil, tel.Gauge("g", ps...)), tel.OneLog(res, nil, ls...), tel.OneSpan(res, nil, ss...), tel.One(tel.Res("service.name", "b"), nil, tel.Gauge("g", ps[:3]...))}
		}})
	}
	for _, n := range lib.Pick(r, []int{257, 5000}, []int{255, 256, 257, 4097, 5000, 20000, 66000}) {
		o = append(o, load{fmt.Sprintf("%d attributes in a message", n), func() []*v1.Data {
			var kv []string
			for i := range n {
				kv = append(kv, fmt.Sprint("k", i), fmt.Sprint("v", i))
			}
			return []*v1.Data{tel.One(tel.Res("service.name", "a"), nil, tel.Gauge("g", tel.Num(ns, 1, kv...))),
				tel.OneLog(tel.Res("service.name", "a"), nil, &logsv1.LogRecord{TimeUnixNano: ns, Attributes: tel.KV(kv...)}),
				tel.OneSpan(tel.Res("service.name", "b"), nil, &tracev1.Span{Name: "n", StartTimeUnixNano: ns, EndTimeUnixNano: ns + 1, Attributes: tel.KV(kv...)})}
		}}, load{fmt.Sprintf("%d resources and scopes in a message", n), func() []*v1.Data {
			var rm []*metricsv1.ResourceMetrics
			var rl []*logsv1.ResourceLogs
			for i := range n {
				res := tel.Res("service.name", fmt.Sprint("s", i%5), "i", fmt.Sprint(i))
				sc := tel.Scope(fmt.Sprint("lib", i), "v1")
				rm = append(rm, &metricsv1.ResourceMetrics{Resource: res, ScopeMetrics: []*metricsv1.ScopeMetrics{{Scope: sc, Metrics: []*metricsv1.Metric{tel.Gauge("g", tel.Num(ns, float64(i)))}}}})
				rl = append(rl, &logsv1.ResourceLogs{Resource: res, ScopeLogs: []*logsv1.ScopeLogs{{Scope: sc, LogRecords: []*logsv1.LogRecord{{TimeUnixNano: ns, Body: tel.Int(int64(i))}}}}})
			}
			return []*v1.Data{tel.Metrics(rm...), tel.Logs(rl...)}
		}})
	}
	for _, n := range lib.Pick(r, []int{3 << 20}, []int{1 << 20, 3 << 20, 12 << 20, 40 << 20}) {
		o = append(o, load{fmt.Sprintf("%d bytes in a record", n), func() []*v1.Data {
			// does not compress well
			var b strings.Builder
			for x := uint64(1); b.Len() < n; x = x*6364136223846793005 + 1442695040888963407 {
				fmt.Fprintf(&b, "%016x", x)
			}
			res := tel.Res("service.name", "a")
			return []*v1.Data{tel.OneLog(res, nil, &logsv1.LogRecord{TimeUnixNano: ns, Body: tel.Str(b.String())}),
				tel.OneSpan(res, nil, &tracev1.Span{Name: "n", TraceState: b.String(), StartTimeUnixNano: ns, EndTimeUnixNano: ns + 1}),
				tel.One(tel.Res("service.name", "b"), nil, tel.Gauge("g", tel.Num(ns, 1, "k", "v")))}
		}})
	}
	return
}

// carry exports a load in one flush or two, and looks at it before and after
// a restart and one more flush.
func carry(r *lib.Run, l load, split int) error {
	s, err := stack.Open(r.Scratch("h"), false)
	if err != nil {
		return err
	}
	defer func() { s.Close() }()
	all := l.make()
	look := func(what string) error {
		for _, sc := range tel.Scopes {
			for _, svc := range []string{"", "s0", "a", "b"} {
				want := tel.Flat{}
				for _, d := range all {
					if tel.Kind(d) != sc {
						continue
					}
					hit := svc == ""
					for _, x := range tel.Records(d) {
						hit = hit || len(x.Res.GetAttributes()) > 0 && x.Res.Attributes[0].GetValue().GetStringValue() == svc
						if hit {
							break
						}
					}
					if hit {
						want.Add(tel.Clone(d))
					}
				}
				q := tel.Range(sc, lib.Day0, lib.Day0.Add(24*time.Hour))
				if svc != "" {
					q.Filters = append(q.Filters, tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "service.name", svc))
				}
				r.Transitions(1)
				res, err := s.Scan(q)
				if err != nil {
					return fmt.Errorf("%s: scan of %s: %w", what, sc, err)
				}
				if d := tel.Diff(want, tel.Of(res), false); d != "" {
					return fmt.Errorf("%s: scan of %s with service %q: %.1000s", what, sc, svc, d)
				}
			}
		}
		return nil
	}
	for i, d := range all {
		if i > 0 && i == len(all)*split/2 {
			if err := s.Flush(); err != nil {
				return err
			}
		}
		if err := s.Export(tel.Clone(d)); err != nil {
			return err
		}
	}
	if err := s.Flush(); err != nil {
		return err
	}
	if err := look("after the flush"); err != nil {
		return err
	}
	if err := s.Restart(); err != nil {
		return err
	}
	last := tel.One(tel.Res("service.name", "a", "last", "yes"), nil, tel.Gauge("last", tel.Num(uint64(lib.Day0.Add(10*time.Hour).UnixNano()), 1)))
	all = append(all, last)
	if err := s.Export(tel.Clone(last)); err != nil {
		return err
	}
	if err := s.Flush(); err != nil {
		return err
	}
	return look("after a restart and one more flush")
}

func volume(r *lib.Run) {
	ls := loads(r)
	r.Note("loads", len(ls))
	r.Parallel(2*len(ls), 4, func(i int) {
		l := ls[i/2]
		n := fmt.Sprintf("%s, %d flushes", l.name, i%2+1)
		r.State(n)
		r.Trace()
		r.Case(n, n, func() error { return carry(r, l, i%2) })
	})
	type start struct{ sample, label uint64 }
	starts := lib.Pick(r, []start{{253, 65530}, {4094, 1<<20 - 6}, {65534, 0}},
		[]start{{253, 65530}, {1022, 0}, {4094, 1<<20 - 6}, {32766, 1<<32 - 6}, {65534, 0}, {65534, 65530}, {131070, 1<<40 - 9}})
	var hs [][]int
	var rec func(h []int, depth int)
	rec = func(h []int, depth int) {
		if len(h) == depth {
			hs = append(hs, append([]int{}, h...))
			return
		}
		for _, i := range []int{1, 2, 3, 5, 6} {
			if ops[i].msg == nil && (len(h) == 0 || ops[h[len(h)-1]].msg == nil) {
				continue
			}
			rec(append(h, i), depth)
		}
	}
	rec(nil, lib.Pick(r, 3, 4))
	r.Note("histories after long use", len(hs)*len(starts))
	r.Parallel(len(hs)*len(starts), 8, func(i int) {
		h, st := hs[i%len(hs)], starts[i/len(hs)]
		n := fmt.Sprintf("after %d samples and %d labels: %s", st.sample, st.label, name(h))
		r.State(n)
		r.Trace()
		r.Transitions(len(h))
		r.Case(n, n, func() error { return later(r, st.sample, st.label, h) })
	})
	if !r.Quick() && !r.Expired() {
		// the second shard of samples
		for _, h := range [][]int{{1, 2, 5, 3, 1}, {1, 5, 2, 6, 1}} {
			n := "after a million samples: " + name(h)
			r.State(n)
			r.Trace()
			r.Case(n, n, func() error { return later(r, 1<<20-2, 0, h) })
		}
	}
}

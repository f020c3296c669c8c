// R09: a clean stop and start changes no answer.
package main

import (
	"fmt"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type op struct {
	name string
	do   func(n int) []*v1.Data
}

func at(day, hour, n int) time.Time {
	return lib.Day0.Add(time.Duration(day*24+hour)*time.Hour + time.Duration(n)*time.Minute)
}

func ts(day, hour, n int) uint64 { return uint64(at(day, hour, n).UnixNano()) }

var ops = []op{
	{"metrics a@10", func(n int) []*v1.Data {
		return []*v1.Data{tel.One(tel.Res("k", "a"), tel.Scope("lib", "1"), tel.Gauge("g", tel.Num(ts(0, 10, n), float64(n), "p", "q")))}
	}},
	{"metrics b@11", func(n int) []*v1.Data {
		return []*v1.Data{tel.One(tel.Res("k", "b"), tel.Scope("lib", "2"), tel.Gauge("g", tel.Num(ts(0, 11, n), float64(n))))}
	}},
	{"logs and spans@next day", func(n int) []*v1.Data {
		return []*v1.Data{
			tel.OneLog(tel.Res("k", "a"), nil, &logsv1.LogRecord{TimeUnixNano: ts(1, 0, n), SeverityText: "ERROR", Body: tel.Int(int64(n)), TraceId: []byte{1, 2}}),
			tel.OneSpan(tel.Res("k", "b"), nil, &tracev1.Span{Name: "op", StartTimeUnixNano: ts(1, 0, n), EndTimeUnixNano: ts(1, 0, n) + 5, TraceId: []byte{1, 2}, SpanId: []byte{byte(n)}}),
		}
	}},
	{"many labels", func(n int) []*v1.Data {
		var d []*v1.Data
		for i := range 12 {
			d = append(d, tel.One(tel.Res("k", "a", fmt.Sprint("key", n), fmt.Sprint(i)), nil, tel.Gauge(fmt.Sprint("m", i), tel.Num(ts(0, 10, n), float64(i)))))
		}
		return d
	}},
	{"flush", nil},
	{"restart", nil},
}

const (
	flush   = 4
	restart = 5
)

func name(h []int) string {
	var s []string
	for _, i := range h {
		s = append(s, ops[i].name)
	}
	return strings.Join(s, " · ")
}

// The queries that are compared.
func queries(n int) (qs []*v1.Scan) {
	type rg struct{ a, b time.Time }
	ranges := []rg{{at(0, 9, 0), at(0, 13, 0)}, {at(0, 0, 0), at(40, 0, 0)}, {at(0, 10, 0), at(0, 11, 0)}}
	for _, sc := range tel.Scopes {
		fs := [][]*v1.Scan_Filter{nil, {tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "k", "a")}, {tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "k", "nope")}}
		switch sc {
		case v1.Scan_METRICS:
			fs = append(fs, []*v1.Scan_Filter{tel.Base(v1.Scan_NAME, "g"), tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "k", "b")},
				[]*v1.Scan_Filter{tel.Base(v1.Scan_SCOPE_VERSION, "2")})
			for i := 1; i <= n; i++ {
				fs = append(fs, []*v1.Scan_Filter{tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, fmt.Sprint("key", i), "7")})
			}
		case v1.Scan_LOGS:
			fs = append(fs, []*v1.Scan_Filter{tel.Base(v1.Scan_LOGS_LEVEL, "ERROR")})
		case v1.Scan_TRACES:
			fs = append(fs, []*v1.Scan_Filter{tel.Base(v1.Scan_NAME, "op")})
		}
		for ri, g := range ranges {
			for fi, f := range fs {
				if ri > 0 && fi > 1 {
					continue
				}
				qs = append(qs, tel.Range(sc, g.a, g.b, f...))
			}
		}
		for _, l := range []uint64{1, 2} {
			for _, rev := range []bool{false, true} {
				for _, f := range fs[:2] {
					q := tel.Range(sc, ranges[1].a, ranges[1].b, f...)
					q.Limit, q.Reverse = l, rev
					qs = append(qs, q)
				}
			}
		}
		for _, now := range []time.Time{at(0, 10, 10), at(0, 11, 20), at(1, 0, 20)} {
			for _, f := range fs[:2] {
				qs = append(qs, &v1.Scan{Scope: sc, Now: timestamppb.New(now), Filters: f})
			}
		}
	}
	return
}

func answers(r *lib.Run, s *stack.Stack, qs []*v1.Scan) (o []*v1.Data, err error) {
	for _, q := range qs {
		d, err := s.Scan(proto.Clone(q).(*v1.Scan))
		r.Transitions(1)
		if err != nil {
			return nil, fmt.Errorf("%s: %w", protojson.Format(q), err)
		}
		o = append(o, d)
	}
	return
}

func same(qs []*v1.Scan, a, b []*v1.Data) error {
	for i := range qs {
		if proto.Equal(a[i], b[i]) {
			continue
		}
		if d := tel.Diff(tel.Of(a[i]), tel.Of(b[i]), true); d != "" {
			return fmt.Errorf("%s: %s", protojson.Format(qs[i]), d)
		}
	}
	return nil
}

// play runs h; restarts are done as such with real, and are flushes without.
func play(r *lib.Run, h []int, real bool) (out []*v1.Data, err error) {
	s, err := stack.Open(r.Scratch("h"), false)
	if err != nil {
		return nil, err
	}
	defer func() {
		if e := s.Close(); e != nil && err == nil {
			err = fmt.Errorf("stop: %w", e)
		}
	}()
	qs := queries(len(h))
	for k, i := range h {
		o := ops[i]
		switch {
		case o.do != nil:
			for _, d := range o.do(k + 1) {
				if err := s.Export(d); err != nil {
					return nil, fmt.Errorf("step %d: %w", k, err)
				}
			}
		case i == flush || !real:
			if err := s.Flush(); err != nil {
				return nil, fmt.Errorf("step %d: %w", k, err)
			}
		default:
			// Before the stop everything is flushed, so that the answers are final.
			if k == 0 || h[k-1] != flush {
				if err := s.Restart(); err != nil {
					return nil, fmt.Errorf("step %d: %w", k, err)
				}
				continue
			}
			before, err := answers(r, s, qs)
			if err != nil {
				return nil, fmt.Errorf("before step %d: %w", k, err)
			}
			if err := s.Restart(); err != nil {
				return nil, fmt.Errorf("step %d: %w", k, err)
			}
			after, err := answers(r, s, qs)
			if err != nil {
				return nil, fmt.Errorf("after step %d: %w", k, err)
			}
			if err := same(qs, before, after); err != nil {
				return nil, fmt.Errorf("the restart at step %d changed an answer: %w", k, err)
			}
		}
	}
	if err := s.Flush(); err != nil {
		return nil, err
	}
	return answers(r, s, qs)
}

func main() {
	lib.Main("R09", "model_checking", func(r *lib.Run) {
		lib.FastParquet()
		r.Rule("every history up to the depth of {4 kinds of export, flush, clean restart} with a restart in it; every answer of a set of ranges, filters, limits, directions and current times is compared before and after each restart that follows a flush, and at the end with the same history without restarts")
		depth := lib.Pick(r, 4, 5)
		var hs [][]int
		var rec func(h []int)
		rec = func(h []int) {
			exports, restarts := 0, 0
			for _, i := range h {
				if i == restart {
					restarts++
				} else if i != flush {
					exports++
				}
			}
			// One that ends with a restart or has none is part of another one.
			if restarts > 0 && exports > 0 && (len(h) == depth || h[len(h)-1] == restart) {
				hs = append(hs, append([]int(nil), h...))
			}
			if len(h) == depth {
				return
			}
			for i := range ops {
				if i == flush && len(h) > 0 && h[len(h)-1] >= flush {
					continue
				}
				if i == flush && len(h) == 0 {
					continue
				}
				if r.Quick() && (i == 2 && len(h) > 1 || i == 3 && len(h) > 2 || i == 1 && len(h) == 0 || i == 0 && len(h) == 3) {
					continue
				}
				rec(append(h[:len(h):len(h)], i))
			}
		}
		rec(nil)
		r.Note("histories", len(hs))
		r.Note("depth", depth)
		r.Note("queries per point", len(queries(depth)))
		r.Parallel(len(hs), 12, func(i int) {
			h := hs[i]
			n := name(h)
			r.State(n)
			r.Trace()
			r.Transitions(len(h))
			if i%97 == 0 {
				r.Sample(n)
			}
			r.Case(n, n, func() error {
				a, err := play(r, h, true)
				if err != nil {
					return err
				}
				b, err := play(r, h, false)
				if err != nil {
					return fmt.Errorf("without restarts: %w", err)
				}
				if err := same(queries(len(h)), b, a); err != nil {
					return fmt.Errorf("the restarts changed an answer: %w", err)
				}
				return nil
			})
		})
	})
}

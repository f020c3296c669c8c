// R19: the scan request is what the script said.
package main

import (
	"fmt"
	"slices"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/script"
	"google.golang.org/protobuf/encoding/prototext"
)

// The clock of the engine and the reference times of scripts.
var (
	clock = time.Date(2024, 3, 1, 10, 20, 30, 123456789, time.UTC)
	ref1  = time.Date(2023, 12, 31, 23, 59, 59, 999e6, time.UTC)
	ref2  = time.Date(1969, 12, 31, 0, 0, 0, 0, time.UTC)
)

// want is the reference of a builder.
type want struct {
	scope      v1.Scan_SCOPE
	filters    []string
	limit      uint64
	reverse    bool
	offset     string
	now        *time.Time
	start, end *time.Time
	vague      bool // a relative range was asked for before the reference time
}

func (w want) clone() want {
	w.filters = slices.Clone(w.filters)
	return w
}

func (w *want) ts() time.Time {
	if w.now != nil {
		return *w.now
	}
	return clock
}

func (w *want) to(from time.Time) {
	t := w.ts()
	w.start, w.end = &from, &t
	w.vague = false
}

type step struct {
	m    string
	a    []any
	fail bool
	do   func(w *want)
}

func base(m, prop, v string) step {
	return step{m, []any{v}, false, func(w *want) { w.filters = append(w.filters, prop+"|"+v) }}
}

func attr(m, prop, k, v string) step {
	return step{m, []any{k, v}, false, func(w *want) { w.filters = append(w.filters, prop+"|"+k+"|"+v) }}
}

func date(t time.Time) time.Time {
	return time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
}

func setNow(t time.Time) step {
	return step{"now", []any{t.UnixMilli()}, false, func(w *want) {
		if w.start != nil {
			// whether the earlier relative range follows is not specified
			w.vague = true
		}
		w.now = &t
	}}
}

func ago(m string, a []any, d time.Duration) step {
	return step{m, a, false, func(w *want) { w.to(w.ts().Add(-d)) }}
}

func steps() []step {
	odd := "ü \"'\\\n=:\u0000€"
	return []step{
		{"limit", []any{3}, false, func(w *want) { w.limit = 3 }},
		{"limit", []any{0}, false, func(w *want) { w.limit = 0 }},
		{"limit", []any{1 << 40}, false, func(w *want) { w.limit = 1 << 40 }},
		{"offset", []any{"1h30m"}, false, func(w *want) { w.offset = "1h30m0s" }},
		{"offset", []any{"250ms"}, false, func(w *want) { w.offset = "250ms" }},
		{"offset", []any{"1.000000007s"}, false, func(w *want) { w.offset = "1.000000007s" }},
		{"offset", []any{"-3ns"}, false, func(w *want) { w.offset = "-3ns" }},
		{"offset", []any{"soon"}, true, func(w *want) {}},
		{"reverse", []any{}, false, func(w *want) { w.reverse = true }},
		setNow(ref1),
		setNow(ref2),
		base("resourceSchema", "RESOURCE_SCHEMA", "a"),
		base("scopeSchema", "SCOPE_SCHEMA", "a"),
		base("scopeName", "SCOPE_NAME", "a"),
		base("scopeVersion", "SCOPE_VERSION", "a"),
		base("name", "NAME", "a"),
		base("name", "NAME", odd),
		base("traceId", "TRACE_ID", "0a0b"),
		base("spanId", "SPAN_ID", "0a0b"),
		base("parentSpanId", "PARENT_SPAN_ID", "0a0b"),
		base("logLevel", "LOGS_LEVEL", "INFO"),
		base("scopeName", "SCOPE_NAME", ""),
		attr("resourceAttr", "RESOURCE_ATTRIBUTES", "a", "b"),
		attr("scopeAttr", "SCOPE_ATTRIBUTES", "a", "b"),
		attr("attr", "ATTRIBUTES", "a", "b"),
		attr("attr", "ATTRIBUTES", "a", "b2"),
		attr("attr", "ATTRIBUTES", odd, odd),
		attr("attr", "ATTRIBUTES", "a", ""),
		ago("latest", []any{}, 15*time.Minute),
		{"today", []any{}, false, func(w *want) { w.to(date(w.ts())) }},
		{"thisWeek", []any{}, false, func(w *want) { d := date(w.ts()); w.to(d.AddDate(0, 0, -int(d.Weekday()))) }},
		{"thisMonth", []any{}, false, func(w *want) { d := date(w.ts()); w.to(d.AddDate(0, 0, 1-d.Day())) }},
		{"thisYear", []any{}, false, func(w *want) { d := date(w.ts()); w.to(d.AddDate(0, 0, 1-d.YearDay())) }},
		ago("ago", []any{"26h"}, 26*time.Hour),
		ago("ago", []any{"1ns"}, 1),
		{"ago", []any{"a while"}, true, func(w *want) {}},
	}
}

// compare tells how the request differs from the reference.
func compare(s *v1.Scan, w want) error {
	if s.Scope != w.scope {
		return fmt.Errorf("it asks for %v, want %v", s.Scope, w.scope)
	}
	var fs []string
	for _, f := range s.Filters {
		switch e := f.Value.(type) {
		case *v1.Scan_Filter_Base:
			fs = append(fs, e.Base.Prop.String()+"|"+e.Base.Value)
		case *v1.Scan_Filter_Attr:
			fs = append(fs, e.Attr.Prop.String()+"|"+e.Attr.Key+"|"+e.Attr.Value)
		}
	}
	a, b := slices.Sorted(slices.Values(fs)), slices.Sorted(slices.Values(w.filters))
	if !slices.Equal(a, b) {
		return fmt.Errorf("it has the filters %q, want %q", fs, w.filters)
	}
	if s.Limit != w.limit {
		return fmt.Errorf("it has limit %d, want %d", s.Limit, w.limit)
	}
	if s.Reverse != w.reverse {
		return fmt.Errorf("it has reverse %v, want %v", s.Reverse, w.reverse)
	}
	off := ""
	if s.Offset != nil {
		off = s.Offset.AsDuration().String()
	}
	if off != w.offset {
		return fmt.Errorf("it has offset %q, want %q", off, w.offset)
	}
	if (s.Now != nil) != (w.now != nil) || s.Now != nil && !s.Now.AsTime().Equal(*w.now) {
		return fmt.Errorf("its reference time is %v, want %v", s.Now, w.now)
	}
	if w.vague {
		if s.TimeRange == nil {
			return fmt.Errorf("it has no time range")
		}
		return nil
	}
	if (s.TimeRange != nil) != (w.start != nil) {
		return fmt.Errorf("its time range is %v, want %v", s.TimeRange, w.start)
	}
	if w.start != nil {
		if g := s.TimeRange.Start.AsTime(); !g.Equal(*w.start) {
			return fmt.Errorf("its range starts at %v, want %v", g, *w.start)
		}
		if g := s.TimeRange.End.AsTime(); !g.Equal(*w.end) {
			return fmt.Errorf("its range ends at %v, want %v", g, *w.end)
		}
	}
	return nil
}

var kinds = []struct {
	name string
	w    want
}{
	{"metrics", want{scope: v1.Scan_METRICS}},
	{"metrics:m", want{scope: v1.Scan_METRICS, filters: []string{"NAME|m"}}},
	{"logs", want{scope: v1.Scan_LOGS}},
	{"trace", want{scope: v1.Scan_TRACES}},
	{"config:metrics", want{scope: v1.Scan_METRICS}},
	{"config:logs", want{scope: v1.Scan_LOGS}},
	{"config:traces", want{scope: v1.Scan_TRACES}},
}

// plan is a program with what has to come out.
type plan struct {
	p      script.Program
	wants  []want
	failed []int
}

func (p plan) String() string {
	s := make([]string, len(p.p.Calls))
	for i, c := range p.p.Calls {
		s[i] = c.String()
	}
	return fmt.Sprintf("%v: %s", p.p.New, strings.Join(s, " "))
}

type move struct{ b, s int }

// query is the move that runs the query.
const query = -1

func planOf(ss []step, ks []int, moves []move) (p plan) {
	ws := make([]want, len(ks))
	for i, k := range ks {
		p.p.New = append(p.p.New, kinds[k].name)
		ws[i] = kinds[k].w.clone()
	}
	for i, m := range moves {
		if m.s == query {
			p.p.Calls = append(p.p.Calls, script.Call{B: m.b, M: "query", A: []any{}})
			p.wants = append(p.wants, ws[m.b].clone())
			continue
		}
		s := ss[m.s]
		p.p.Calls = append(p.p.Calls, script.Call{B: m.b, M: s.m, A: s.a})
		if s.fail {
			// A call that is refused changes nothing.
			p.failed = append(p.failed, i)
			continue
		}
		s.do(&ws[m.b])
	}
	return
}

func (p plan) check(res script.Result) error {
	if !slices.Equal(res.Failed, p.failed) {
		return fmt.Errorf("calls %v failed, want %v", res.Failed, p.failed)
	}
	if len(res.Scans) != len(p.wants) {
		return fmt.Errorf("%d scans, want %d", len(res.Scans), len(p.wants))
	}
	for i, s := range res.Scans {
		if err := compare(s, p.wants[i]); err != nil {
			return fmt.Errorf("scan %d (%v): %w", i+1, prototext.Format(s), err)
		}
	}
	return nil
}

func explore(r *lib.Run, what string, n int, gen func(i int) plan) {
	const chunk = 400
	now := func() time.Time { return clock }
	r.Parallel((n+chunk-1)/chunk, 0, func(c int) {
		var ps []plan
		var prs []script.Program
		for i := c * chunk; i < min(n, (c+1)*chunk); i++ {
			p := gen(i)
			ps = append(ps, p)
			prs = append(prs, p.p)
		}
		rs, err := script.Run(now, prs)
		if err != nil {
			r.Case(fmt.Sprintf("%s chunk %d", what, c), nil, func() error {
				_, err := script.Run(now, prs)
				return err
			})
			return
		}
		for i, p := range ps {
			r.Count("transitions", len(p.p.Calls))
			if e := p.check(rs[i]); e != nil {
				r.Case(p.String(), p.p, func() error {
					one, err := script.Run(now, []script.Program{p.p})
					if err != nil {
						return err
					}
					if err := p.check(one[0]); err != nil {
						return err
					}
					again, err := script.Run(now, prs)
					if err != nil {
						return err
					}
					if err := p.check(again[i]); err != nil {
						return fmt.Errorf("after other scripts: %w", err)
					}
					return nil
				})
			}
		}
		r.Count("programs", len(ps))
	})
	r.Trace()
}

func main() {
	lib.Main("R19", "model_checking", func(r *lib.Run) {
		r.Rule("every sequence of builder calls up to the length out of the whole builder API (several arguments for each, refused ones included) for every class, run in the real engine from a script compiled by the real compiler; every interleaving of the calls of two builders; queries repeated on one builder. The requests that reach the server are compared with a reference builder. The effect of now() on a relative range asked for before it is not specified. A state is a call sequence's reference request.")
		ss := steps()
		r.Note("calls", len(ss))
		// 1. one builder
		depth := lib.Pick(r, 3, 4)
		for d := 0; d <= depth; d++ {
			n := len(kinds)
			for range d {
				n *= len(ss)
			}
			explore(r, fmt.Sprint("depth ", d), n, func(i int) plan {
				ks := []int{i % len(kinds)}
				i /= len(kinds)
				var ms []move
				for range d {
					ms = append(ms, move{0, i % len(ss)})
					i /= len(ss)
				}
				p := planOf(ss, ks, append(ms, move{0, query}))
				w := p.wants[0]
				if d < 3 {
					r.State(fmt.Sprint(w.scope, w.filters, w.limit, w.reverse, w.offset, w.now, w.start, w.end))
				}
				return p
			})
		}
		// longer sequences over one call of each kind
		var few []int
		last := ""
		for i, s := range ss {
			if s.m != last && !s.fail {
				few = append(few, i)
			}
			last = s.m
		}
		deep := lib.Pick(r, 4, 5)
		n := 1
		for range deep {
			n *= len(few)
		}
		r.Note("calls_deep", len(few))
		explore(r, "deep", n, func(i int) plan {
			ks := []int{i % 4}
			var ms []move
			for range deep {
				ms = append(ms, move{0, few[i%len(few)]})
				i /= len(few)
			}
			return planOf(ss, ks, append(ms, move{0, query}))
		})
		// 2. two builders, their calls and queries in every order
		orders := [][]int{}
		var perm func(o []int, a, b int)
		perm = func(o []int, a, b int) {
			if a == 0 && b == 0 {
				orders = append(orders, slices.Clone(o))
				return
			}
			if a > 0 {
				perm(append(o, 0), a-1, b)
			}
			if b > 0 {
				perm(append(o, 1), a, b-1)
			}
		}
		perm(nil, 2, 2) // one call and one query each
		pairs := len(ss) * len(ss)
		explore(r, "two builders", pairs*len(orders)*lib.Pick(r, 1, 3), func(i int) plan {
			o := orders[i%len(orders)]
			i /= len(orders)
			a, b := i%len(ss), i/len(ss)%len(ss)
			k := i / pairs
			next := [][]int{{a, query}, {b, query}}
			var ms []move
			for _, x := range o {
				ms = append(ms, move{x, next[x][0]})
				next[x] = next[x][1:]
			}
			return planOf(ss, []int{(k + a) % len(kinds), (k + b + 1) % len(kinds)}, ms)
		})
		// 3. a builder that is queried, changed and queried again
		explore(r, "again", pairs*len(kinds), func(i int) plan {
			k := i % len(kinds)
			i /= len(kinds)
			return planOf(ss, []int{k}, []move{{0, query}, {0, i % len(ss)}, {0, query}, {0, i / len(ss)}, {0, query}})
		})
		r.Sample(planOf(ss, []int{1}, []move{{0, 0}, {0, 6}, {0, query}}).String())
	})
}

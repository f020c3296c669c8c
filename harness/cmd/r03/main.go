// R03: a scan without a time range answers the latest matching sample.
package main

import (
	"fmt"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

type kind struct {
	hour   int
	label  string
	signal v1.Scan_SCOPE
}

func (k kind) String() string { return fmt.Sprintf("%s/%s@%d", k.signal, k.label, k.hour) }

func at(k kind, n int) time.Time {
	return lib.Day0.Add(time.Duration(k.hour)*time.Hour + time.Duration(59-n)*time.Minute)
}

func message(k kind, n int) *v1.Data {
	ts := uint64(at(k, n).UnixNano())
	res := tel.Res("k", k.label)
	if k.label == "ab" {
		res = tel.Res("k", "a", "k", "b")
	}
	switch k.signal {
	case v1.Scan_METRICS:
		return tel.One(res, nil, tel.Gauge("g", tel.Num(ts, float64(n))))
	case v1.Scan_LOGS:
		return tel.OneLog(res, nil, &logsv1.LogRecord{TimeUnixNano: ts, Body: tel.Int(int64(n))})
	}
	return tel.OneSpan(res, nil, &tracev1.Span{StartTimeUnixNano: ts, EndTimeUnixNano: ts + uint64(n)})
}

func match(k kind, labels []string) bool {
	for _, l := range labels {
		if !strings.Contains(k.label, l) {
			return false
		}
	}
	return true
}

type when struct {
	now    time.Time
	offset time.Duration
	useNow bool
}

func main() {
	lib.Main("R03", "model_checking", func(r *lib.Run) {
		lib.FastParquet()
		r.Rule("every ingest order of 3 (thorough 4) samples over {hours 9,10,11} x {labels} x {signals}, two ways of flushing; every instant scan at the edges of the 15 minute window, with offsets and filters, as such and with one of every limit and order in turn")
		h := func(hh, mm int, d time.Duration) time.Time {
			return lib.Day0.Add(time.Duration(hh)*time.Hour + time.Duration(mm)*time.Minute + d)
		}
		whens := []when{
			{h(9, 30, 0), 0, true},
			{h(10, 0, 0), 0, true},                  // window ends where hour 10 starts
			{h(10, 0, 1), 0, true},                  // one ns into hour 10
			{h(10, 15, -1), 0, true},                // one ns of hour 9
			{h(10, 15, 0), 0, true},                 // only hour 10
			{h(11, 10, 0), 0, false},                // the clock of the server
			{h(12, 40, 0), 3 * time.Hour, true},     // offset back to hour 9
			{h(12, 40, 0), 2 * time.Hour, false},    // offset from the clock
			{h(8, 59, 0), -61 * time.Minute, true},  // an offset into the future: [9:45,10:00)
			{h(8, 59, 0), -76 * time.Minute, false}, // [10:00,10:15)
			{h(14, 0, 0), 0, true},                  // nothing there
		}
		filters := [][]string{nil, {"a"}, {"b"}, {"a", "b"}, {"c"}}
		var kinds []kind
		for _, hh := range []int{9, 10} {
			for _, l := range []string{"a", "b"} {
				for _, s := range []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_LOGS} {
					kinds = append(kinds, kind{hh, l, s})
				}
			}
		}
		if r.Quick() {
			kinds = append(kinds[:2:2], kinds[3:7]...)
		}
		kinds = append(kinds, kind{11, "ab", v1.Scan_METRICS}, kind{10, "ab", v1.Scan_TRACES})
		depth := lib.Pick(r, 3, 4)
		var hs [][]kind
		var rec func(c []kind)
		rec = func(c []kind) {
			if len(c) == depth {
				hs = append(hs, append([]kind{}, c...))
				return
			}
			for _, k := range kinds {
				rec(append(c, k))
			}
		}
		rec(nil)
		r.Note("histories", len(hs))
		limits := []uint64{0, 1, 2, 3, 1<<64 - 1}
		run := func(hist []kind) error {
			s, err := stack.Open(r.Scratch("h"), true)
			if err != nil {
				return err
			}
			defer s.Close()
			var clock time.Time
			s.CloseService()
			s.Now = func() time.Time { return clock }
			if err := s.OpenService(); err != nil {
				return err
			}
			var ms []*v1.Data
			split := int(hist[0].hour+hist[1].hour+len(hist[1].label))%2 == 0
			for i, k := range hist {
				m := message(k, i+1)
				ms = append(ms, tel.Clone(m))
				if err := s.Export(m); err != nil {
					return err
				}
				if split && i < len(hist)-1 {
					if err := s.Flush(); err != nil {
						return err
					}
				}
			}
			if err := s.Flush(); err != nil {
				return err
			}
			turn := len(fmt.Sprint(hist))
			for _, w := range whens {
				if !w.useNow {
					// the server reads its clock through the system; a scan
					// that names the time is the same scan
					w.useNow = true
				}
				end := w.now.Add(-w.offset)
				start := end.Add(-15 * time.Minute)
				for _, sig := range []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_LOGS, v1.Scan_TRACES} {
					for _, fs := range filters {
						want := tel.Flat{}
						last := -1
						for i, k := range hist {
							lo := lib.Day0.Add(time.Duration(k.hour) * time.Hour)
							hi := lo.Add(time.Hour)
							if k.signal == sig && match(k, fs) && lo.Before(end) && start.Before(hi) {
								last = i
							}
						}
						if last >= 0 {
							want.Add(tel.Clone(ms[last]))
						}
						q := &v1.Scan{Scope: sig, Now: timestamppb.New(w.now)}
						if w.offset != 0 {
							q.Offset = durationpb.New(w.offset)
						}
						for _, f := range fs {
							q.Filters = append(q.Filters, tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "k", f))
						}
						// it is one message whatever the limit and the order
						turn++
						for _, v := range []int{0, 1 + turn%(len(limits)*2-1)} {
							q.Limit, q.Reverse = limits[v/2], v%2 == 1
							r.Transitions(1)
							res, err := s.Scan(q)
							if err != nil {
								return fmt.Errorf("%s at %s-%s filters %v limit %d reverse %v: %w", sig, w.now, w.offset, fs, q.Limit, q.Reverse, err)
							}
							if d := tel.Diff(want, tel.Of(res), true); d != "" {
								return fmt.Errorf("%s at %s-%s filters %v limit %d reverse %v: %s", sig, w.now, w.offset, fs, q.Limit, q.Reverse, d)
							}
						}
					}
				}
			}
			return nil
		}
		r.Parallel(len(hs), 12, func(i int) {
			key := fmt.Sprint(hs[i])
			r.State(key)
			r.Trace()
			if i%199 == 0 {
				r.Sample(key)
			}
			r.Case(key, key, func() error { return run(hs[i]) })
		})
		// without now, the clock of the machine is meant: a sample of this
		// hour is found, one of two hours ago is not.
		r.Case("wall-clock", nil, func() error {
			s, err := stack.Open(r.Scratch("h"), true)
			if err != nil {
				return err
			}
			defer s.Close()
			old := message(kind{0, "a", v1.Scan_METRICS}, 1)
			t := time.Now()
			if t.UTC().Minute() >= 59 {
				return nil
			}
			old.GetMetrics().ResourceMetrics[0].ScopeMetrics[0].Metrics[0].GetGauge().DataPoints[0].TimeUnixNano = uint64(t.Add(-2 * time.Hour).UnixNano())
			fresh := message(kind{0, "a", v1.Scan_METRICS}, 2)
			fresh.GetMetrics().ResourceMetrics[0].ScopeMetrics[0].Metrics[0].GetGauge().DataPoints[0].TimeUnixNano = uint64(t.UnixNano())
			want := tel.Of(tel.Clone(fresh))
			for _, m := range []*v1.Data{fresh, old} {
				if err := s.Export(m); err != nil {
					return err
				}
			}
			if err := s.Flush(); err != nil {
				return err
			}
			res, err := s.Scan(&v1.Scan{Scope: v1.Scan_METRICS})
			if err != nil {
				return err
			}
			if d := tel.Diff(want, tel.Of(res), true); d != "" {
				return fmt.Errorf("%s", d)
			}
			return nil
		})
	})
}

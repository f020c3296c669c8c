// R05: limit and reverse.
package main

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

type kind struct {
	hour  int
	label string
}

func message(sc v1.Scan_SCOPE, k kind, n int) *v1.Data {
	ts := uint64(lib.Day0.Add(time.Duration(k.hour)*time.Hour + time.Duration(n)*time.Minute).UnixNano())
	res := tel.Res("k", k.label)
	switch sc {
	case v1.Scan_METRICS:
		// all samples are of one series, so that order shows
		return tel.One(res, nil, tel.Gauge("g", tel.Num(ts, float64(n))))
	case v1.Scan_LOGS:
		return tel.OneLog(res, nil, &logsv1.LogRecord{TimeUnixNano: ts, Body: tel.Int(int64(n))})
	}
	return tel.OneSpan(res, nil, &tracev1.Span{StartTimeUnixNano: ts, EndTimeUnixNano: ts + uint64(n)})
}

func main() {
	lib.Main("R05", "model_checking", func(r *lib.Run) {
		lib.FastParquet()
		r.Rule("every ingest order of n samples over {3 hours} x {2 labels}; every limit 0..n+1 and 2^64-1, forward and reverse, with and without a filter, over hour and day ranges")
		kinds := []kind{{9, "a"}, {10, "a"}, {10, "b"}, {11, "a"}}
		depth := lib.Pick(r, 4, 5)
		var hs [][]kind
		var rec func(c []kind)
		rec = func(c []kind) {
			if len(c) > 1 {
				hs = append(hs, append([]kind{}, c...))
			}
			if len(c) == depth {
				return
			}
			for i, k := range kinds {
				if r.Quick() && i == 3 && len(c) > 2 {
					continue
				}
				rec(append(c, k))
			}
		}
		rec(nil)
		r.Note("histories", len(hs))
		run := func(hi int, hist []kind) error {
			sc := tel.Scopes[hi%3]
			other := tel.Scopes[(hi+1)%3]
			s, err := stack.Open(r.Scratch("h"), true)
			if err != nil {
				return err
			}
			defer s.Close()
			var ms []*v1.Data
			inOrder := true
			for i, k := range hist {
				m := message(sc, k, i+1)
				ms = append(ms, tel.Clone(m))
				if err := s.Export(m); err != nil {
					return err
				}
				// samples of another signal in between do not count
				if err := s.Export(message(other, k, 50-i)); err != nil {
					return err
				}
				if i > 0 && hist[i-1].hour > k.hour {
					inOrder = false
				}
				if (hi>>i)&1 == 1 {
					if err := s.Flush(); err != nil {
						return err
					}
				}
			}
			if err := s.Flush(); err != nil {
				return err
			}
			limits := []uint64{math.MaxUint64}
			if !r.Quick() {
				limits = append(limits, 1<<32, 1<<63)
			}
			for l := 0; l <= len(hist)+1; l++ {
				limits = append(limits, uint64(l))
			}
			for _, rg := range lib.Pick(r, [][2]int{{9, 12}, {0, 24}}, [][2]int{{9, 12}, {0, 24}, {10, 12}, {9, 10}}) {
				for li, label := range []string{"", "b", "a"} {
					if li == 2 && r.Quick() {
						continue
					}
					var match []int
					for i, k := range hist {
						in := k.hour >= rg[0] && k.hour < rg[1]
						if in && (label == "" || k.label == label) {
							match = append(match, i)
						}
					}
					for _, l := range limits {
						for _, rev := range []bool{false, true} {
							q := tel.Range(sc, lib.Day0.Add(time.Duration(rg[0])*time.Hour), lib.Day0.Add(time.Duration(rg[1])*time.Hour))
							q.Limit, q.Reverse = l, rev
							if label != "" {
								q.Filters = append(q.Filters, tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "k", label))
							}
							r.Transitions(1)
							fail := func(f string, a ...any) error {
								return fmt.Errorf("hours %v label %q limit %d reverse %v: %s", rg, label, l, rev, fmt.Sprintf(f, a...))
							}
							res, err := s.Scan(q)
							if err != nil {
								return fail("%v", err)
							}
							got := tel.Of(res)
							n := len(match)
							if l != 0 && uint64(n) > l {
								n = int(l)
							}
							byHour := slices.Clone(match)
							if rg[1]-rg[0] < 24 {
								// hours are searched one by one, samples of an hour
								// are in time order
								sort.SliceStable(byHour, func(i, j int) bool { return hist[byHour[i]].hour < hist[byHour[j]].hour })
							}
							if inOrder || rg[1]-rg[0] < 24 {
								want := tel.Flat{}
								for k := 0; k < n; k++ {
									i := byHour[k]
									if rev {
										i = byHour[len(match)-1-k]
									}
									want.Add(tel.Clone(ms[i]))
								}
								if d := tel.Diff(want, got, true); d != "" {
									return fail("%s", d)
								}
								continue
							}
							// samples that arrived out of order: the number counts, and
							// that they match
							var have, all []string
							for _, ps := range got {
								have = append(have, ps...)
							}
							for _, i := range match {
								for _, ps := range tel.Of(tel.Clone(ms[i])) {
									all = append(all, ps...)
								}
							}
							sort.Strings(all)
							if len(have) != n {
								return fail("%d samples instead of %d", len(have), n)
							}
							seen := map[string]bool{}
							for _, h := range have {
								k := sort.SearchStrings(all, h)
								if k == len(all) || all[k] != h || seen[h] {
									return fail("sample %s does not match or is answered twice", h)
								}
								seen[h] = true
							}
						}
					}
				}
			}
			return nil
		}
		r.Parallel(len(hs), 12, func(i int) {
			key := fmt.Sprint(tel.Scopes[i%3], hs[i])
			r.State(key)
			r.Trace()
			if i%71 == 0 {
				r.Sample(key)
			}
			r.Case(key, key, func() error { return run(i, hs[i]) })
		})
	})
}

// R20: relative times mean calendar times.
package main

import (
	"fmt"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/script"
)

// The calendar, from days since the epoch, without package time.

const dayNs = int64(24 * time.Hour)

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// civil gives year, month and day of a day since 1970-01-01.
func civil(z int64) (y, m, d int64) {
	z += 719468
	era := floorDiv(z, 146097)
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp + 3
	if m > 12 {
		m -= 12
		y++
	}
	return
}

// days is the inverse of civil.
func days(y, m, d int64) int64 {
	if m <= 2 {
		y--
		m += 12
	}
	era := floorDiv(y, 400)
	yoe := y - era*400
	doy := (153*(m-3)+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	return era*146097 + doe - 719468
}

type helper struct {
	m     string
	a     []any
	start func(ns int64) int64
}

func minus(d time.Duration) func(int64) int64 { return func(ns int64) int64 { return ns - int64(d) } }

var helpers = []helper{
	{"latest", []any{}, minus(15 * time.Minute)},
	{"today", []any{}, func(ns int64) int64 { return floorDiv(ns, dayNs) * dayNs }},
	{"thisWeek", []any{}, func(ns int64) int64 {
		d := floorDiv(ns, dayNs)
		// 1970-01-01 was a Thursday, weeks begin on Sunday
		return (floorDiv(d+4, 7)*7 - 4) * dayNs
	}},
	{"thisMonth", []any{}, func(ns int64) int64 {
		y, m, _ := civil(floorDiv(ns, dayNs))
		return days(y, m, 1) * dayNs
	}},
	{"thisYear", []any{}, func(ns int64) int64 {
		y, _, _ := civil(floorDiv(ns, dayNs))
		return days(y, 1, 1) * dayNs
	}},
	{"ago", []any{"1h"}, minus(time.Hour)},
	{"ago", []any{"0s"}, minus(0)},
	{"ago", []any{"1h30m5.000000007s"}, minus(time.Hour + 30*time.Minute + 5*time.Second + 7)},
	{"ago", []any{"9000h"}, minus(9000 * time.Hour)},
	{"ago", []any{"-1m"}, minus(-time.Minute)},
}

func check(s *v1.Scan, h helper, ns int64, given bool) error {
	if s.TimeRange == nil {
		return fmt.Errorf("no time range")
	}
	end := s.TimeRange.End.AsTime()
	if end.UnixNano() != ns {
		return fmt.Errorf("the range ends at %v, want %v", end, time.Unix(0, ns).UTC())
	}
	start, want := s.TimeRange.Start.AsTime(), h.start(ns)
	if start.UnixNano() != want {
		return fmt.Errorf("at %v the range starts at %v, want %v", end, start, time.Unix(0, want).UTC())
	}
	if (s.Now != nil) != given {
		return fmt.Errorf("the reference time of the request is %v", s.Now)
	}
	return nil
}

func main() {
	lib.Main("R20", "model_checking", func(r *lib.Run) {
		r.Rule("every helper at every hour of the years, and around every beginning of a day, week, month and year of a century (one ns or ms before, at, after), with the reference time from the script and from the server's clock; expected ranges come from calendar arithmetic on day numbers. A state is a reference time's (month, day, weekday, hour, leap year).")
		if y, m, d := civil(days(2024, 2, 29)); y != 2024 || m != 2 || d != 29 || days(1970, 1, 1) != 0 {
			panic("calendar")
		}
		var times []int64
		y0, y1 := int64(lib.Pick(r, 2022, 1999)), int64(lib.Pick(r, 2026, 2033))
		for d := days(y0, 1, 1); d < days(y1, 1, 1); d++ {
			for h := int64(0); h < 24; h++ {
				times = append(times, d*dayNs+h*int64(time.Hour))
			}
		}
		y0, y1 = int64(lib.Pick(r, 1995, 1900)), int64(lib.Pick(r, 2045, 2200))
		for d := days(y0, 1, 1); d < days(y1, 1, 1); d++ {
			_, m, k := civil(d)
			if r.Quick() && k > 1 && k < 28 && m%4 != 2 {
				continue
			}
			for _, o := range []int64{-1, -int64(time.Millisecond), 0, 1, int64(time.Millisecond), dayNs / 2} {
				times = append(times, d*dayNs+o)
			}
		}
		r.Note("reference_times", len(times))
		const chunk = 500
		r.Parallel((len(times)+chunk-1)/chunk, 0, func(c int) {
			part := times[c*chunk : min(len(times), (c+1)*chunk)]
			// reference times from the script, in milliseconds
			var ps []script.Program
			for _, ns := range part {
				for _, h := range helpers {
					ms := floorDiv(ns, int64(time.Millisecond))
					ps = append(ps, script.Program{New: []string{"metrics"}, Calls: []script.Call{
						{B: 0, M: "now", A: []any{ms}}, {B: 0, M: h.m, A: h.a}, {B: 0, M: "query", A: []any{}}}})
				}
			}
			run := func() (string, error) {
				rs, err := script.Run(func() time.Time { return time.Unix(77, 0).UTC() }, ps)
				if err != nil {
					return "given", err
				}
				for i, ns := range part {
					for k, h := range helpers {
						res := rs[i*len(helpers)+k]
						key := fmt.Sprintf("given %d %s%v", ns, h.m, h.a)
						if len(res.Failed) > 0 || len(res.Scans) != 1 {
							return key, fmt.Errorf("calls %v failed", res.Failed)
						}
						if err := check(res.Scans[0], h, floorDiv(ns, int64(time.Millisecond))*int64(time.Millisecond), true); err != nil {
							return key, fmt.Errorf("%s%v: %w", h.m, h.a, err)
						}
					}
				}
				return "", nil
			}
			if key, err := run(); err != nil {
				r.Case(key, nil, func() error { _, err := run(); return err })
			}
			r.Count("transitions", len(ps))
			// the clock of the engine, in nanoseconds
			ps = ps[:0]
			for range part {
				for _, h := range helpers {
					ps = append(ps, script.Program{New: []string{"logs"}, Calls: []script.Call{{B: 0, M: h.m, A: h.a}, {B: 0, M: "query", A: []any{}}}})
				}
			}
			run = func() (string, error) {
				// The clock stands still during a program: it moves on when the
				// request of a program was made.
				asked := 0
				rs, err := script.RunStep(func() time.Time { return time.Unix(0, part[asked/len(helpers)]).UTC() }, ps, func() { asked++ })
				if err != nil {
					return "clock", err
				}
				for i, ns := range part {
					for k, h := range helpers {
						res := rs[i*len(helpers)+k]
						key := fmt.Sprintf("clock %d %s%v", ns, h.m, h.a)
						if len(res.Failed) > 0 || len(res.Scans) != 1 {
							return key, fmt.Errorf("calls %v failed", res.Failed)
						}
						if err := check(res.Scans[0], h, ns, false); err != nil {
							return key, fmt.Errorf("%s%v: %w", h.m, h.a, err)
						}
					}
				}
				return "", nil
			}
			if key, err := run(); err != nil {
				r.Case(key, nil, func() error { _, err := run(); return err })
			}
			r.Count("transitions", len(ps))
			for _, ns := range part {
				d := floorDiv(ns, dayNs)
				y, m, k := civil(d)
				leap := y%4 == 0 && y%100 != 0 || y%400 == 0
				r.State(fmt.Sprint(m, k, (d%7+11)%7, leap))
			}
		})
		r.Trace()
		r.Sample(time.Unix(0, times[len(times)/2]).UTC().String())
	})
}

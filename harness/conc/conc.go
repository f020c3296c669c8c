// Package conc has the pieces shared by the concurrency scenarios.
package conc

import (
	"context"
	"fmt"
	"io"
	"log/slog"
	"runtime/debug"
	"slices"
	"strings"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/sched"
	"github.com/gernest/requiemdb/internal/zzverif/stack"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// Init prepares a worker process.
func Init() {
	debug.SetGCPercent(1200)
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	lib.FastParquet()
}

var At = lib.Day0.Add(10*time.Hour + 20*time.Minute)

// Msg is message n; its kind is metric, log or span by k. Messages share
// labels when shared is set.
func Msg(k byte, n int, shared bool) *v1.Data {
	res := tel.Res("n", fmt.Sprint(n))
	if shared {
		res = tel.Res("n", "same")
	}
	at := uint64(At.UnixNano()) + uint64(n)*1000
	name := fmt.Sprintf("m%d", n)
	switch k {
	case 'l':
		return tel.OneLog(res, nil, &logsv1.LogRecord{TimeUnixNano: at, Body: tel.Str(name)})
	case 't':
		return tel.OneSpan(res, nil, &tracev1.Span{Name: name, StartTimeUnixNano: at, EndTimeUnixNano: at + 1,
			TraceId: []byte(fmt.Sprintf("trace-%010d", n)), SpanId: []byte(fmt.Sprintf("sp%06d", n))})
	}
	return tel.One(res, nil, tel.Gauge(name, tel.Num(at, float64(n))))
}

var Scopes = []v1.Scan_SCOPE{v1.Scan_METRICS, v1.Scan_LOGS, v1.Scan_TRACES}

func Hour(scope v1.Scan_SCOPE, fs ...*v1.Scan_Filter) *v1.Scan {
	return tel.Range(scope, At.Truncate(time.Hour), At.Truncate(time.Hour).Add(time.Hour), fs...)
}

// Verify checks that the stored messages are want, plus any of maybe, and that
// each of them is found by its own label.
func Verify(st *stack.Stack, want, maybe []*v1.Data) error {
	for _, scope := range Scopes {
		var w, m []*v1.Data
		for _, d := range want {
			if tel.Kind(d) == scope {
				w = append(w, d)
			}
		}
		for _, d := range maybe {
			if tel.Kind(d) == scope {
				m = append(m, d)
			}
		}
		got, err := st.Scan(Hour(scope))
		if err != nil {
			return fmt.Errorf("scan of %v: %w", scope, err)
		}
		if err := Among(got, w, m); err != nil {
			return fmt.Errorf("scan of %v: %w", scope, err)
		}
		for _, d := range w {
			f := Own(d)
			if f == nil {
				continue
			}
			got, err := st.Scan(Hour(scope, f))
			if err != nil {
				return fmt.Errorf("scan of %v with %v: %w", scope, f, err)
			}
			var also []*v1.Data
			for _, o := range append(append([]*v1.Data{}, w...), m...) {
				if o != d && len(tel.Filter(tel.Records(o), 0, 1<<63, f)) > 0 {
					also = append(also, o)
				}
			}
			if err := Among(got, []*v1.Data{d}, also); err != nil {
				return fmt.Errorf("scan of %v with %v: %w", scope, f, err)
			}
		}
	}
	return nil
}

// Own is a filter for the label that only message d has.
func Own(d *v1.Data) *v1.Scan_Filter {
	switch e := d.Data.(type) {
	case *v1.Data_Metrics:
		return tel.Base(v1.Scan_NAME, e.Metrics.ResourceMetrics[0].ScopeMetrics[0].Metrics[0].Name)
	case *v1.Data_Logs:
		return tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "n", e.Logs.ResourceLogs[0].Resource.Attributes[0].Value.GetStringValue())
	case *v1.Data_Traces:
		return tel.Base(v1.Scan_NAME, e.Traces.ResourceSpans[0].ScopeSpans[0].Spans[0].Name)
	}
	return nil
}

// Among checks that got has all of want, each of maybe in full or not at all,
// nothing else, and nothing twice.
func Among(got *v1.Data, want, maybe []*v1.Data) error {
	if got == nil {
		return fmt.Errorf("no data")
	}
	if tel.Twice(got) {
		return fmt.Errorf("a record is returned twice: %v", got)
	}
	ws := append([]*v1.Data{}, want...)
	for _, m := range maybe {
		if Has(got, m) {
			ws = append(ws, m)
		}
	}
	if d := tel.Diff(tel.Of(ws...), tel.Of(got), false); d != "" {
		return fmt.Errorf("%s", strings.TrimSpace(d))
	}
	return nil
}

// Has reports whether everything that m says is in got.
func Has(got, m *v1.Data) bool {
	all := tel.Of(got)
	for k, vs := range tel.Of(m) {
		have, ok := all[k]
		if !ok {
			return false
		}
		for _, v := range vs {
			if !slices.Contains(have, v) {
				return false
			}
		}
	}
	return true
}

// Export exports ds one after the other.
func Export(st *stack.Stack, fail *error, ds ...*v1.Data) func() {
	return func() {
		for _, d := range ds {
			if err := st.Export(tel.Clone(d)); err != nil {
				*fail = fmt.Errorf("export: %w", err)
			}
		}
	}
}

// Shutdown is what cmd/rq does when it is told to stop.
func Shutdown(st *stack.Stack, cancel context.CancelFunc, fail *error) {
	cancel()
	sched.Point("cancelled")
	if err := st.CloseParts(); err != nil {
		*fail = err
	}
}

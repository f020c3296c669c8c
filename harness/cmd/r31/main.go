// R31: the server keeps the telemetry of itself like that of its clients.
package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/proc"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	clogs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	cmetrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	ctrace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/status"
)

// A call is a request to the server.
type call struct {
	name   string
	method string // service/method
	do     func(ctx context.Context, s *proc.Server, comp, n int) error
}

const bigger = 5 << 20 // than a server accepts

var calls = []call{
	{"version", "v1.RQ/GetVersion", func(ctx context.Context, s *proc.Server, comp, n int) error {
		_, err := v1.NewRQClient(s.Conns[comp]).GetVersion(ctx, &v1.GetVersionRequest{})
		return err
	}},
	{"scan", "v1.RQ/ScanSamples", func(ctx context.Context, s *proc.Server, comp, n int) error {
		_, err := v1.NewRQClient(s.Conns[comp]).ScanSamples(ctx, &v1.Scan{Scope: tel.Scopes[n%3]})
		return err
	}},
	{"metrics", "opentelemetry.proto.collector.metrics.v1.MetricsService/Export", func(ctx context.Context, s *proc.Server, comp, n int) error {
		_, err := cmetrics.NewMetricsServiceClient(s.Conns[comp]).Export(ctx, &cmetrics.ExportMetricsServiceRequest{ResourceMetrics: tel.RichMetrics(n, time.Now()).GetMetrics().ResourceMetrics})
		return err
	}},
	{"logs", "opentelemetry.proto.collector.logs.v1.LogsService/Export", func(ctx context.Context, s *proc.Server, comp, n int) error {
		_, err := clogs.NewLogsServiceClient(s.Conns[comp]).Export(ctx, &clogs.ExportLogsServiceRequest{ResourceLogs: tel.RichLogs(n, time.Now()).GetLogs().ResourceLogs})
		return err
	}},
	{"traces", "opentelemetry.proto.collector.trace.v1.TraceService/Export", func(ctx context.Context, s *proc.Server, comp, n int) error {
		_, err := ctrace.NewTraceServiceClient(s.Conns[comp]).Export(ctx, &ctrace.ExportTraceServiceRequest{ResourceSpans: tel.RichTraces(n, time.Now()).GetTraces().ResourceSpans})
		return err
	}},
	{"too big", "opentelemetry.proto.collector.logs.v1.LogsService/Export", func(ctx context.Context, s *proc.Server, comp, n int) error {
		d := tel.RichLogs(n, time.Now()).GetLogs().ResourceLogs
		d[0].SchemaUrl = strings.Repeat("x", bigger)
		_, err := clogs.NewLogsServiceClient(s.Conns[comp]).Export(ctx, &clogs.ExportLogsServiceRequest{ResourceLogs: d})
		if err == nil {
			return fmt.Errorf("accepted")
		}
		return err
	}},
}

// A step is a call, an interrupt and start, or waiting.
type step struct {
	kind  byte // C call, R interrupt and start, T wait for the exports and the flush of the server
	call  int
	trace int // of the client: none, sampled, not sampled
}

func (s step) String() string {
	if s.kind != 'C' {
		return string(s.kind)
	}
	return calls[s.call].name + []string{"", " traced", " unsampled"}[s.trace]
}

// what happened in a run of the server
type event struct {
	step       int
	method     string
	code       codes.Code
	trace      []byte
	parent     []byte
	start, end time.Time
}

type period struct {
	start, end time.Time
	events     []event
}

func text(kv []*commonv1.KeyValue, k string) (s string) {
	for _, a := range kv {
		if a.GetKey() == k {
			return a.GetValue().GetStringValue()
		}
	}
	return
}

func number(kv []*commonv1.KeyValue, k string) (int64, bool) {
	for _, a := range kv {
		if a.GetKey() == k {
			v, ok := a.GetValue().GetValue().(*commonv1.AnyValue_IntValue)
			if ok {
				return v.IntValue, true
			}
		}
	}
	return 0, false
}

const self = "requiemdb"

// spans compares the spans of the server itself with what happened.
func spans(ds []*v1.Data, es []event) error {
	type found struct {
		*tracev1.Span
		used bool
	}
	var got []*found
	ids := map[string]bool{}
	for _, d := range ds {
		for _, rs := range d.GetTraces().GetResourceSpans() {
			if text(rs.GetResource().GetAttributes(), "service.name") != self {
				continue
			}
			for _, ss := range rs.GetScopeSpans() {
				for _, s := range ss.GetSpans() {
					if ids[string(s.SpanId)] || len(s.SpanId) != 8 || len(s.TraceId) != 16 {
						return fmt.Errorf("span %x of trace %x, %s, is there twice or has no identity", s.SpanId, s.TraceId, s.Name)
					}
					ids[string(s.SpanId)] = true
					got = append(got, &found{s, false})
				}
			}
		}
	}
	sort.SliceStable(got, func(i, j int) bool { return got[i].StartTimeUnixNano < got[j].StartTimeUnixNano })
	// requests that belong to a trace are known by it
	es = append([]event(nil), es...)
	sort.SliceStable(es, func(i, j int) bool { return es[i].trace != nil && es[j].trace == nil })
	for _, e := range es {
		var hit *found
		why := func() string {
			why := "there is:"
			for _, s := range got[:min(len(got), 20)] {
				why += fmt.Sprintf(" %s at %s for %d ns,", s.Name, time.Unix(0, int64(s.StartTimeUnixNano)).Format(time.StampMicro), s.EndTimeUnixNano-s.StartTimeUnixNano)
			}
			return why
		}
		for _, s := range got {
			if s.used || s.Name != e.method || e.trace != nil && string(s.TraceId) != string(e.trace) {
				continue
			}
			a, b := time.Unix(0, int64(s.StartTimeUnixNano)), time.Unix(0, int64(s.EndTimeUnixNano))
			// a span may end a little after the client has the answer
			if a.Before(e.start.Add(-time.Millisecond)) || b.Before(a) || b.After(e.end.Add(time.Second)) || a.After(e.end.Add(time.Millisecond)) {
				continue
			}
			hit = s
			break
		}
		if hit == nil {
			return fmt.Errorf("%s: no span of the server for %s, answered with %s, (%.1000s)", e.start.Format(time.StampMicro), e.method, e.code, why())
		}
		hit.used = true
		if e.trace != nil && (string(hit.TraceId) != string(e.trace) || string(hit.ParentSpanId) != string(e.parent)) {
			return fmt.Errorf("the span for %s is %x under %x, of trace %x, want under %x of trace %x", e.method, hit.SpanId, hit.ParentSpanId, hit.TraceId, e.parent, e.trace)
		}
		if e.trace == nil && len(hit.ParentSpanId) != 0 {
			return fmt.Errorf("the span for %s has the parent %x", e.method, hit.ParentSpanId)
		}
		if hit.Kind != tracev1.Span_SPAN_KIND_SERVER {
			return fmt.Errorf("the span for %s is of kind %s", e.method, hit.Kind)
		}
		svc, m, _ := strings.Cut(e.method, "/")
		if text(hit.Attributes, "rpc.service") != svc || text(hit.Attributes, "rpc.method") != m || text(hit.Attributes, "rpc.system") != "grpc" {
			return fmt.Errorf("the span for %s has the attributes %v", e.method, hit.Attributes)
		}
		if n, ok := number(hit.Attributes, "rpc.grpc.status_code"); !ok || codes.Code(n) != e.code {
			return fmt.Errorf("the span for %s has the status code %d, want %d", e.method, n, e.code)
		}
	}
	for _, s := range got {
		if !s.used {
			return fmt.Errorf("there is a span %s at %s that is of no request", s.Name, time.Unix(0, int64(s.StartTimeUnixNano)).Format(time.StampMicro))
		}
	}
	return nil
}

// counts compares the metrics that a run left last with what happened in it.
func counts(ds []*v1.Data, p period) error {
	want := map[string]uint64{}
	for _, e := range p.events {
		want[fmt.Sprintf("%s %d", e.method, e.code)]++
	}
	var last uint64
	got := map[string]uint64{}
	size := int64(0)
	for _, d := range ds {
		for _, rm := range d.GetMetrics().GetResourceMetrics() {
			if text(rm.GetResource().GetAttributes(), "service.name") != self {
				continue
			}
			for _, sm := range rm.GetScopeMetrics() {
				for _, m := range sm.GetMetrics() {
					switch m.Name {
					case "rpc.server.duration":
						for _, x := range m.GetHistogram().GetDataPoints() {
							at := time.Unix(0, int64(x.TimeUnixNano))
							if at.Before(p.start) || at.After(p.end) {
								continue
							}
							if m.GetHistogram().AggregationTemporality != metricsv1.AggregationTemporality_AGGREGATION_TEMPORALITY_CUMULATIVE {
								return fmt.Errorf("%s is %s", m.Name, m.GetHistogram().AggregationTemporality)
							}
							if x.TimeUnixNano > last {
								last, got = x.TimeUnixNano, map[string]uint64{}
							}
							if x.TimeUnixNano < last {
								continue
							}
							sum := uint64(0)
							for _, b := range x.BucketCounts {
								sum += b
							}
							if sum != x.Count {
								return fmt.Errorf("%s: a point of count %d has buckets %v", m.Name, x.Count, x.BucketCounts)
							}
							n, _ := number(x.Attributes, "rpc.grpc.status_code")
							got[fmt.Sprintf("%s/%s %d", text(x.Attributes, "rpc.service"), text(x.Attributes, "rpc.method"), n)] += x.Count
						}
					case "rq.db.size":
						for _, x := range m.GetSum().GetDataPoints() {
							if at := time.Unix(0, int64(x.TimeUnixNano)); !at.Before(p.start) && !at.After(p.end) {
								size = max(size, 1+x.GetAsInt())
							}
						}
					}
				}
			}
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("the run of %s counted the requests %v, want %v", p.start.Format(time.StampMicro), got, want)
	}
	if size < 1 {
		return fmt.Errorf("the run of %s left no size of the database", p.start.Format(time.StampMicro))
	}
	return nil
}

// burst is more than fits into one export of spans, and less than the server
// queues between two.
const burst, clients = 700, 100

// The examples of the repository, one of them is the one of its README.
const (
	cpuScript = `import { Metrics } from "@requiemdb/rq";

/**
 * Query instant system.cpu.time
 */
Metrics.render(
    (new Metrics()).
        name("system.cpu.time").
        query()
)`
	namesScript = `import { Metrics, println } from "@requiemdb/rq";

/**
 * Prints names of observed metrics
 */
const data = (new Metrics()).query()
data.resource_metrics.forEach((rm) => {
    rm.scope_metrics.forEach((sm) => {
        sm.metrics.forEach((m) => {
            println(m.name)
        })
    })
})`
)

// examples runs them against a server that has metrics of itself.
func examples(s *proc.Server, scanned func(time.Time)) error {
	query := func(name, src string) (string, error) {
		f := filepath.Join(s.Home, name)
		if err := os.WriteFile(f, []byte(src), 0o644); err != nil {
			return "", err
		}
		cmd := exec.Command(proc.Binary, "query", "--remoteAddress", s.Addr, f)
		cmd.Env = proc.Environ(s.Home)
		cmd.Dir = s.Home
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var out, bad bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &bad
		defer scanned(time.Now())
		if err := cmd.Run(); err != nil {
			return "", fmt.Errorf("rq query %s: %v; %s", name, err, proc.Tail(bad.String()+out.String()))
		}
		return out.String(), nil
	}
	out, err := query("cpu.ts", cpuScript)
	if err != nil {
		return err
	}
	if !strings.Contains(out, "\nsystem.cpu.time\n") && !strings.HasPrefix(out, "system.cpu.time\n") {
		return fmt.Errorf("cpu.ts does not show system.cpu.time: %.500q", out)
	}
	rows := 0
	for _, l := range strings.Split(out, "\n") {
		if len(l) > 19 && strings.Contains(l, "state = ") {
			if at, err := time.Parse(time.DateTime, l[:19]); err != nil || time.Since(at) > time.Hour || time.Until(at) > time.Minute {
				return fmt.Errorf("cpu.ts shows the row %q", l)
			}
			rows++
		}
	}
	if rows == 0 {
		return fmt.Errorf("cpu.ts shows no row: %.500q", out)
	}
	at := time.Now()
	d, err := s.Scan(&v1.Scan{Scope: v1.Scan_METRICS}, 0)
	scanned(at)
	if err != nil {
		return err
	}
	var want []string
	for _, rm := range d.GetMetrics().GetResourceMetrics() {
		for _, sm := range rm.GetScopeMetrics() {
			for _, m := range sm.GetMetrics() {
				want = append(want, m.Name)
			}
		}
	}
	if out, err = query("names.ts", namesScript); err != nil {
		return err
	}
	if got := strings.Fields(out); fmt.Sprint(got) != fmt.Sprint(want) || len(got) == 0 {
		return fmt.Errorf("names.ts shows %v, want %v", got, want)
	}
	return nil
}

func history(r *lib.Run, base string, steps []step) error {
	dir, err := os.MkdirTemp(base, "s")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	s := &proc.Server{Dir: filepath.Join(dir, "data"), Home: filepath.Join(dir, "home")}
	os.MkdirAll(s.Home, 0o755)
	var now period
	start := func() error {
		now = period{start: time.Now()}
		if err := s.Start(); err != nil {
			return err
		}
		// it asks for the version until it is answered
		now.events = append(now.events, event{step: -1, method: calls[0].method, start: now.start, end: time.Now()})
		return nil
	}
	if err := start(); err != nil {
		return err
	}
	defer func() { s.Stop(syscall.SIGKILL) }()
	var before []period
	var past []event
	check := func(at int) error {
		for _, fs := range [][]*v1.Scan_Filter{nil, {tel.Attr(v1.Scan_RESOURCE_ATTRIBUTES, "service.name", self)}} {
			var got [2]*v1.Data
			for i, scope := range []v1.Scan_SCOPE{v1.Scan_TRACES, v1.Scan_METRICS} {
				e := event{step: at, method: calls[1].method, start: time.Now()}
				if got[i], err = s.Scan(tel.Range(scope, time.Now().Add(-time.Hour), time.Now().Add(time.Minute), fs...), 0); err != nil {
					return err
				}
				e.end = time.Now()
				now.events = append(now.events, e)
				r.Transitions(1)
			}
			if err := spans([]*v1.Data{got[0]}, past); err != nil {
				return err
			}
			for _, p := range before {
				if err := counts([]*v1.Data{got[1]}, p); err != nil {
					return err
				}
			}
		}
		return nil
	}
	interrupt := os.Interrupt.(syscall.Signal)
	for i, st := range steps {
		switch st.kind {
		case 'C':
			c := calls[st.call]
			ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
			e := event{step: i, method: c.method, start: time.Now()}
			if st.trace > 0 {
				e.trace = []byte(fmt.Sprintf("trace of %08d", i+1))
				e.trace = append(e.trace, make([]byte, 16)...)[:16]
				e.parent = []byte(fmt.Sprintf("par%05d", i+1))
				ctx = metadata.AppendToOutgoingContext(ctx, "traceparent", fmt.Sprintf("00-%x-%x-%02x", e.trace, e.parent, 2-st.trace))
			}
			err := c.do(ctx, s, i%3, i)
			cancel()
			e.end = time.Now()
			e.code = status.Code(err)
			if e.code == codes.Unknown || e.code == codes.DeadlineExceeded || e.code == codes.Unavailable || err != nil && c.name != "too big" {
				return fmt.Errorf("step %d: %w; %s", i, err, proc.Tail(s.Log.String()))
			}
			now.events = append(now.events, e)
		case 'B':
			// many at once
			var wg sync.WaitGroup
			es := make([]event, burst)
			errs := make([]error, burst)
			for w := 0; w < clients; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := w; k < burst; k += clients {
						e := event{step: i, method: calls[0].method, start: time.Now()}
						e.trace = []byte(fmt.Sprintf("burst %02d %07d", i, k))
						e.parent = []byte(fmt.Sprintf("p%07d", k))
						ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
						ctx = metadata.AppendToOutgoingContext(ctx, "traceparent", fmt.Sprintf("00-%x-%x-%02x", e.trace, e.parent, k%2))
						errs[k] = calls[0].do(ctx, s, w%3, k)
						cancel()
						e.end = time.Now()
						es[k] = e
					}
				}()
			}
			wg.Wait()
			if err := errors.Join(errs...); err != nil {
				return fmt.Errorf("step %d: %w; %s", i, err, proc.Tail(s.Log.String()))
			}
			now.events = append(now.events, es...)
			r.Transitions(burst)
		case 'R':
			// the span of a request may end after its answer has arrived
			time.Sleep(200 * time.Millisecond)
			if err := s.Stop(interrupt); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			now.end = time.Now()
			past = append(past, now.events...)
			before = append(before, now)
			if err := start(); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if err := check(i); err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
			if len(steps) == 2 {
				if err := examples(s, func(at time.Time) {
					now.events = append(now.events, event{step: i, method: calls[1].method, start: at, end: time.Now()})
				}); err != nil {
					return fmt.Errorf("after step %d: %w", i, err)
				}
				r.Transitions(3)
			}
		case 'T':
			// spans are exported every 5 seconds, metrics and the buffer every minute
			// after that, on a slow machine more often
			n := len(past)
			for try := 0; try < 3; try++ {
				time.Sleep(70 * time.Second)
				past = append(past[:n:n], now.events...)
				if err = check(i); err == nil {
					break
				}
			}
			past = past[:n]
			if err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
		}
		var names []string
		for _, x := range steps[:i+1] {
			names = append(names, x.String())
		}
		r.State(fmt.Sprint(names))
	}
	return s.Stop(interrupt)
}

func main() {
	lib.Main("R31", "histories", func(r *lib.Run) {
		r.Rule("the real program as a server process: every history of up to N requests (every method, success and refusal, with no trace of the client, a sampled and an unsampled one, all compressions, 700 requests by 100 clients at once) with an interrupt and start at any place, and all single requests followed by the timers of the server in real time; afterwards the spans and the metrics of the server itself are compared with the requests, without and with a filter")
		r.Assume("Scheduling inside the server process is the machine's.", "Spans may end up to 200 ms after the answer has reached the client.")
		proc.Need()
		base := r.FastScratch("srv")
		run := func(steps ...step) {
			if r.Expired() {
				r.Truncated()
				return
			}
			r.Case(fmt.Sprint(steps), nil, func() error { return history(r, base, steps) })
			r.Trace()
		}
		R, T := step{kind: 'R'}, step{kind: 'T'}
		var all []step
		for c := range calls {
			for t := 0; t < 3; t++ {
				all = append(all, step{'C', c, t})
			}
		}
		var slow, jobs [][]step
		jobs = append(jobs, []step{R}, []step{R, R})
		for i, a := range all {
			jobs = append(jobs, []step{a, R}, []step{a, R, R})
			slow = append(slow, []step{a, all[(i+4)%len(all)], T})
			for j, b := range all {
				if r.Quick() && (i+j)%4 != 0 {
					continue
				}
				jobs = append(jobs, []step{a, b, R})
				if !r.Quick() || (i+j)%8 == 0 {
					jobs = append(jobs, []step{a, R, b, R})
				}
				if !r.Quick() {
					for _, c := range all {
						if c.trace == 0 {
							jobs = append(jobs, []step{a, b, c, R})
						}
					}
				}
			}
		}
		B := step{kind: 'B'}
		jobs = append(jobs, []step{B, R}, []step{B, R, B, R}, []step{all[3], B, B, R})
		slow = append(slow, []step{B, T}, []step{B, R, B, T})
		sort.SliceStable(jobs, func(i, j int) bool { return len(jobs[i]) < len(jobs[j]) })
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			r.Parallel(len(slow), len(slow), func(i int) { run(slow[i]...) })
		}()
		r.Parallel(len(jobs), 16, func(i int) { run(jobs[i]...) })
		wg.Wait()
		proc.KillAll()
		r.Count("histories", len(jobs)+len(slow))
	})
}

// Package script runs programs of builder calls in the real script engine
// and records the scans that they ask for.
package script

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sync"
	"time"

	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/js"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

// A Call is a method of a builder with its arguments. The builder is the
// index of one of the builders of the program.
type Call struct {
	B int    `json:"b"`
	M string `json:"m"`
	A []any  `json:"a"`
}

func (c Call) String() string {
	return fmt.Sprintf("q%d.%s%v", c.B, c.M, c.A)
}

// A Program makes builders and calls them. The method "query" runs the query.
type Program struct {
	New   []string `json:"new"` // metrics, metrics:NAME, logs, trace, config:SIGNAL
	Calls []Call   `json:"calls"`
}

const source = `
import { Metrics, Logs, Trace, Config } from "@requiemdb/rq";

function make(s: string): any {
    if (s === "metrics") return new Metrics();
    if (s.startsWith("metrics:")) return new Metrics(s.substring(8));
    if (s === "logs") return new Logs();
    if (s === "trace") return new Trace();
    return new Config(s.substring(7) as any);
}

//@ts-ignore
const programs = JSON.parse(PROGRAMS);
for (const p of programs) {
    const q = p.new.map(make);
    const failed = [];
    for (let i = 0; i < p.calls.length; i++) {
        const c = p.calls[i];
        try {
            const b = q[c.b];
            const a = c.m === "now" ? [new Date(c.a[0])] : c.a;
            const m = c.m === "query" && !b.query ? "scan" : c.m;
            const r = b[m](...a);
            if (c.m !== "query" && r !== b) failed.push(-1 - i);
        } catch (e) {
            failed.push(i);
        }
    }
    //@ts-ignore
    DONE(JSON.stringify(failed));
}
`

var program = sync.OnceValues(func() (*goja.Program, error) {
	data, err := compile.Compile([]byte(source))
	if err != nil {
		return nil, err
	}
	return goja.Compile("scan.js", string(data), true)
})

// A Result is what one program did.
type Result struct {
	Scans  []*v1.Scan
	Failed []int // calls that threw; -1-i if call i did not return its builder
}

// Run runs the programs in one engine.
func Run(now func() time.Time, ps []Program) (out []Result, err error) {
	return RunStep(now, ps, func() {})
}

// RunStep calls done at the end of every program.
func RunStep(now func() time.Time, ps []Program, done func()) (out []Result, err error) {
	pr, err := program()
	if err != nil {
		return nil, err
	}
	var text bytes.Buffer
	enc := json.NewEncoder(&text)
	enc.SetEscapeHTML(false)
	if err = enc.Encode(ps); err != nil {
		return
	}
	vm := js.New()
	defer vm.Release()
	var cur Result
	vm.WithScan(func(s *v1.Scan) (*v1.Data, error) {
		cur.Scans = append(cur.Scans, proto.Clone(s).(*v1.Scan))
		switch s.Scope {
		case v1.Scan_LOGS:
			return &v1.Data{Data: &v1.Data_Logs{Logs: &logsv1.LogsData{}}}, nil
		case v1.Scan_TRACES:
			return &v1.Data{Data: &v1.Data_Traces{Traces: &tracev1.TracesData{}}}, nil
		}
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: &metricsv1.MetricsData{}}}, nil
	}).WithNow(now).WithOutput(io.Discard)
	if err = vm.Runtime.Set("PROGRAMS", text.String()); err != nil {
		return
	}
	err = vm.Runtime.Set("DONE", func(failed string) {
		if e := json.Unmarshal([]byte(failed), &cur.Failed); e != nil {
			panic(e)
		}
		out = append(out, cur)
		cur = Result{}
		done()
	})
	if err != nil {
		return
	}
	if err = vm.Run(pr); err != nil {
		return nil, err
	}
	if len(out) != len(ps) {
		return nil, fmt.Errorf("%d of %d programs ended", len(out), len(ps))
	}
	return
}

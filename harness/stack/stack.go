// Package stack assembles the server the way cmd/rq does, without the network.
package stack

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/service"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/translate"
	"github.com/gernest/requiemdb/internal/zzverif/lib"
	"github.com/gernest/requiemdb/internal/zzverif/shim/rtime"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
)

type Stack struct {
	Dir string
	DB  *badger.DB
	Tr  *translate.Translate
	Idx *shards.Shards
	Seq *seq.Seq
	Svc *service.Service
	Now func() time.Time
	mem bool

	tick *rtime.Ticker
	stop context.CancelFunc
}

var Prefix = []byte(strconv.FormatUint(uint64(v1.RESOURCE_TRANSLATE_ID), 10))

// Open opens the server on dir. With mem the sample database is kept in
// memory (restarts are not possible then).
func Open(dir string, mem bool) (s *Stack, err error) {
	s = &Stack{Dir: dir, mem: mem, Now: func() time.Time { return time.Now().UTC() }}
	if mem {
		s.DB = lib.MemDB()
	} else {
		p := filepath.Join(dir, "db")
		if err = os.MkdirAll(p, 0o755); err != nil {
			return
		}
		if s.DB, err = lib.DirDB(p); err != nil {
			return nil, err
		}
	}
	if err = s.OpenParts(); err != nil {
		return nil, err
	}
	return s, nil
}

// OpenParts opens everything above the sample database.
func (s *Stack) OpenParts() (err error) {
	if s.Tr, err = translate.New(s.DB, Prefix); err != nil {
		return fmt.Errorf("translate: %w", err)
	}
	p := filepath.Join(s.Dir, "index")
	if err = os.MkdirAll(p, 0o755); err != nil {
		return
	}
	s.Idx = shards.New(p, nil)
	if s.Seq, err = seq.New(s.DB); err != nil {
		return fmt.Errorf("seq: %w", err)
	}
	return s.OpenService()
}

func (s *Stack) OpenService() (err error) {
	s.Svc, err = service.NewService(context.Background(), s.DB, s.Tr, s.Seq, s.Idx, s.Now, "", time.Hour)
	s.tick, s.stop = nil, nil
	if err == nil && rtime.Active() {
		var ctx context.Context
		ctx, s.stop = context.WithCancel(context.Background())
		s.tick = rtime.Start(func() { s.Svc.Start(ctx) })
	}
	return
}

// CloseService stops the service the way a shutdown does.
func (s *Stack) CloseService() {
	if s.stop != nil {
		s.stop()
	}
	s.Svc.Close()
}

// Flush makes everything exported so far durable: the timer of the service
// ticks. Where it can not be driven, the service is closed the way a shutdown
// does it, and another one is opened on the same databases.
func (s *Stack) Flush() error {
	if s.tick != nil && s.tick.Tick(5*time.Minute) {
		return nil
	}
	s.CloseService()
	return s.OpenService()
}

// CloseParts closes everything but the sample database.
func (s *Stack) CloseParts() error {
	s.CloseService()
	if err := s.Seq.Release(); err != nil {
		return fmt.Errorf("seq: %w", err)
	}
	if err := s.Idx.Close(); err != nil {
		return fmt.Errorf("index: %w", err)
	}
	if err := s.Tr.Close(); err != nil {
		return fmt.Errorf("translate: %w", err)
	}
	return nil
}

func (s *Stack) Close() error {
	if err := s.CloseParts(); err != nil {
		s.DB.Close()
		return err
	}
	return s.DB.Close()
}

// Restart is a clean stop and start. An in-memory sample database stays.
func (s *Stack) Restart() (err error) {
	if s.mem {
		if err = s.CloseParts(); err != nil {
			return err
		}
		return s.OpenParts()
	}
	if err = s.Close(); err != nil {
		return err
	}
	n, err := Open(s.Dir, false)
	if err != nil {
		return err
	}
	now := s.Now
	*s = *n
	s.Now = now
	return nil
}

// Export sends d the way an OTLP client does.
func (s *Stack) Export(d *v1.Data) error {
	ctx := context.Background()
	switch e := d.Data.(type) {
	case *v1.Data_Metrics:
		_, err := s.Svc.Metrics().Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: e.Metrics.GetResourceMetrics()})
		return err
	case *v1.Data_Logs:
		_, err := s.Svc.Logs().Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: e.Logs.GetResourceLogs()})
		return err
	case *v1.Data_Traces:
		_, err := s.Svc.Trace().Export(ctx, &collector_trace.ExportTraceServiceRequest{ResourceSpans: e.Traces.GetResourceSpans()})
		return err
	}
	return fmt.Errorf("no signal in %v", d)
}

func (s *Stack) Scan(q *v1.Scan) (*v1.Data, error) {
	return s.Svc.ScanSamples(context.Background(), q)
}

// Package proc runs the real server as a process.
package proc

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	_ "github.com/gernest/requiemdb/internal/compress"
	"github.com/gernest/requiemdb/internal/zzverif/tel"
	clogs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	cmetrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	ctrace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	"google.golang.org/grpc"
	"google.golang.org/grpc/backoff"
	"google.golang.org/grpc/credentials/insecure"
	_ "google.golang.org/grpc/encoding/gzip"
)

var (
	// Binary is the program.
	Binary = os.Args[0] + ".rq"
	// Names are the compressions, each has a connection.
	Names   = []string{"plain", "zstd", "gzip"}
	started sync.Map // servers that run
)

// Need ends the check when there is no program.
func Need() {
	if _, err := os.Stat(Binary); err != nil {
		fmt.Fprintln(os.Stderr, "no server binary:", err)
		os.Exit(2)
	}
}

// KillAll ends all servers that still run.
func KillAll() {
	started.Range(func(k, _ any) bool { k.(*Server).Stop(syscall.SIGKILL); return true })
}

// Config is a way to start the server.
type Config struct {
	Env  bool // the address comes from the environment
	Home bool // the data is at home
}

// A Server is the real program as a process.
type Server struct {
	Dir, Home, Addr string
	Conf            Config
	Cmd             *exec.Cmd
	Log             bytes.Buffer
	exited          chan error
	Conns           []*grpc.ClientConn
}

func freeAddr() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	return l.Addr().String()
}

// Zone is where the processes run.
var Zone = "UTC"

// Environ is the environment of the processes.
func Environ(home string, kv ...string) []string {
	return append([]string{"HOME=" + home, "PATH=" + os.Getenv("PATH"), "TZ=" + Zone}, kv...)
}

// Start starts it, and waits until it answers.
func (s *Server) Start() (err error) {
	for try := 0; try < 5; try++ {
		s.Addr = freeAddr()
		var args []string
		env := Environ(s.Home)
		if s.Conf.Env {
			env = append(env, "RQ_OTLP_LISTEN="+s.Addr)
		} else {
			args = append(args, "--otlpListen", s.Addr)
		}
		if !s.Conf.Home {
			args = append(args, s.Dir)
		}
		s.Log.Reset()
		s.Cmd = exec.Command(Binary, args...)
		s.Cmd.Env = env
		s.Cmd.Dir = s.Home
		s.Cmd.Stdout = &s.Log
		s.Cmd.Stderr = &s.Log
		s.Cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err = s.Cmd.Start(); err != nil {
			return err
		}
		started.Store(s, true)
		exited := make(chan error, 1)
		cmd := s.Cmd
		go func() { exited <- cmd.Wait() }()
		s.exited = exited
		s.Conns = nil
		for _, n := range Names {
			o := []grpc.DialOption{grpc.WithTransportCredentials(insecure.NewCredentials()),
				grpc.WithConnectParams(grpc.ConnectParams{Backoff: backoff.Config{BaseDelay: 50 * time.Millisecond, Multiplier: 1.3, MaxDelay: time.Second}, MinConnectTimeout: 20 * time.Second})}
			if n != "plain" {
				o = append(o, grpc.WithDefaultCallOptions(grpc.UseCompressor(n)))
			}
			c, err := grpc.NewClient(s.Addr, o...)
			if err != nil {
				return err
			}
			s.Conns = append(s.Conns, c)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		ready := make(chan error, 1)
		go func() {
			_, err := v1.NewRQClient(s.Conns[0]).GetVersion(ctx, &v1.GetVersionRequest{}, grpc.WaitForReady(true))
			ready <- err
		}()
		select {
		case err = <-ready:
		case err = <-exited:
			exited <- err
			err = fmt.Errorf("the server stopped by itself: %v", err)
		}
		cancel()
		if err == nil {
			return nil
		}
		s.Stop(syscall.SIGKILL)
		err = fmt.Errorf("start: %w; %s", err, Tail(s.Log.String()))
		if !strings.Contains(err.Error(), "address already in use") {
			return err
		}
	}
	return err
}

// Tail is the end of s.
func Tail(s string) string {
	if len(s) > 1500 {
		s = "..." + s[len(s)-1500:]
	}
	return s
}

// Stop ends the server and tells whether it went well.
func (s *Server) Stop(sig syscall.Signal) error {
	for _, c := range s.Conns {
		c.Close()
	}
	s.Conns = nil
	if s.Cmd == nil {
		return nil
	}
	defer func() { s.Cmd = nil; started.Delete(s) }()
	select {
	case err := <-s.exited:
		if sig == syscall.SIGKILL {
			return nil
		}
		return fmt.Errorf("the server had stopped by itself: %v; %s", err, Tail(s.Log.String()))
	default:
	}
	s.Cmd.Process.Signal(sig)
	select {
	case err := <-s.exited:
		if sig == syscall.SIGKILL {
			return nil
		}
		var e *exec.ExitError
		if errors.As(err, &e) && e.ExitCode() == 2 {
			return fmt.Errorf("it did not shut down in order: %v; %s", err, Tail(s.Log.String()))
		}
		return nil
	case <-time.After(120 * time.Second):
		s.Cmd.Process.Kill()
		<-s.exited
		return fmt.Errorf("it does not shut down; %s", Tail(s.Log.String()))
	}
}

// Export sends d with a compression of Names.
func (s *Server) Export(d *v1.Data, comp int) (err error) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	switch c := s.Conns[comp]; tel.Kind(d) {
	case v1.Scan_METRICS:
		_, err = cmetrics.NewMetricsServiceClient(c).Export(ctx, &cmetrics.ExportMetricsServiceRequest{ResourceMetrics: d.GetMetrics().GetResourceMetrics()})
	case v1.Scan_LOGS:
		_, err = clogs.NewLogsServiceClient(c).Export(ctx, &clogs.ExportLogsServiceRequest{ResourceLogs: d.GetLogs().GetResourceLogs()})
	default:
		_, err = ctrace.NewTraceServiceClient(c).Export(ctx, &ctrace.ExportTraceServiceRequest{ResourceSpans: d.GetTraces().GetResourceSpans()})
	}
	return
}

// Scan asks with a compression of Names.
func (s *Server) Scan(q *v1.Scan, comp int) (*v1.Data, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	return v1.NewRQClient(s.Conns[comp]).ScanSamples(ctx, q)
}

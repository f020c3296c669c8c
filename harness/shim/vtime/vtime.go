// Package vtime has the timers of instrumented code. They fire when the
// scenario says so.
package vtime

import (
	"time"

	"github.com/gernest/requiemdb/internal/zzverif/sched"
)

type Ticker struct {
	C   <-chan time.Time
	c   chan time.Time
	off bool
	f   func()
	one bool
	D   time.Duration
}

type Timer = Ticker

// All are the tickers and timers of the execution.
var All []*Ticker

func init() { sched.OnReset(func() { All = nil }) }

func mk(d time.Duration, one bool, f func()) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, D: d, one: one, f: f}
	All = append(All, t)
	return t
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	return mk(d, false, nil)
}
func NewTimer(d time.Duration) *Timer            { return mk(d, true, nil) }
func AfterFunc(d time.Duration, f func()) *Timer { return mk(d, true, f) }
func After(d time.Duration) <-chan time.Time     { return NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time      { return mk(d, false, nil).C }
func Sleep(d time.Duration)                      { sched.Point("Sleep") }

func (t *Ticker) Stop() bool {
	sched.Point("Stop")
	was := !t.off
	t.off = true
	return was
}

func (t *Ticker) Reset(d time.Duration) bool {
	was := !t.off
	t.off = false
	t.D = d
	return was
}

// Fire lets every ticker and timer fire once.
func Fire() {
	sched.Point("fire")
	for _, t := range All {
		if t.off {
			continue
		}
		t.off = t.one
		if t.f != nil {
			sched.Go(t.f)
			continue
		}
		select {
		case t.c <- time.Time{}:
		default:
		}
	}
	sched.Point("fired")
}

// Taken reports whether everything that fired has been received.
func Taken() bool {
	for _, t := range All {
		if len(t.c) > 0 {
			return false
		}
	}
	return true
}

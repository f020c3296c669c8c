// Package rtime takes the place of package time in the service that is checked.
// Its tickers tick when the check says so; everything else is that of time.
package rtime

import (
	"sync"
	"sync/atomic"
	"time"
)

// on is set by the linker when the service uses this package.
var on string

var off atomic.Bool

// Active tells whether the tickers of the service can be driven.
func Active() bool { return on != "" && !off.Load() }

// Ticker is a ticker that is driven by Tick.
type Ticker struct {
	C    <-chan Time
	c    chan Time
	stop chan struct{}
	once sync.Once
}

var (
	mu   sync.Mutex
	made = make(chan *Ticker, 64)
)

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan Time), stop: make(chan struct{})}
	t.C = t.c
	select {
	case made <- t:
	default:
	}
	return t
}

func (t *Ticker) Stop()          { t.once.Do(func() { close(t.stop) }) }
func (t *Ticker) Reset(Duration) {}

// Start runs f, which starts a service, and gives the ticker that it uses. It
// is nil when there is none.
func Start(f func()) *Ticker {
	mu.Lock()
	defer mu.Unlock()
	for len(made) > 0 {
		<-made
	}
	f()
	if !Active() {
		return nil
	}
	select {
	case t := <-made:
		return t
	case <-time.After(5 * time.Second):
		off.Store(true)
		return nil
	}
}

// Tick lets the ticker tick, and waits until what it is for was done. It is
// false when nobody listens.
func (t *Ticker) Tick(limit Duration) bool {
	end := time.After(limit)
	// The second tick is taken when the work of the first one was done.
	for range 2 {
		select {
		case t.c <- time.Now():
		case <-t.stop:
			return false
		case <-end:
			return false
		}
	}
	// There is nothing left to do for the second one.
	time.Sleep(50 * time.Microsecond)
	return true
}

type Timer = time.Timer

func NewTimer(d Duration) *Timer            { return time.NewTimer(d) }
func AfterFunc(d Duration, f func()) *Timer { return time.AfterFunc(d, f) }
func After(d Duration) <-chan Time          { return time.After(d) }
func Tick(d Duration) <-chan Time           { return NewTicker(d).C }
func Sleep(d Duration)                      { time.Sleep(d) }

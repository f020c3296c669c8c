package sched

import "reflect"

// Channels of instrumented code. Values that were received to find out
// whether a channel is ready wait in stash.

type stashed struct {
	ch  uintptr
	val reflect.Value
}

var stash []stashed

type Case struct {
	ch   reflect.Value
	send bool
	val  reflect.Value
	got  reflect.Value
	ok   bool
}

func RecvCase(ch any) Case { return Case{ch: reflect.ValueOf(ch)} }
func SendCase(ch, v any) Case {
	c := Case{ch: reflect.ValueOf(ch), send: true, val: reflect.ValueOf(v)}
	if v == nil && c.ch.IsValid() {
		c.val = reflect.Zero(c.ch.Type().Elem())
	}
	return c
}

type parked struct {
	t    *thread
	ch   uintptr
	val  reflect.Value
	done *bool
}

var senders []*parked

func init() {
	OnReset(func() { stash, senders = nil, nil })
}

// peek reports whether a receive would not block.
func peek(ch reflect.Value) bool {
	if !ch.IsValid() || ch.IsNil() {
		return false
	}
	p := ch.Pointer()
	for _, s := range stash {
		if s.ch == p {
			return true
		}
	}
	if ch.Len() > 0 {
		return true
	}
	for _, s := range senders {
		if s.ch == p && !*s.done {
			return true
		}
	}
	v, ok := ch.TryRecv()
	if ok {
		stash = append(stash, stashed{p, v})
		return true
	}
	return v.IsValid() // closed
}

func take(ch reflect.Value) (reflect.Value, bool) {
	p := ch.Pointer()
	for i, s := range stash {
		if s.ch == p {
			stash = append(stash[:i:i], stash[i+1:]...)
			return s.val, true
		}
	}
	if v, ok := ch.TryRecv(); ok {
		return v, true
	} else if v.IsValid() && ch.Len() == 0 {
		live := false
		for _, s := range senders {
			live = live || s.ch == p && !*s.done
		}
		if !live {
			return v, false
		}
	}
	for _, s := range senders {
		if s.ch == p && !*s.done {
			*s.done = true
			return s.val, true
		}
	}
	return reflect.Zero(ch.Type().Elem()), false
}

// room reports whether a send would not block (or would panic).
func room(ch reflect.Value) bool {
	if ch.IsNil() {
		return false
	}
	return ch.Cap() > 0 && ch.Len() < ch.Cap()
}

type Selected struct {
	Index int
	Cases []Case
}

// Select is a select statement. Index is -1 for the default case.
func Select(def bool, cs ...Case) *Selected {
	if me() == nil {
		return plainSelect(def, cs)
	}
	Point("select")
	ready := func() (l []int) {
		for i, c := range cs {
			if c.send {
				if c.ch.IsValid() && (room(c.ch) || waitingReceiver(c.ch)) {
					l = append(l, i)
				}
			} else if peek(c.ch) {
				l = append(l, i)
			}
		}
		return
	}
	for {
		l := ready()
		if len(l) == 0 {
			if def {
				return &Selected{-1, cs}
			}
			var ps []*parked
			for _, c := range cs {
				if !c.send && c.ch.IsValid() {
					ps = append(ps, &parked{ch: c.ch.Pointer()})
				}
			}
			receivers = append(receivers, ps...)
			Block("select", func() bool { return len(ready()) > 0 })
			receivers = without(receivers, ps)
			continue
		}
		i := l[0]
		if len(l) > 1 {
			i = l[decide(len(l), false, false)]
		}
		if cs[i].send {
			sendNow(cs[i].ch, cs[i].val)
		} else {
			cs[i].got, cs[i].ok = take(cs[i].ch)
		}
		return &Selected{i, cs}
	}
}

var receivers []*parked

func without(l, x []*parked) (o []*parked) {
	for _, p := range l {
		keep := true
		for _, q := range x {
			keep = keep && p != q
		}
		if keep {
			o = append(o, p)
		}
	}
	return
}

func waitingReceiver(ch reflect.Value) bool {
	for _, p := range receivers {
		if p.ch == ch.Pointer() {
			return true
		}
	}
	return false
}

func sendNow(ch, v reflect.Value) {
	if ch.TrySend(v) {
		return
	}
	stash = append(stash, stashed{ch.Pointer(), v})
}

func plainSelect(def bool, cs []Case) *Selected {
	var rc []reflect.SelectCase
	for _, c := range cs {
		s := reflect.SelectCase{Dir: reflect.SelectRecv, Chan: c.ch}
		if c.send {
			s.Dir, s.Send = reflect.SelectSend, c.val
		}
		rc = append(rc, s)
	}
	if def {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if def && i == len(cs) {
		return &Selected{-1, cs}
	}
	cs[i].got, cs[i].ok = v, ok
	return &Selected{i, cs}
}

// Got is what a case received.
func Got[T any](c Case) (v T, ok bool) {
	if c.got.IsValid() {
		v, _ = c.got.Interface().(T)
	}
	return v, c.ok
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if me() == nil {
		v, ok := <-ch
		return v, ok
	}
	s := Select(false, RecvCase(ch))
	return Got[T](s.Cases[0])
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Send[T any](ch chan<- T, v T) {
	if me() == nil {
		ch <- v
		return
	}
	Point("send")
	select {
	case ch <- v:
		return
	default:
	}
	p := &parked{ch: reflect.ValueOf(ch).Pointer(), val: reflect.ValueOf(&v).Elem(), done: new(bool)}
	senders = append(senders, p)
	Block("send", func() bool {
		if *p.done {
			return true
		}
		return cap(ch) > 0 && len(ch) < cap(ch)
	})
	senders = without(senders, []*parked{p})
	if !*p.done {
		ch <- v
	}
}

func Close[T any](ch chan<- T) {
	Point("close")
	close(ch)
}

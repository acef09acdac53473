// Package time replaces the standard package in instrumented code: the clock is
// the simulator's.
package time

import (
	"time"

	"vsim/rt"
)

var epoch = time.Unix(1577836800, 0).UTC()

func Now() Time {
	if rt.S == nil {
		return epoch
	}
	return epoch.Add(Duration(rt.Now()))
}

func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if rt.Dying() {
		return
	}
	if d <= 0 {
		rt.Gosched()
		return
	}
	g := rt.Cur()
	fired := false
	rt.AfterTimer(int64(d), func() { fired = true; rt.Ready(g) })
	for !fired {
		rt.Block("sleep")
	}
}

type Timer struct {
	C  *rt.Chan[Time]
	ev *rt.Event
	f  func()
}

func (t *Timer) fire() {
	t.ev = nil
	if t.f != nil {
		rt.Go(t.f)
		return
	}
	t.C.TrySendNow(Now())
}

func NewTimer(d Duration) *Timer {
	t := &Timer{C: rt.NewChan[Time](1)}
	t.ev = rt.AfterTimer(int64(d), t.fire)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.ev = rt.AfterTimer(int64(d), t.fire)
	return t
}

func (t *Timer) Stop() bool {
	if rt.Dying() {
		return false
	}
	rt.Sync()
	ok := t.ev.Stop()
	t.ev = nil
	return ok
}

func (t *Timer) Reset(d Duration) bool {
	ok := t.Stop()
	t.ev = rt.AfterTimer(int64(d), t.fire)
	return ok
}

func After(d Duration) *rt.Chan[Time] { return NewTimer(d).C }

type Ticker struct {
	C  *rt.Chan[Time]
	d  Duration
	ev *rt.Event
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: rt.NewChan[Time](1), d: d}
	t.ev = rt.AfterTimer(int64(d), t.tick)
	return t
}

func (t *Ticker) tick() {
	t.C.TrySendNow(Now())
	t.ev = rt.AfterTimer(int64(t.d), t.tick)
}

func (t *Ticker) Stop() {
	if !rt.Dying() {
		t.ev.Stop()
	}
}

func (t *Ticker) Reset(d Duration) {
	t.Stop()
	t.d = d
	t.ev = rt.AfterTimer(int64(d), t.tick)
}

func Tick(d Duration) *rt.Chan[Time] { return NewTicker(d).C }

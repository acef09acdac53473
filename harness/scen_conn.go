package main

import (
	"crypto/tls"
	"math"
	"reflect"

	kafka "github.com/savaki/kafka"
	"vsim/rt"
	"vsim/simnet"
)

// profile weighs the faults and features of the connection scenarios for the
// property under test. Probabilities of features are per run or per link,
// those of broker mischief per response.
type profile struct {
	prop string

	callers, calls                          int // largest numbers
	links                                   int
	hold, dup, stray, bad, mal, null, split float64
	pHold, pDup, pStray, pBad, pMal         float64 // per response once enabled
	loss, reset, writeFail, transient       float64
	userClose, stall, stallOut, window      float64
	cut, big, acks0, wrap, slow, tls        float64
	knobs                                   float64 // chance of small buffers
	decErr                                  float64
	seq                                     float64 // chance of purely sequential callers
	churn                                   float64 // chance of connections opened while others end
	crowd                                   float64 // chance of many callers
	marathon                                float64 // chance of many calls
}

func baseProfile(prop string) *profile {
	return &profile{prop: prop, callers: 4, calls: 4, links: 1,
		hold: .3, dup: .25, stray: .25, bad: .2, mal: .1, null: .5, split: .4,
		pHold: .25, pDup: .25, pStray: .25, pBad: .25, pMal: .15,
		loss: .2, reset: .1, writeFail: .12, transient: .3,
		userClose: .25, stall: .15, stallOut: .08, window: .1,
		cut: .5, big: .15, acks0: .1, wrap: .1, slow: .2, knobs: .85, decErr: .1, seq: .15, tls: .1, churn: .06, crowd: .008, marathon: .008}
}

func profileFor(prop string) *profile {
	p := baseProfile(prop)
	switch prop {
	case "C01":
		p.callers, p.calls = 5, 5
		p.mal, p.loss, p.reset, p.writeFail, p.userClose = .04, .08, .04, .05, .1
		p.wrap = .2
		p.dup, p.stray, p.bad, p.hold = .4, .4, .3, .4
	case "C02":
		p.mal, p.loss, p.reset, p.writeFail, p.userClose, p.stallOut = 0, .03, 0, 0, .05, .05
		p.cut, p.split, p.big, p.stall = .85, .7, .5, .3
		p.bad, p.stray, p.dup = .1, .1, .1
		p.knobs = .95
	case "C05":
		p.callers, p.calls = 5, 4
		p.writeFail, p.window, p.stallOut = .45, .3, .15
		p.loss, p.reset, p.mal = .15, .1, .02
		p.big = .3
		p.wrap = .3
	case "C06":
		p.callers, p.calls = 3, 8
		p.mal, p.loss, p.reset, p.writeFail, p.userClose, p.bad, p.stray, p.dup, p.hold = 0, .02, 0, 0, .02, 0, .05, .05, .1
		p.null = .8
		p.acks0 = .05
	case "C07":
		p.loss, p.reset, p.writeFail = .55, .25, .25
		p.userClose, p.mal = .1, .05
		p.hold = .4
		p.tls = .25
	case "C08":
		p.userClose = .95
		p.stall, p.stallOut, p.slow = .3, .2, .35
		p.hold = .5
		p.loss = .2
	case "C09":
		p.bad, p.mal, p.pBad, p.pMal = .85, .6, .5, .3
		p.loss, p.writeFail = .08, .03
		p.userClose = .15
	case "C10":
		p.callers, p.calls = 2, 8
		p.mal, p.loss, p.reset, p.writeFail, p.userClose = .03, .1, .05, .03, .2
		p.big, p.null = .35, .2
		p.knobs = .7
		p.churn = .3
	case "C15":
		p.userClose, p.loss, p.writeFail, p.mal = .6, .3, .2, .15
	case "C17":
		p.callers, p.calls = 4, 3
		p.userClose, p.big = .35, 0
		p.loss, p.writeFail = .25, .15
		p.knobs = 1
		p.churn = .2
		p.crowd, p.marathon = .003, .002
	case "C19":
		p.marathon = .02
		p.acks0 = .7
		p.bad, p.mal, p.stray = .1, .03, .1
		p.loss, p.writeFail, p.userClose = .12, .1, .1
	case "C20":
		p.links = 2
		p.churn, p.slow = .8, .45
		p.loss, p.writeFail, p.mal, p.bad, p.userClose, p.stall, p.stallOut = .3, .2, .35, .35, .3, .4, .2
	}
	return p
}

func on(p float64) bool { return p > 0 && rt.Chance(rt.StFault, p) }

// sizes chooses the internal buffer sizes of the run.
func (w *World) sizes() {
	p := w.prof
	w.ring, w.read = 4096, 4096
	if !on(p.knobs) && !w.race {
		return
	}
	ring := []int{64, 16, 17, 33, 128, 256, 700, 4096}[rt.Choose(rt.StFault, 8)]
	read := []int{64, 8, 16, 31, 100, 512, 4096, 1}[rt.Choose(rt.StFault, 8)]
	if knob("ringBufferSize", ring) && knob("readBufferSize", read) {
		rt.Count("knob.small_buffers")
		w.ring, w.read = ring, read
	}
}

// clean makes a plan without faults.
func (w *World) clean(ranges [][3]int16) *Plan {
	p := &Plan{ranges: ranges}
	p.delay = []int64{0, 5 * ms, 50 * ms, 1000 * ms}[rt.Choose(rt.StFault, 4)]
	if w.race {
		p.sizeClass = []float64{.8, .2}
	} else if on(w.prof.big) {
		p.sizeClass = []float64{.3, .3, .3, .1}
	} else {
		p.sizeClass = []float64{.7, .25, .05}
	}
	if on(w.prof.null) {
		p.pNull = .5
	}
	if on(w.prof.split) {
		p.pSplit = .5
	}
	return p
}

// faulty adds broker mischief.
func (w *World) faulty(p *Plan) {
	f := w.prof
	if on(f.hold) {
		p.pHold = f.pHold
	}
	if on(f.dup) {
		p.pDup = f.pDup
	}
	if on(f.stray) {
		p.pStray = f.pStray
	}
	if on(f.bad) {
		p.pBad = f.pBad
	}
	if on(f.mal) {
		p.pMal = f.pMal
	}
}

// network draws the network behaviour of a connection.
func (w *World) network(c *simnet.Conn) {
	f := w.prof
	if on(f.cut) {
		c.CutMode = 1 + rt.Choose(rt.StFault, 4)
	}
	if rt.Chance(rt.StFault, .5) {
		c.Latency = func() int64 { return int64(rt.Choose(rt.StNet, 12)) * ms / 4 }
	}
	if on(f.window) {
		c.Window = 1 + int64(rt.Choose(rt.StFault, 400))
	}
}

var lossErrs = []error{simnet.ErrReset, simnet.ErrTimedOut, simnet.ErrNoRoute}

// disturb plans the faults of an established connection.
func (w *World) disturb(h *Handle) {
	f := w.prof
	c := h.link.c
	at := func(max int64, fn func()) {
		rt.After(int64(rt.Choose(rt.StFault, 1000))*max/1000, fn)
	}
	if on(f.loss) {
		switch rt.Choose(rt.StFault, 5) {
		case 4: // close right behind a response
			h.link.plan.closeAt = h.link.nAns + 1 + rt.Choose(rt.StFault, 4)
		case 0: // cut the response stream at a byte
			c.CutAt = c.SentIn + int64(rt.Choose(rt.StFault, 400))
			if rt.Chance(rt.StFault, .5) {
				c.CutErr = lossErrs[rt.Choose(rt.StFault, len(lossErrs))]
			}
		case 1: // orderly close by the broker
			at(100*ms, func() {
				rt.Count("fault.server_close")
				c.ServerClose()
			})
		case 2: // close after a number of requests
			n := 1 + rt.Choose(rt.StFault, 8)
			h.link.plan.onFrame = func(l *Link, fr *Frame) {
				if fr.idx >= n {
					rt.Count("fault.server_close")
					l.c.ServerClose()
				}
			}
		case 3: // cut within the next frame
			c.CutAt = c.SentIn + int64(rt.Choose(rt.StFault, 24))
			c.CutErr = simnet.ErrIO
			if rt.Chance(rt.StFault, .4) {
				c.CutErr = lossErrs[rt.Choose(rt.StFault, len(lossErrs))]
			}
		}
	}
	if on(f.reset) {
		at(100*ms, func() {
			rt.Count("fault.reset")
			c.Reset()
		})
	}
	if on(f.writeFail) {
		max := 300
		if rt.Chance(rt.StFault, .4) {
			max = 30
		}
		c.FailWriteAt = c.Written + int64(rt.Choose(rt.StFault, max))
		c.WriteTrans = rt.Chance(rt.StFault, f.transient)
		if c.WriteTrans {
			c.WriteErr = simnet.ErrNoMemory
		} else if rt.Chance(rt.StFault, .3) {
			c.WriteErr = lossErrs[rt.Choose(rt.StFault, len(lossErrs))]
		}
	}
	if on(f.stall) {
		at(20*ms, func() {
			rt.Count("fault.stall_in")
			c.Stalled = true
			if rt.Chance(rt.StFault, .5) {
				rt.After(int64(rt.Choose(rt.StFault, 100))*ms, c.Unstall)
			}
		})
	}
	if on(f.stallOut) {
		at(20*ms, func() {
			rt.Count("fault.stall_out")
			c.StallOut = true
			if rt.Chance(rt.StFault, .5) {
				rt.After(int64(rt.Choose(rt.StFault, 100))*ms, c.UnstallOut)
			}
		})
	}
}

// pickApis chooses the APIs of a run and the ranges the broker advertises.
func (w *World) pickApis(n int) ([]*api, [][3]int16) {
	var as []*api
	var rs [][3]int16
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		a := &schema.Apis[rt.Choose(rt.StWork, len(schema.Apis))]
		if a.Key == 0 && w.prop == "C06" && i > 0 {
			a = &schema.Apis[1]
		}
		as = append(as, a)
		if !seen[a.Key] {
			seen[a.Key] = true
			hi := int16(rt.Choose(rt.StWork, a.Max+1))
			if rt.Chance(rt.StWork, .15) {
				hi = int16(a.Max) + int16(rt.Choose(rt.StWork, 4))
			}
			lo := int16(0)
			if rt.Chance(rt.StWork, .2) && hi <= int16(a.Max) {
				lo = int16(rt.Choose(rt.StWork, int(hi)+1))
			}
			rs = append(rs, [3]int16{int16(a.Key), lo, hi})
		}
	}
	return as, rs
}

// request builds the request of a call.
func (w *World) request(c *Call) {
	class := 0
	if rt.Chance(rt.StWork, .3) {
		class = 1 + rt.Choose(rt.StWork, 2)
		if w.race {
			class = 1
		} else if w.prof.big > 0 && rt.Chance(rt.StWork, .06) {
			class = 3
		}
	}
	seed := rt.Bits(rt.StWork)
	g := newGen(seed, uint32(c.id), class)
	if c.api == nil {
		c.raw = append(p32(nil, int32(c.id)), g.bytes(g.byt)...)
		return
	}
	v := reflect.New(msgType[c.api.Request]).Elem()
	g.fill(v, c.api.Request, int(c.h.vers[int16(c.api.Key)]), seed%4 == 3, 0)
	if c.api.Key == 0 {
		a := v.FieldByName("Acks")
		if c.acks0 {
			a.SetInt(0)
		} else if a.Int() == 0 {
			a.SetInt(1)
		}
	}
	c.req = v
}

func (w *World) addr() string { return "broker:9092" }

// quiesce lets everything happen that happens by itself: 10 minutes, or what
// is going to happen for certain takes.
func (w *World) quiesce() {
	for {
		rt.Quiesce(rt.Now() + 600*1000*ms)
		t := w.busyUntil
		w.busyUntil = 0
		if t <= rt.Now() {
			return
		}
		rt.Quiesce(t)
	}
}

// busy says that something is going to happen d from now.
func (w *World) busy(d int64) {
	if t := rt.Now() + d; t > w.busyUntil {
		w.busyUntil = t
	}
}

// restTime draws how long nothing happens, mostly not at all.
func (w *World) restTime() int64 {
	if !rt.Chance(rt.StFault, .08) {
		return 0
	}
	rt.Count("feature.rest")
	return []int64{31, 125, 11 * 60, 61 * 60, 25 * 3600}[rt.Choose(rt.StFault, 5)] * 1000 * ms
}

// rest lets time pass, now and then, in which nothing happens from outside.
func (w *World) rest() {
	if d := w.restTime(); d > 0 {
		rt.After(d, func() {})
		rt.Quiesce(rt.Now() + d)
	}
}

// scenConn exercises brokers (or raw connections) with concurrent callers.
func scenConn(w *World, raw bool) {
	p := w.prof
	w.sizes()
	w.watchClose()
	apis, ranges := w.pickApis(1 + rt.Choose(rt.StWork, 4))
	if on(p.acks0) {
		apis = append(apis, apiNamed["Produce"])
		has := false
		for _, r := range ranges {
			has = has || r[0] == 0
		}
		if !has {
			ranges = append(ranges, [3]int16{0, 0, int16(rt.Choose(rt.StWork, 9))})
		}
	}
	acks0 := apis[len(apis)-1].Key == 0
	nLinks := 1
	if p.links > 1 {
		nLinks = p.links
	}
	var atEnd func() // at the end of a connection
	w.planFor = func(d *simnet.Dial) (*Plan, simnet.Outcome) {
		pl := w.clean(ranges)
		out := simnet.Outcome{Delay: ms, Setup: func(c *simnet.Conn) {
			w.network(c)
			c.OnEnd = func() {
				if f := atEnd; f != nil && c != nil {
					atEnd = nil
					f()
				}
			}
		}}
		if w.later && rt.Chance(rt.StNet, .5) {
			out.Delay, pl.delay = 0, 0
		}
		return pl, out
	}
	var opts []kafka.Option
	if on(p.tls) {
		rt.Count("feature.tls")
		opts = append(opts, kafka.WithTLS(&tls.Config{}))
	}
	var hs []*Handle
	for i := 0; i < nLinks; i++ {
		hs = append(hs, w.start(w.addr(), raw, opts...))
	}
	w.quiesce()
	for _, h := range hs {
		if !h.opened || h.err != nil || h.link == nil {
			w.fail("C01,C02,C06,C07,C11,C12", "connect-failed", "connecting to a healthy broker does not succeed: opened=%v err=%v", h.opened, h.err)
			return
		}
	}
	// many requests outstanding at a time, or one after the other
	crowd := on(p.crowd)
	marathon := !crowd && on(p.marathon)
	long := crowd || marathon
	if crowd {
		rt.Count("feature.many_outstanding")
	}
	if marathon {
		rt.Count("feature.many_calls")
	}
	for i, h := range hs {
		if long {
			h.link.plan.sizeClass = []float64{.9, .1}
		}
		if p.links > 1 && i == 0 {
			h.canary = true // the undisturbed connection
			if w.prop == "C20" && rt.Chance(rt.StFault, .4) {
				// its server is done with it after some responses
				h.link.plan.closeAt = h.link.nAns + 1 + rt.Choose(rt.StFault, 6)
			}
			continue
		}
		w.faulty(h.link.plan)
		if long && h.link.plan.delay > 50*ms {
			h.link.plan.delay = 50 * ms
		}
		if !long || rt.Chance(rt.StFault, .25) {
			w.disturb(h)
		}
		if on(p.wrap) {
			v := []int32{math.MaxInt32 - 2, -3, math.MinInt32, math.MaxInt32, math.MaxInt32 - 6}[rt.Choose(rt.StFault, 5)]
			if ctr := h.counter(); ctr != nil {
				ctr.set(v)
				rt.Count("feature.id_wraparound")
			}
		} else if on(p.wrap) {
			// as if many requests had passed while others are outstanding
			if ctr := h.counter(); ctr != nil {
				n := int32(1)<<[]int{8, 10, 12, 14, 15, 16, 20, 24}[rt.Choose(rt.StFault, 8)] - int32(rt.Choose(rt.StFault, 6))
				rt.After(int64(rt.Choose(rt.StFault, 40))*ms/2, func() {
					ctr.add(n)
					rt.Count("feature.id_jump")
				})
			}
		}
	}
	mk := func(h *Handle, canary bool) *Call {
		var a *api
		if !raw {
			a = apis[rt.Choose(rt.StWork, len(apis))]
		}
		c := w.newCall(h, a)
		c.canary = canary
		if a != nil && a.Key == 0 && acks0 {
			c.acks0 = rt.Chance(rt.StWork, .6)
		}
		if raw && on(p.slow) {
			c.slow = 1 + int64(rt.Choose(rt.StWork, 40))*ms
		}
		if raw && on(p.decErr) {
			c.wantDecErr = true
		}
		w.request(c)
		return c
	}
	n := 1 + rt.Choose(rt.StWork, p.callers)
	if on(p.seq) {
		n = 1
	}
	perCaller := p.calls
	switch {
	case crowd:
		n, perCaller = 20+rt.Choose(rt.StWork, 130), 2
	case marathon:
		n, perCaller = 1+rt.Choose(rt.StWork, 3), 60+rt.Choose(rt.StWork, 240)
	}
	for i := 0; i < n; i++ {
		h := hs[len(hs)-1]
		var cs []*Call
		m := 1 + rt.Choose(rt.StWork, perCaller)
		for j := 0; j < m; j++ {
			cs = append(cs, mk(h, false))
		}
		w.caller("caller", cs)
	}
	if p.links > 1 {
		var cs []*Call
		m := 2 + rt.Choose(rt.StWork, p.calls)
		for j := 0; j < m; j++ {
			cs = append(cs, mk(hs[0], true))
		}
		w.caller("canary", cs)
	}
	if len(w.calls) > 1 {
		rt.Count("nontrivial")
	}
	last := hs[len(hs)-1]
	closeAt := int64(-1)
	if on(p.userClose) {
		k := 1 + rt.Choose(rt.StFault, 2)
		for i := 0; i < k; i++ {
			closeAt = int64(rt.Choose(rt.StFault, 60)) * ms / 2
			rt.After(closeAt, func() {
				rt.Count("fault.user_close")
				rt.GoHarness("closer", last.close)
			})
		}
	}
	if on(p.churn) {
		// connections opened later, while the others are in use or come to an end
		rt.Count("feature.churn")
		k := 1 + rt.Choose(rt.StFault, 2)
		w.later = true
		for i := 0; i < k; i++ {
			at := int64(rt.Choose(rt.StFault, 60)) * ms / 2
			if closeAt >= 0 && rt.Chance(rt.StFault, .5) {
				at = closeAt
			}
			open := func() {
				hs = append(hs, w.startThen(w.addr(), raw, func(h *Handle) {
					h.canary = true
					for j := rt.Choose(rt.StWork, p.calls+1); j >= 0 && h.err == nil; j-- {
						mk(h, true).do()
					}
				}, opts...))
			}
			if i == 0 && rt.Chance(rt.StFault, .5) {
				atEnd = open
			} else {
				rt.After(at, open)
			}
		}
	}
	w.quiesce()
	for _, h := range hs {
		if !h.opened || h.err != nil || h.link == nil {
			w.fail("C20,C01,C07", "connect-failed", "connecting to a healthy broker while other connections are in use does not succeed: opened=%v err=%v", h.opened, h.err)
			return
		}
	}
	w.evalCalls(false)
	w.evalClose()
	if len(rt.S.Violations) > 0 && w.stopEarly() {
		return
	}
	w.rest()
	w.evalCalls(false)
	// the faults end: held responses are sent, stalls are lifted
	for _, h := range hs {
		h.link.heal()
	}
	w.quiesce()
	w.evalCalls(true)
	w.rest()
	// one more call on every connection
	for _, h := range hs {
		c := mk(h, h.canary)
		c.slow = 0
		c.wantDecErr = false
		w.caller("probe", []*Call{c})
	}
	w.quiesce()
	w.evalCalls(true)
	w.finishConns(hs)
}

// finishConns closes everything and makes the final checks.
func (w *World) finishConns(hs []*Handle) {
	for _, h := range hs {
		h := h
		if h.b == nil && h.conn == nil {
			continue
		}
		rt.GoHarness("final-close", h.close)
	}
	w.quiesce()
	w.evalClose()
	// a later call must fail
	for _, h := range hs {
		if h.closeEnd == 0 {
			continue
		}
		var a *api
		if h.b != nil {
			a = apiNamed["Heartbeat"]
		}
		c := w.newCall(h, a)
		w.request(c)
		w.caller("late", []*Call{c})
	}
	w.quiesce()
	for _, c := range w.calls {
		if c.done && c.err == nil && c.h.closeEnd != 0 && c.start >= c.h.closeEnd {
			w.fail("C08", "call-after-close", "a call made after Close had returned succeeded")
		}
	}
	w.evalCalls(true)
	w.evalSnapshots()
	w.evalCodec()
	if w.prop == "C09" {
		w.evalHostile()
	}
	w.evalLeaks("C15,C08")
}

// stopEarly: once the property under test is violated there is no need to go on.
func (w *World) stopEarly() bool {
	for _, v := range rt.S.Violations {
		for _, p := range v.Props {
			if p == w.prop {
				return true
			}
		}
	}
	return false
}

func (w *World) caller(name string, cs []*Call) {
	gap := rt.Chance(rt.StWork, .3)
	rt.GoHarness(name, func() {
		for _, c := range cs {
			if gap {
				sleep(int64(rt.Choose(rt.StWork, 20)) * ms)
			}
			c.do()
		}
	})
}

var _ = kafka.Connect

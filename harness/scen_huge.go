package main

import (
	"vsim/rt"
	"vsim/simnet"
)

// scenHuge sends responses larger than the shipped buffer sizes.
func scenHuge(w *World) {
	rt.S.AllocLimit = 1 << 30
	size, calls := 5300000, 2
	switch rt.Weighted(rt.StWork, .6, .25, .08, .07) {
	case 1:
		size = 17 << 20
	case 2:
		size, calls = 68<<20, 1
	case 3:
		size, calls = 129<<20, 1
	}
	rt.SetBudget(2500e6)
	w.planFor = func(d *simnet.Dial) (*Plan, simnet.Outcome) {
		p := &Plan{sizeClass: []float64{0, 0, 0, 0, 1}, huge: size}
		p.custom = nil
		return p, simnet.Outcome{Delay: ms, Setup: func(c *simnet.Conn) {
			if rt.Chance(rt.StFault, .5) {
				c.Latency = func() int64 { return int64(rt.Choose(rt.StNet, 12)) * ms / 4 }
			}
		}}
	}
	h := w.start(w.addr(), true)
	w.quiesce()
	if !h.opened || h.err != nil || h.link == nil {
		w.fail("C02", "connect-failed", "connecting to a healthy broker does not succeed: opened=%v err=%v", h.opened, h.err)
		return
	}
	var cs []*Call
	for i := 0; i < calls; i++ {
		c := w.newCall(h, nil)
		w.request(c)
		cs = append(cs, c)
	}
	if rt.Chance(rt.StWork, .5) || calls == 1 {
		w.caller("caller", cs)
	} else {
		w.caller("caller", cs[:1])
		w.caller("caller", cs[1:])
	}
	rt.Count("nontrivial")
	rt.Count("feature.shipped_buffer_sizes")
	w.quiesce()
	w.evalCalls(true)
	h.link.plan.sizeClass = nil
	w.finishConns([]*Handle{h})
}

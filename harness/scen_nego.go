package main

import (
	"strconv"

	"vsim/rt"
	"vsim/simnet"
)

// negoRanges draws version ranges, from plausible to absurd; style says how
// likely an API without a common version is.
func negoRanges(style int) [][3]int16 {
	out := [][3]int16{}
	pIn := []float64{.15, .5, .9, 1}[rt.Choose(rt.StWork, 4)]
	pBad := []float64{0, 0, .02, .1, .5}[style]
	for i := range schema.Apis {
		a := &schema.Apis[i]
		if !rt.Chance(rt.StWork, pIn) {
			continue
		}
		lo, hi := int16(a.Min), int16(a.Max)
		switch rt.Choose(rt.StWork, 6) {
		case 0: // as the library
		case 1: // newer broker
			hi = int16(a.Max + rt.Choose(rt.StWork, 5))
			lo = int16(rt.Choose(rt.StWork, a.Max+1))
		case 2: // older broker
			hi = int16(rt.Choose(rt.StWork, a.Max+1))
		case 3: // one version
			hi = int16(rt.Choose(rt.StWork, a.Max+1))
			lo = hi
		case 4: // extremes
			hi = 32767
			if rt.Chance(rt.StWork, .5) {
				lo = -32768
			}
		case 5:
			lo = int16(-1 - rt.Choose(rt.StWork, 3))
			hi = int16(rt.Choose(rt.StWork, a.Max+3))
		}
		if rt.Chance(rt.StFault, pBad) {
			rt.Count("fault.no_common_version")
			switch rt.Choose(rt.StFault, 4) {
			case 0:
				lo, hi = int16(a.Max)+1, int16(a.Max)+1+int16(rt.Choose(rt.StFault, 3))
			case 1:
				lo, hi = 32767, 32767
			case 2:
				lo, hi = -32768, -1
			case 3:
				lo, hi = int16(a.Max)+2, int16(a.Max)+1 // an empty range
			}
		}
		out = append(out, [3]int16{int16(a.Key), lo, hi})
	}
	for rt.Chance(rt.StWork, .4) && len(out) < 90 {
		k := []int16{43, 44, 50, 67, 77, 1000, 32767, -1, -32768}[rt.Choose(rt.StWork, 9)]
		if apiByKey[k] != nil {
			continue
		}
		dup := false
		for _, r := range out {
			dup = dup || r[0] == k
		}
		if dup {
			break
		}
		out = append(out, [3]int16{k, int16(rt.Choose(rt.StWork, 4)), int16(rt.Choose(rt.StWork, 40))})
	}
	if rt.Chance(rt.StWork, .03) {
		rt.Count("feature.many_unknown_apis")
		k, n := int16(100+rt.Choose(rt.StWork, 5000)), 20+rt.Choose(rt.StWork, 1200)
		for i := 0; i < n; i++ {
			if k++; k != 1000 {
				out = append(out, [3]int16{k, 0, int16(i % 9)})
			}
		}
	}
	// any order
	if rt.Chance(rt.StWork, .5) {
		for i := len(out) - 1; i > 0; i-- {
			j := rt.Choose(rt.StWork, i+1)
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

type negoCase struct {
	h      *Handle
	ranges [][3]int16
	bad    bool // no common version
	fault  string
}

// scenNego opens several brokers, some after another and some at once, at one or
// two addresses that advertise something else every time.
func scenNego(w *World) {
	w.sizes()
	w.watchClose()
	style := rt.Choose(rt.StFault, 5)
	n := 1 + rt.Choose(rt.StWork, 4)
	var cs []*negoCase
	byG := map[*rt.G]*negoCase{}
	w.planFor = func(d *simnet.Dial) (*Plan, simnet.Outcome) {
		c := byG[d.G.Root()]
		if c == nil {
			w.fail("C11", "unexpected-dial", "a connection is opened that nobody asked for")
			return nil, simnet.Outcome{Err: simnet.ErrRefused}
		}
		p := w.clean(c.ranges)
		p.sizeClass = []float64{1}
		out := simnet.Outcome{Delay: ms, Setup: w.network}
		k := rt.Choose(rt.StFault, 40)
		switch c.fault {
		case "cut":
			rt.Count("fault.cut_in_negotiation")
			setup := out.Setup
			out.Setup = func(x *simnet.Conn) {
				setup(x)
				x.CutAt = int64(k % 14)
			}
		case "crash":
			p.onFrame = func(l *Link, f *Frame) {
				if f.nego {
					rt.Count("fault.server_close")
					l.c.ServerClose()
				}
			}
		case "truncated":
			rt.Count("fault.corrupt_body")
			p.custom = func(l *Link, f *Frame) bool {
				if !f.nego {
					return false
				}
				b := l.apiVersionsBody(int(f.ver))
				// shorter than the array: what is missing belongs to an entry or to
				// the count
				m := 6 + 6*len(p.ranges)
				l.later(l.delay(), func() { l.respond(f, b[:k%m]) })
				return true
			}
		}
		return p, out
	}
	pFault := .15
	add := func(i int) *negoCase {
		c := &negoCase{ranges: negoRanges(style)}
		for _, v := range expectVersions(c.ranges) {
			if v < 0 {
				c.bad = true
			}
		}
		if rt.Chance(rt.StFault, pFault) {
			c.fault = []string{"cut", "crash", "truncated"}[rt.Choose(rt.StFault, 3)]
		}
		addr := w.addr()
		if rt.Chance(rt.StWork, .3) {
			addr = "other:" + strconv.Itoa(9092+i)
		}
		c.h = w.start(addr, false)
		byG[c.h.g] = c
		cs = append(cs, c)
		return c
	}
	judge := func(c *negoCase) bool {
		h := c.h
		switch {
		case !h.opened:
			w.fail("C11,C07,C01", "negotiation-hangs", "connecting never returns (no common version: %v, fault %q)", c.bad, c.fault)
		case h.err == nil && c.fault != "":
			w.fail("C11,C07,C09", "negotiation-ignores-failure", "connecting succeeds although the version answer never arrived whole (%s)", c.fault)
		case h.err == nil && c.bad:
			w.fail("C11", "negotiation-succeeds", "connecting succeeds although an API has no common version: %v", c.ranges)
		case h.err != nil && c.fault == "" && !c.bad:
			w.fail("C11", "negotiation-fails", "connecting fails (%v) although all APIs have a common version: %v", h.err, c.ranges)
		case h.err != nil:
			if h.link != nil && h.link.c.Open() {
				w.fail("C15", "connection-left-open", "a failed connect leaves its connection open")
			}
			return false
		default:
			return true
		}
		return false
	}
	use := func(c *negoCase) {
		var calls []*Call
		m := 1 + rt.Choose(rt.StWork, 6)
		for i := 0; i < m && len(c.ranges) > 0; i++ {
			a := apiByKey[c.ranges[rt.Choose(rt.StWork, len(c.ranges))][0]]
			if a == nil {
				continue
			}
			x := w.newCall(c.h, a)
			w.request(x)
			calls = append(calls, x)
		}
		w.caller("caller", calls)
	}
	if n > 1 || style > 1 {
		rt.Count("nontrivial")
	}
	if rt.Chance(rt.StWork, .5) {
		for i := 0; i < n; i++ {
			add(i)
		}
		w.quiesce()
	} else {
		for i := 0; i < n; i++ {
			c := add(i)
			w.quiesce()
			if judge(c) {
				use(c) // while the next one negotiates
			}
		}
	}
	var hs []*Handle
	for _, c := range cs {
		if judge(c) {
			use(c)
			hs = append(hs, c.h)
		}
	}
	w.quiesce()
	w.evalCalls(true)
	w.finishConns(hs)
}

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	kafka "github.com/savaki/kafka"
	"vsim/rt"
	"vsim/simnet"
)

// rawKey marks the frames of calls made with Conn.Do directly.
const rawKey = int16(30000)

const ms = int64(1e6)

// Link is the broker side of one connection.
type Link struct {
	w     *World
	c     *simnet.Conn
	owner *Handle
	plan  *Plan

	frames       []*Frame
	inbuf        []byte
	garbled      string // why the outbound stream can no longer be parsed
	sentLog      []byte // everything sent to the client
	held         []*Frame
	nAns         int
	strays       int
	clientClosed bool
	malSent      bool
	wasBad       bool
	firstCorr    int32
}

// Frame is one request as received by a broker.
type Frame struct {
	link   *Link
	idx    int
	key    int16
	ver    int16
	corr   int32
	client string
	body   []byte
	req    []byte // canonical request
	step   uint64
	sentAt int64 // bytes sent to the client when the request arrived
	nego   bool
	done   bool // answered (or never to be answered)
	noResp bool
	call   *Call
	val    reflect.Value // decoded request
	resps  []respRec
}

type respRec struct {
	val  reflect.Value
	name string
	ver  int
	body []byte
}

// Call is one operation of the workload on a connection.
type Call struct {
	id     int
	h      *Handle
	api    *api
	raw    []byte // request payload of a raw call
	req    reflect.Value
	acks0  bool
	canary bool
	probe  bool

	g                 *rt.G
	start             uint64
	end               uint64
	startT            int64
	endT              int64
	done              bool
	err               error
	resp              reflect.Value
	rawResp           []byte
	snap              []byte // canonical response at return
	consumed          int64  // inbound bytes read by the library at return
	decodes           int
	decErr            error // error the caller's decode function returned
	wantDecErr        bool
	inDecode          bool
	slow              int64 // virtual time the caller's decode function takes
	decodedAfterClose bool
	frame             *Frame
}

// Handle is a broker or connection held by the workload.
type Handle struct {
	w                    *World
	name                 string
	b                    *kafka.Broker
	conn                 *kafka.Conn
	link                 *Link
	err                  error
	raw, opened          bool
	closeSeen            bool
	userClosed           bool // closed while in use
	canary               bool // no fault of the run concerns this connection
	g                    *rt.G
	closeStart, closeEnd uint64
	closers              int
	closesDone           int
	vers                 map[int16]int16 // expected negotiated version
}

// Plan is the behaviour of the broker end of a connection.
type Plan struct {
	ranges    [][3]int16 // advertised: key, min, max
	delay     int64      // largest response delay
	pHold     float64
	pDup      float64
	pStray    float64
	pBad      float64
	pMal      float64
	pNull     float64
	pSplit    float64
	sizeClass []float64
	malLeft   int
	huge      int // size of huge responses
	closeAt   int // close or cut right after this many answers (0: never)
	// custom answers a frame itself and reports whether it did
	custom  func(l *Link, f *Frame) bool
	onFrame func(l *Link, f *Frame)
	tlsOut  func(l *Link, name string) simnet.TLSOutcome
}

// World is one simulated run.
type World struct {
	later     bool  // connections are opened while others are in use
	busyUntil int64 // until when something is going to happen for certain
	prop      string
	prof      *profile
	race      bool
	links     []*Link
	calls     []*Call
	handles   []*Handle
	planFor   func(d *simnet.Dial) (*Plan, simnet.Outcome)
	nextID    uint32
	ring      int // sizes of the internal buffers of the run
	read      int
	sums      []string
}

func (w *World) fail(props, class, format string, a ...any) {
	rt.Fail(strings.Split(props, ","), class, format, a...)
}

func newWorld(p *profile, race bool) *World {
	w := &World{prop: p.prop, prof: p, race: race}
	simnet.Reset(func(d *simnet.Dial) simnet.Outcome {
		plan, out := w.planFor(d)
		if plan != nil {
			l := &Link{w: w, plan: plan}
			w.links = append(w.links, l)
			out.Server = l
		}
		return out
	})
	return w
}

// ---- the broker end

func (l *Link) Accept(c *simnet.Conn) { l.c = c; c.User = l }

func (l *Link) ClientClosed(c *simnet.Conn) { l.clientClosed = true }

func (l *Link) TLS(c *simnet.Conn, name string) simnet.TLSOutcome {
	if l.plan.tlsOut != nil {
		return l.plan.tlsOut(l, name)
	}
	return simnet.TLSOutcome{Delay: ms, Name: name}
}

func (l *Link) Data(c *simnet.Conn, b []byte) {
	if l.garbled != "" {
		return
	}
	l.inbuf = append(l.inbuf, b...)
	for len(l.inbuf) >= 4 {
		n := int(int32(binary.BigEndian.Uint32(l.inbuf)))
		if n < 10 || n > 100<<20 {
			l.garbled = fmt.Sprintf("frame length %d after %d frames", n, len(l.frames))
			return
		}
		if len(l.inbuf) < 4+n {
			return
		}
		f := l.parse(append([]byte(nil), l.inbuf[4:4+n]...))
		l.inbuf = l.inbuf[4+n:]
		if f == nil {
			return
		}
		l.frames = append(l.frames, f)
		rt.Note("broker: link %d frame %d key=%d ver=%d corr=%d", c.ID, f.idx, f.key, f.ver, f.corr)
		l.checkOutstanding(f)
		if l.plan.onFrame != nil {
			l.plan.onFrame(l, f)
		}
		if l.plan.custom != nil && l.plan.custom(l, f) {
			continue
		}
		l.answer(f)
	}
}

func (l *Link) checkOutstanding(f *Frame) {
	for _, o := range l.frames[:len(l.frames)-1] {
		if !o.done && o.corr == f.corr && !o.noResp {
			l.w.fail("C05,C01", "duplicate-correlation-id", "two requests outstanding on one connection carry correlation id %d", f.corr)
		}
	}
}

func (l *Link) parse(b []byte) *Frame {
	r := &goldReader{b: b}
	key, e1 := r.i16()
	ver, e2 := r.i16()
	corr, e3 := r.i32()
	cl, e4 := r.str()
	if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
		l.garbled = "request header does not decode"
		return nil
	}
	f := &Frame{link: l, idx: len(l.frames), key: key, ver: ver, corr: corr, client: cl, body: b[r.off:], step: rt.Step(), sentAt: l.c.SentIn}
	if key == rawKey {
		n, err := r.i32()
		if err != nil || int(n) != len(b)-r.off {
			l.garbled = "raw request frame of wrong length"
			return nil
		}
		f.req = b[r.off:]
		return f
	}
	a := apiByKey[key]
	if a == nil {
		l.garbled = fmt.Sprintf("unknown api key %d", key)
		return nil
	}
	if int(ver) < a.Min || int(ver) > a.Max {
		l.garbled = fmt.Sprintf("%s request at version %d outside %d..%d", a.Name, ver, a.Min, a.Max)
		return nil
	}
	v := reflect.New(msgType[a.Request]).Elem()
	if err := decode(r, v, a.Request, int(ver)); err != nil {
		l.garbled = fmt.Sprintf("%s request v%d does not decode: %v", a.Name, ver, err)
		return nil
	}
	if r.off != len(b) {
		l.garbled = fmt.Sprintf("%s request v%d has %d bytes too many", a.Name, ver, len(b)-r.off)
		return nil
	}
	f.req = dump(nil, v)
	f.val = v
	if key == 18 {
		f.nego = true
		for _, o := range l.frames {
			if o.nego {
				f.nego = false
			}
		}
		if l.owner != nil && l.owner.b != nil {
			f.nego = false
		}
	}
	if key == 0 {
		if acks := v.FieldByName("Acks"); acks.IsValid() && acks.Int() == 0 {
			f.noResp = true
			f.done = true
		}
	}
	return f
}

// apiVersionsBody is the ApiVersions answer with the plan's ranges.
func (l *Link) apiVersionsBody(ver int) []byte {
	b := p16(nil, 0)
	b = p32(b, int32(len(l.plan.ranges)))
	for _, r := range l.plan.ranges {
		b = p16(b, r[0])
		b = p16(b, r[1])
		b = p16(b, r[2])
	}
	if ver >= 1 {
		b = p32(b, 0)
	}
	return b
}

// answer decides what becomes of a request.
func (l *Link) answer(f *Frame) {
	if f.noResp {
		return
	}
	p := l.plan
	if f.nego {
		body := l.apiVersionsBody(int(f.ver))
		l.later(l.delay(), func() { l.respond(f, body) })
		return
	}
	if p.pHold > 0 && rt.Chance(rt.StBroker, p.pHold) {
		rt.Count("fault.held_response")
		l.held = append(l.held, f)
		return
	}
	l.later(l.delay(), func() { l.respondFull(f) })
}

func (l *Link) delay() int64 {
	if l.plan.delay == 0 {
		return 0
	}
	switch rt.Weighted(rt.StBroker, 2, 3, 1) {
	case 1:
		return int64(rt.Choose(rt.StBroker, 16)) * l.plan.delay / 16
	case 2:
		return l.plan.delay
	}
	return 0
}

func (l *Link) later(d int64, fn func()) {
	if d == 0 {
		fn()
		return
	}
	rt.After(d, fn)
}

func (l *Link) build(f *Frame) []byte {
	class := 0
	if len(l.plan.sizeClass) > 0 {
		class = rt.Weighted(rt.StBroker, l.plan.sizeClass...)
	}
	seed := rt.Bits(rt.StBroker)
	l.w.nextID++
	g := newGen(seed, l.w.nextID, class)
	if f.key == rawKey {
		b := g.bytes(g.byt)
		if class >= 4 {
			n := 5300000
			if l.plan.huge > 0 {
				n = l.plan.huge
			}
			b = make([]byte, n+int(seed%1200000))
			for i := 0; i+8 <= len(b); i += 8 {
				binary.LittleEndian.PutUint64(b[i:], g.p.Uint64())
			}
		}
		if class < 4 && seed != 0 && seed%5 == 0 {
			// a frame that ends at, or next to, the edge of some buffer
			edge := []int{l.w.ring, l.w.ring - 1, l.w.read, 4096, 65536, 1 << (5 + seed>>8%13)}[seed>>4%6]
			if class < 2 && edge > 4096 {
				edge = 256
			}
			n := edge*int(1+seed>>12%3) - int(seed>>16%14)
			if n > 0 && n < 200000 {
				b = make([]byte, n)
				for i := range b {
					b[i] = byte(g.p.Uint64())
				}
			}
		}
		if b == nil || len(b) < 4 {
			b = p32(b, int32(l.w.nextID))
		}
		return append(p32(nil, int32(len(b))), b...)
	}
	a := apiByKey[f.key]
	v := reflect.New(msgType[a.Response]).Elem()
	g.fill(v, a.Response, int(f.ver), false, 0)
	var null func() bool
	if seed != 0 && l.plan.pNull > 0 {
		np := rt.NewPRNG(rt.Mix(uint64(seed), 5))
		null = func() bool { return np.Float64() < l.plan.pNull }
	}
	body := encode(nil, v, a.Response, int(f.ver), null)
	f.resps = append(f.resps, respRec{v, a.Response, int(f.ver), encode(nil, v, a.Response, int(f.ver), nil)})
	return body
}

// respondFull answers f with generated content and whatever mischief the plan
// allows.
func (l *Link) respondFull(f *Frame) {
	p := l.plan
	if p.pStray > 0 && rt.Chance(rt.StBroker, p.pStray) {
		l.stray()
	}
	body := l.build(f)
	if p.pBad > 0 && rt.Chance(rt.StBroker, p.pBad) {
		body = l.corrupt(f, body)
	}
	if p.pMal > 0 && rt.Chance(rt.StBroker, p.pMal) {
		l.malformed(f, body)
		return
	}
	l.respond(f, body)
	if p.pDup > 0 && rt.Chance(rt.StBroker, p.pDup) {
		rt.Count("fault.duplicate_response")
		b2 := body
		if rt.Chance(rt.StBroker, 0.5) {
			b2 = l.build(f)
		}
		l.later(l.delay(), func() { l.respond(f, b2) })
	}
}

func (l *Link) respond(f *Frame, body []byte) {
	f.done = true
	l.nAns++
	b := p32(nil, int32(4+len(body)))
	b = p32(b, f.corr)
	b = append(b, body...)
	l.send(b)
	if l.plan.closeAt > 0 && l.nAns >= l.plan.closeAt && l.c.Alive() {
		rt.Count("fault.close_after_response")
		l.c.ServerClose()
	}
}

func (l *Link) send(b []byte) {
	if !l.c.Alive() {
		return
	}
	rt.Note("broker: link %d sends %d bytes at offset %d", l.c.ID, len(b), len(l.sentLog))
	l.sentLog = append(l.sentLog, b...)
	if l.plan.pSplit > 0 && rt.Chance(rt.StNet, l.plan.pSplit) {
		rt.Count("fault.segmented")
		mode := rt.Choose(rt.StNet, 3)
		for len(b) > 0 {
			k := 1
			switch mode {
			case 0:
				k = 1 + rt.Choose(rt.StNet, len(b))
			case 1:
				k = len(b) - 1
				if k < 1 {
					k = 1
				}
			case 2:
				k = 4
				if len(b) > 400 {
					k = len(b) / 2
				}
			}
			if k > len(b) {
				k = len(b)
			}
			l.c.Send(b[:k])
			b = b[k:]
			if mode == 1 {
				mode = 0
			}
		}
		return
	}
	l.c.Send(b)
}

// stray sends a response nobody asked for.
func (l *Link) stray() {
	rt.Count("fault.stray_response")
	l.strays++
	var corr int32
	switch rt.Choose(rt.StBroker, 4) {
	case 0:
		corr = 1<<30 + int32(l.strays)
	case 1:
		corr = -(1 << 29) - int32(l.strays)
	case 2:
		corr = 0
		for _, f := range l.frames {
			if f.corr >= -100 && f.corr <= 100 && f.corr <= 0 {
				corr = 1<<30 + int32(l.strays) // ids pass through zero in this run
			}
		}
		if corr == 0 && l.frames[0].corr > 1<<20 {
			corr = 1 << 29
		}
	case 3: // an id that was answered before
		corr = 1<<30 + int32(l.strays)
		var old []int32
		for _, f := range l.frames {
			if f.done && !f.noResp {
				old = append(old, f.corr)
			}
		}
		if len(old) > 0 {
			corr = old[rt.Choose(rt.StBroker, len(old))]
			for _, f := range l.frames {
				if !f.done && f.corr == corr {
					corr = 1<<30 + int32(l.strays)
				}
			}
		}
	}
	n := rt.Choose(rt.StBroker, 40)
	b := p32(nil, int32(4+n))
	b = p32(b, corr)
	for i := 0; i < n; i++ {
		b = append(b, byte(i))
	}
	l.send(b)
}

// corrupt damages a response body; the frame around it stays intact.
func (l *Link) corrupt(f *Frame, b []byte) []byte {
	rt.Count("fault.corrupt_body")
	l.wasBad = true
	b = append([]byte(nil), b...)
	if f.key != rawKey && rt.Chance(rt.StBroker, .3) {
		// one length, with or without what it counts
		a := apiByKey[f.key]
		r := &goldReader{b: b, keep: true}
		if decode(r, reflect.New(msgType[a.Response]).Elem(), a.Response, int(f.ver)) == nil && len(r.lens) > 0 {
			k := r.lens[rt.Choose(rt.StBroker, len(r.lens))]
			return badLength(b, k, rt.Choose(rt.StBroker, 2), rt.Choose(rt.StBroker, 5))
		}
	}
	n := 1 + rt.Choose(rt.StBroker, 2)
	for ; n > 0; n-- {
		k := rt.Choose(rt.StBroker, 7)
		if len(b) == 0 {
			return b
		}
		i := rt.Choose(rt.StBroker, len(b))
		switch k {
		case 0: // truncate
			b = b[:i]
		case 1: // flip a bit
			b[i] ^= 1 << rt.Choose(rt.StBroker, 8)
		case 2: // remove bytes
			m := 1 + rt.Choose(rt.StBroker, 4)
			if i+m > len(b) {
				m = len(b) - i
			}
			b = append(b[:i:i], b[i+m:]...)
		case 3: // insert bytes
			m := 1 + rt.Choose(rt.StBroker, 4)
			ins := make([]byte, m)
			for j := range ins {
				ins[j] = byte(rt.Choose(rt.StBroker, 256))
			}
			b = append(b[:i:i], append(ins, b[i:]...)...)
		case 4, 5: // overwrite a length or count with an extreme value
			if len(b) < 4 {
				b[i] = 0xff
				break
			}
			if i > len(b)-4 {
				i = len(b) - 4
			}
			v := []uint32{0xffffffff, 0x80000000, 0x7fffffff, 0xfffffffe, 0x00ffffff, 0x10000000, 0x000fffff, 0x40000001}[rt.Choose(rt.StBroker, 8)]
			if k == 4 {
				// aim at four zero-high bytes, which are likely a count
				for j := i; j < len(b)-4; j++ {
					if b[j] == 0 && b[j+1] == 0 {
						i = j
						break
					}
				}
			}
			binary.BigEndian.PutUint32(b[i:], v)
		case 6: // overwrite a 16 bit length
			if len(b) < 2 {
				b[i] = 0x80
				break
			}
			if i > len(b)-2 {
				i = len(b) - 2
			}
			v := []uint16{0xffff, 0x8000, 0x7fff, 0xfffe, 0x00ff, 0xff00}[rt.Choose(rt.StBroker, 6)]
			binary.BigEndian.PutUint16(b[i:], v)
		}
	}
	return b
}

// malformed sends something that is not a response frame.
func (l *Link) malformed(f *Frame, body []byte) {
	rt.Count("fault.malformed_frame")
	l.malSent = true
	var b []byte
	switch rt.Choose(rt.StBroker, 7) {
	case 0: // huge claim
		b = p32(nil, []int32{0x7fffffff, 0x40000000, 0x10000000, 0x0fffffff}[rt.Choose(rt.StBroker, 4)])
		b = p32(b, f.corr)
		b = append(b, body...)
	case 1: // negative
		b = p32(nil, []int32{-1, -2147483648, -2, -5, -100000}[rt.Choose(rt.StBroker, 5)])
		b = p32(b, f.corr)
		b = append(b, body...)
	case 2: // too small for a header
		n := rt.Choose(rt.StBroker, 4)
		b = p32(nil, int32(n))
		b = append(b, make([]byte, n)...)
		if rt.Chance(rt.StBroker, 0.5) {
			b = append(b, append(p32(p32(nil, int32(4+len(body))), f.corr), body...)...)
			f.done = true
		}
	case 3: // garbage
		n := 1 + rt.Choose(rt.StBroker, 60)
		seed := rt.Bits(rt.StBroker)
		p := rt.NewPRNG(uint64(seed))
		for i := 0; i < n; i++ {
			b = append(b, byte(p.Uint64()))
		}
	case 4: // length larger than the content
		b = p32(nil, int32(4+len(body)+1+rt.Choose(rt.StBroker, 100000)))
		b = p32(b, f.corr)
		b = append(b, body...)
	case 5: // length smaller than the content
		n := rt.Choose(rt.StBroker, 4+len(body))
		b = p32(nil, int32(n))
		b = p32(b, f.corr)
		b = append(b, body...)
	case 6: // claim a little over any fixed buffer
		b = p32(nil, int32(2000001+rt.Choose(rt.StBroker, 4000000)))
		b = p32(b, f.corr)
		b = append(b, body...)
	}
	l.send(b)
	switch rt.Choose(rt.StBroker, 3) {
	case 0:
		l.c.ServerClose()
	case 1:
		rt.After(50*ms, func() {
			rt.Count("fault.reset")
			l.c.Reset()
		})
	}
}

// heal answers what was held back.
func (l *Link) heal() {
	l.plan.pHold, l.plan.pBad, l.plan.pMal, l.plan.pStray, l.plan.pDup = 0, 0, 0, 0, 0
	h := l.held
	l.held = nil
	l.c.Unstall()
	l.c.UnstallOut()
	l.c.Window = 0
	for _, f := range h {
		l.respondFull(f)
	}
}

// ---- the client's view of the inbound stream

type inFrame struct {
	start, end int64
	corr       int32
	body       []byte
	afterMal   bool
}

// inFrames parses what was sent to the client, complete or not; mal is the
// offset of the first frame-level malformation, or a value beyond the stream.
func (l *Link) inFrames() (out []inFrame, mal int64) {
	b := l.sentLog
	off := int64(0)
	mal = 1 << 62
	note := func() {
		if mal == 1<<62 {
			mal = off
		}
	}
	for int64(len(b))-off >= 4 {
		n := int64(int32(binary.BigEndian.Uint32(b[off:])))
		if n < 0 || n > 1<<28 {
			note()
			return
		}
		if n < 4 {
			note()
			off += 4 + n
			continue
		}
		if off+4+n > int64(len(b)) {
			note()
			return
		}
		out = append(out, inFrame{off, off + 4 + n, int32(binary.BigEndian.Uint32(b[off+4:])), b[off+8 : off+4+n], mal != 1<<62})
		off += 4 + n
	}
	if off < int64(len(b)) {
		note()
	}
	return
}

type verdict struct {
	ok    bool // decodes
	loose bool // trailing bytes or unsettled encodings
	val   []byte
}

// judge decodes a response body as the answer to f.
func judge(f *Frame, body []byte) verdict {
	r := &goldReader{b: body}
	if f.key == rawKey {
		n, err := r.i32()
		if err != nil {
			return verdict{}
		}
		if n == -1 {
			return verdict{ok: true, loose: r.off != len(body)}
		}
		p, err := r.take(int(n))
		if err != nil {
			return verdict{}
		}
		return verdict{ok: true, loose: r.off != len(body), val: p}
	}
	a := apiByKey[f.key]
	v := reflect.New(msgType[a.Response]).Elem()
	if err := decode(r, v, a.Response, int(f.ver)); err != nil {
		return verdict{}
	}
	return verdict{ok: true, loose: r.loose || r.off != len(body), val: dump(nil, v)}
}

// ---- client side

func (w *World) linkOf(g *rt.G, from int) *Link {
	for i := len(simnet.N.Conns) - 1; i >= from; i-- {
		c := simnet.N.Conns[i]
		if c.Dial.G.Root() == g {
			l, _ := c.User.(*Link)
			return l
		}
	}
	return nil
}

// start opens a broker (or a raw connection) on a goroutine of its own.
func (w *World) start(addr string, raw bool, opts ...kafka.Option) *Handle {
	return w.startThen(addr, raw, nil, opts...)
}

func (w *World) startThen(addr string, raw bool, then func(h *Handle), opts ...kafka.Option) *Handle {
	h := &Handle{w: w, name: addr, raw: raw}
	w.handles = append(w.handles, h)
	h.g = rt.GoHarness("open", func() {
		from := len(simnet.N.Conns)
		if raw {
			h.conn, h.err = kafka.Connect(addr, opts...)
		} else {
			h.b, h.err = kafka.NewBroker(addr, opts...)
		}
		h.link = w.linkOf(rt.Cur(), from)
		if h.err != nil {
			h.b, h.conn = nil, nil
		}
		if h.link != nil && h.err == nil {
			h.link.owner = h
			if !raw {
				h.vers = expectVersions(h.link.plan.ranges)
			}
		}
		h.opened = true
		if then != nil {
			then(h)
		}
	})
	return h
}

// expectVersions computes the versions that must be negotiated; a key mapped to
// -1 has no common version.
func expectVersions(ranges [][3]int16) map[int16]int16 {
	m := map[int16]int16{}
	for _, r := range ranges {
		a := apiByKey[r[0]]
		if a == nil {
			continue
		}
		lo, hi := r[1], r[2]
		if int(lo) < a.Min {
			lo = int16(a.Min)
		}
		if int(hi) > a.Max {
			hi = int16(a.Max)
		}
		if lo > hi {
			m[r[0]] = -1
		} else {
			m[r[0]] = hi
		}
	}
	return m
}

func (h *Handle) close() {
	if h.closeStart == 0 {
		h.closeStart = rt.Step()
	}
	h.closers++
	rt.Note("close %s", h.name)
	if h.b != nil {
		h.b.Close()
	} else {
		h.conn.Close()
	}
	if h.closeEnd == 0 {
		h.closeEnd = rt.Step()
	}
	h.closesDone++
	rt.Note("close %s returned", h.name)
	if h.link != nil && h.link.c.Open() {
		h.w.fail("C08,C15", "close-leaves-socket", "Close of %s returned while its socket is still open", h.name)
	}
	for _, c := range h.w.calls {
		if c.h == h && c.inDecode {
			h.w.fail("C08", "close-during-decode", "Close returned while a response is still being decoded")
		}
	}
}

// watchClose looks, once nothing else can run, at what a Close that returned has
// left behind.
func (w *World) watchClose() {
	rt.AtIdle(func() {
		for _, h := range w.handles {
			if h.closeEnd == 0 || h.closeSeen || h.g == nil {
				continue
			}
			h.closeSeen = true
			for _, d := range simnet.N.Dials {
				if d.Pending && d.G.Root() == h.g {
					return
				}
			}
			for _, g := range rt.LiveLib() {
				if g.Root() == h.g {
					w.fail("C08", "background-work-after-close", "Close of %s returned while a goroutine of the connection goes on (%s)", h.name, g.Reason())
					return
				}
			}
		}
	})
}

func (w *World) newCall(h *Handle, a *api) *Call {
	c := &Call{id: len(w.calls) + 1, h: h, api: a}
	w.calls = append(w.calls, c)
	return c
}

// do performs the call on the calling goroutine.
func (c *Call) do() {
	c.g = rt.Cur()
	c.start, c.startT = rt.Step(), rt.Now()
	name := "raw"
	if c.api != nil {
		name = c.api.Name
	}
	rt.Note("call %d %s on %s starts", c.id, name, c.h.name)
	if c.api == nil {
		c.doRaw()
	} else {
		m := reflect.ValueOf(c.h.b).MethodByName(c.api.Name)
		out := m.Call([]reflect.Value{c.req})
		c.resp = out[0]
		if e, ok := out[1].Interface().(error); ok {
			c.err = e
		}
	}
	c.done = true
	c.end, c.endT = rt.Step(), rt.Now()
	if c.h.link != nil {
		c.consumed = c.h.link.c.Consumed
	}
	if c.err == nil {
		c.snap = c.content()
	}
	rt.Note("call %d returns err=%v", c.id, c.err)
	rt.MixHash(uint64(c.id)<<1 | b2u(c.err != nil))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Call) content() []byte {
	if c.api == nil {
		return append([]byte(nil), c.rawResp...)
	}
	return dump(nil, c.resp)
}

// counter finds the correlation counter of a connection: an integer field (or
// an atomic integer) named id or something like it. nil if there is none.
func (h *Handle) counter() *counter {
	var p reflect.Value
	if h.conn != nil {
		p = reflect.ValueOf(h.conn)
	} else {
		bv := reflect.ValueOf(h.b).Elem()
		for i := 0; i < bv.NumField(); i++ {
			if bv.Field(i).Type() == reflect.TypeOf((*kafka.Conn)(nil)) {
				p = bv.Field(i)
			}
		}
	}
	if !p.IsValid() || p.IsNil() {
		return nil
	}
	for _, name := range []string{"id", "nextID", "nextId", "correlationID", "correlationId"} {
		f := p.Elem().FieldByName(name)
		if !f.IsValid() {
			continue
		}
		if f.Kind() == reflect.Struct { // an atomic integer
			f = f.FieldByName("v")
		}
		switch f.Kind() {
		case reflect.Int32, reflect.Uint32:
			if n := *(*int32)(unsafe.Pointer(f.UnsafeAddr())); n < 0 || n > 4 {
				return nil // not a count of the requests so far
			}
			return &counter{p32: (*int32)(unsafe.Pointer(f.UnsafeAddr()))}
		case reflect.Int64, reflect.Uint64, reflect.Int:
			if n := *(*int64)(unsafe.Pointer(f.UnsafeAddr())); n < 0 || n > 4 {
				return nil
			}
			return &counter{p64: (*int64)(unsafe.Pointer(f.UnsafeAddr()))}
		}
	}
	return nil
}

type counter struct {
	p32 *int32
	p64 *int64
}

func (c *counter) set(v int32) {
	if c.p32 != nil {
		*c.p32 = v
	} else {
		*c.p64 = int64(uint32(v))
	}
}

func (c *counter) add(n int32) {
	if c.p32 != nil {
		*c.p32 += n
	} else {
		*c.p64 += int64(n)
	}
}

// knob sets a tunable of the verif build.
func knob(name string, v int) bool {
	if p := kafka.VsimKnob(name); p != nil {
		*p = v
		return true
	}
	return false
}

func sortFrames(f []*Frame) { sort.Slice(f, func(i, j int) bool { return f[i].idx < f[j].idx }) }

var _ = bytes.Equal

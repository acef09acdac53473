package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"reflect"

	"github.com/savaki/kafka/message"
	"vsim/rt"
)

// candidate is a response in the inbound stream that carries a request's id.
type candidate struct {
	inFrame
	verdict
}

type linkView struct {
	l     *Link
	mal   int64
	cands map[*Frame][]candidate
	group map[string][]*Frame
}

func groupKey(key int16, req []byte) string { return fmt.Sprintf("%d:", key) + string(req) }

func (w *World) view(l *Link) *linkView {
	v := &linkView{l: l, cands: map[*Frame][]candidate{}, group: map[string][]*Frame{}}
	in, mal := l.inFrames()
	v.mal = mal
	for _, f := range l.frames {
		for _, x := range in {
			if x.corr == f.corr {
				v.cands[f] = append(v.cands[f], candidate{x, judge(f, x.body)})
			}
		}
		if !f.nego {
			k := groupKey(f.key, f.req)
			v.group[k] = append(v.group[k], f)
		}
	}
	return v
}

// keyOf is the group in which the frame of a call must be found.
func (c *Call) keyOf() string {
	if c.api == nil {
		return groupKey(rawKey, c.raw)
	}
	key := int16(c.api.Key)
	ver := c.h.vers[key]
	for _, f := range c.h.link.frames {
		if f.key == key && !f.nego {
			ver = f.ver
		}
	}
	return groupKey(key, dump(nil, masked(c.req, c.api.Request, int(ver))))
}

// problem describes why a call's outcome is not acceptable.
type problem struct {
	props, class, msg string
}

// first returns the first candidate sent after the request had arrived, and
// whether an earlier one makes the matter ambiguous.
func (v *linkView) first(f *Frame) (*candidate, bool) {
	var fc *candidate
	amb := false
	for i := range v.cands[f] {
		c := &v.cands[f][i]
		if c.start < f.sentAt {
			amb = true
			continue
		}
		if fc == nil {
			fc = c
		}
	}
	return fc, amb
}

// check judges the outcome of c under the assumption that f (which may be nil)
// is its frame. nil means acceptable.
func (w *World) check(v *linkView, c *Call, f *Frame, healed bool) *problem {
	l := v.l
	h := c.h
	closedBy := h.closeStart != 0 && (!c.done || h.closeStart <= c.end)
	lost := l.c.ErrAt != 0
	lostBy := lost && (!c.done || l.c.ErrAt <= c.end+1)
	dead := l.c.Lost() || l.c.WriteFailed
	what := fmt.Sprintf("call %d (%s)", c.id, c.name())
	extra := ""
	if c.canary {
		extra = ",C20"
	}
	if !c.done {
		if c.g == nil {
			return nil
		}
		switch {
		case h.closeStart != 0:
			return &problem{"C08" + extra, "call-hangs-after-close", what + " never returns although the connection was closed"}
		case dead:
			return &problem{"C07" + extra, "call-hangs-after-loss", what + " never returns although the connection is lost"}
		}
		if v.mal < 1<<62 && l.c.Arrived() > v.mal {
			return nil
		}
		if c.inDecode {
			return nil
		}
		if f != nil && f.noResp {
			return &problem{"C19,C01" + extra, "unacknowledged-produce-waits", what + " waits although no acknowledgement was asked for"}
		}
		if f != nil {
			fc, amb := v.first(f)
			if fc != nil && !amb && !l.c.Stalled && fc.end <= l.c.Arrived() {
				p := "C01,C02"
				if !fc.ok {
					p += ",C09"
				}
				return &problem{p + extra, "response-never-delivered", what + " never returns although its response has arrived"}
			}
		}
		if f == nil && !l.c.StallOut && l.c.Window == 0 && l.c.Alive() {
			p := "C01"
			if c.acks0 {
				p += ",C19"
			}
			return &problem{p + extra, "request-never-sent", what + " hangs on a healthy connection without sending its request"}
		}
		if healed {
			return &problem{"C01" + extra, "call-stuck", what + " is stuck on a healthy connection"}
		}
		return nil
	}
	if c.err == nil {
		if f == nil {
			p := "C05,C01"
			if l.c.WriteFailed || dead {
				p += ",C07"
			}
			if c.acks0 && (dead || h.closeStart != 0 || !l.c.Open() || !l.c.Alive()) {
				return nil // written, but lost on the way
			}
			if c.acks0 {
				p += ",C19"
			}
			return &problem{p + extra, "success-without-request", what + " succeeded but its request never reached the broker"}
		}
		if f.noResp {
			z := reflect.New(msgType[c.api.Response]).Elem()
			if !bytes.Equal(c.snap, dump(nil, z)) {
				return &problem{"C19,C01" + extra, "invented-response", what + " asked for no acknowledgement but returned content"}
			}
			return nil
		}
		if c.wantDecErr && c.decodes > 0 {
			return &problem{"C01" + extra, "decode-error-lost", what + " succeeded although its decode function failed"}
		}
		seen := false
		anyOK := false
		for _, x := range v.cands[f] {
			if x.end > c.consumed {
				continue
			}
			seen = true
			if x.ok {
				anyOK = true
				if x.loose || bytes.Equal(x.val, c.snap) {
					return nil
				}
			}
		}
		if !seen {
			p := "C07,C01,C02,C09"
			if c.api != nil && c.api.Key == 0 {
				p += ",C19"
			}
			for _, o := range l.frames {
				if o != f && o.key == f.key {
					for _, x := range v.cands[o] {
						if x.ok && bytes.Equal(x.val, c.snap) {
							p += ",C10"
						}
					}
				}
			}
			return &problem{p + extra, "success-without-response", what + " succeeded before a complete response to it was read"}
		}
		if !anyOK {
			return &problem{"C09,C01" + extra, "invented-content", what + " succeeded although its response does not decode"}
		}
		for _, o := range l.frames {
			if o == f {
				continue
			}
			for _, x := range v.cands[o] {
				if x.ok && len(x.val) > 0 && bytes.Equal(x.val, c.snap) {
					return &problem{"C01" + extra, "wrong-response", what + " returned the response to another request"}
				}
			}
		}
		if extra == "" && w.foreign(l, c.snap) {
			extra = ",C20"
		}
		return &problem{"C06,C02,C01" + extra, "altered-response", what + " returned content that differs from what the broker sent"}
	}
	// the call failed
	if c.wantDecErr && c.decodes > 0 && c.err == errDecode {
		return nil
	}
	if f != nil && !f.noResp {
		fc, amb := v.first(f)
		if fc != nil && !amb && fc.ok && !fc.loose && fc.start < v.mal && fc.end <= l.c.Consumed && !closedBy && !c.wantDecErr {
			p := "C01,C02,C06"
			class := "error-for-good-response"
			if lost {
				p = "C07"
				class = "response-lost-with-connection"
			} else if l.corrupted() {
				p += ",C09"
			}
			return &problem{p + extra, class, fmt.Sprintf("%s failed (%v) although its response was received in full", what, c.err)}
		}
		for _, x := range v.cands[f] {
			if x.end <= c.consumed && (!x.ok || x.loose) {
				return nil
			}
		}
	}
	if closedBy || lostBy || v.mal < c.consumed {
		return nil
	}
	p := "C01"
	if f != nil && f.noResp || c.acks0 {
		p += ",C19"
	}
	if f != nil {
		if fc, amb := v.first(f); fc != nil && !amb && fc.ok && !fc.loose && !c.wantDecErr {
			p += ",C02,C06"
		}
	}
	if l.corrupted() {
		p += ",C09"
	}
	return &problem{p + extra, "error-without-cause", fmt.Sprintf("%s failed (%v) on a healthy connection", what, c.err)}
}

func (c *Call) name() string {
	if c.api == nil {
		return "raw"
	}
	return c.api.Name
}

// blame adds the property about undisturbed connections.
func (l *Link) blame() string {
	if l.owner != nil && l.owner.canary {
		return ",C20"
	}
	return ""
}

// foreign reports whether b holds bytes that were sent on another connection only.
func (w *World) foreign(l *Link, b []byte) bool {
	const n = 8
	for _, o := range w.links {
		if o == l || len(o.sentLog) < n {
			continue
		}
		at := map[string]bool{}
		for i := 0; i+n <= len(o.sentLog); i++ {
			at[string(o.sentLog[i:i+n])] = true
		}
		for i := 0; i+n <= len(b); i++ {
			if at[string(b[i:i+n])] && !bytes.Contains(l.sentLog, b[i:i+n]) {
				return true
			}
		}
	}
	return false
}

// corrupted reports whether the broker sent anything but clean answers.
func (l *Link) corrupted() bool {
	return l.strays > 0 || l.malSent || l.plan.pBad > 0 || l.plan.pMal > 0 || l.wasBad
}

// evalCalls judges every call of the run so far. healed says that all faults
// have ended and all requests were answered.
func (w *World) evalCalls(healed bool) {
	byLink := map[*Link][]*Call{}
	for _, c := range w.calls {
		if c.h.link == nil {
			continue
		}
		byLink[c.h.link] = append(byLink[c.h.link], c)
	}
	for _, l := range w.links {
		if l.c == nil {
			continue
		}
		calls := byLink[l]
		if len(calls) == 0 && (l.owner == nil) {
			continue
		}
		v := w.view(l)
		w.evalStream(v)
		used := map[string]bool{}
		groups := map[string][]*Call{}
		var order []string
		for _, c := range calls {
			if c.g == nil {
				continue
			}
			k := c.keyOf()
			if groups[k] == nil {
				order = append(order, k)
			}
			groups[k] = append(groups[k], c)
			used[k] = true
		}
		for _, f := range l.frames {
			if f.nego {
				continue
			}
			k := groupKey(f.key, f.req)
			if !used[k] {
				p := "C05"
				if f.key != rawKey {
					p = "C06,C05"
				}
				w.fail(p+l.blame(), "unknown-request", "the broker received a %s request that matches no call", f.apiName())
				used[k] = true
			}
		}
		for _, k := range order {
			w.evalGroup(v, groups[k], v.group[k], healed)
		}
	}
}

func (f *Frame) apiName() string {
	if f.key == rawKey {
		return "raw"
	}
	return apiByKey[f.key].Name
}

func (w *World) evalGroup(v *linkView, calls []*Call, frames []*Frame, healed bool) {
	report := func(p *problem) { w.fail(p.props, p.class, "%s", p.msg) }
	if len(frames) > len(calls) {
		w.fail("C05"+v.l.blame(), "request-sent-twice", "%d identical calls of %s put %d frames on the wire", len(calls), calls[0].name(), len(frames))
		return
	}
	if len(calls) == 1 {
		var f *Frame
		if len(frames) == 1 {
			f = frames[0]
			f.call = calls[0]
			calls[0].frame = f
		}
		if p := w.check(v, calls[0], f, healed); p != nil {
			report(p)
		}
		return
	}
	// identical requests: find an assignment of frames to calls under which
	// every outcome is acceptable
	if len(calls) > 7 {
		return
	}
	var best *problem
	usedF := make([]bool, len(frames))
	var try func(i, left int) bool
	try = func(i, left int) bool {
		if i == len(calls) {
			return left == 0
		}
		if left < len(calls)-i {
			if p := w.check(v, calls[i], nil, healed); p == nil {
				if try(i+1, left) {
					return true
				}
			} else if best == nil {
				best = p
			}
		}
		for j, f := range frames {
			if usedF[j] {
				continue
			}
			p := w.check(v, calls[i], f, healed)
			if p != nil {
				best = p
				continue
			}
			usedF[j] = true
			if try(i+1, left-1) {
				return true
			}
			usedF[j] = false
		}
		return false
	}
	if !try(0, len(frames)) && best != nil {
		report(best)
	}
}

// evalStream checks the request stream of one connection.
func (w *World) evalStream(v *linkView) {
	l := v.l
	if l.garbled != "" {
		w.fail("C05,C06"+l.blame(), "garbled-request-stream", "the broker cannot parse the request stream: %s", l.garbled)
		return
	}
	if l.c.BytesAfterFailure > 0 {
		w.fail("C05", "bytes-after-write-failure", "%d bytes were written after a failed write", l.c.BytesAfterFailure)
	}
	if len(l.inbuf) > 0 && l.c.ErrAt == 0 && l.c.Open() && !l.c.StallOut && l.c.Window == 0 && !l.c.Dead() && !l.c.InWrite() {
		w.fail("C05"+l.blame(), "partial-request", "a request of %d bytes stays unfinished on a healthy connection", len(l.inbuf))
	}
	if l.owner != nil && l.owner.vers != nil {
		for _, f := range l.frames {
			if f.nego || f.key == rawKey {
				continue
			}
			if want, ok := l.owner.vers[f.key]; ok && want != f.ver {
				w.fail("C11,C06", "wrong-version", "%s request uses version %d, the highest common version is %d", f.apiName(), f.ver, want)
			}
		}
	}
}

// evalSnapshots checks that no returned response has changed since.
func (w *World) evalSnapshots() {
	for _, c := range w.calls {
		if !c.done || c.err != nil {
			continue
		}
		if !bytes.Equal(c.content(), c.snap) {
			w.fail("C10", "response-changed", "the response returned by call %d (%s) changed after the call had returned", c.id, c.name())
		}
		if c.decodes > 1 {
			w.fail("C01", "decoded-twice", "the decode function of call %d ran %d times", c.id, c.decodes)
		}
	}
	for _, c := range w.calls {
		if c.decodedAfterClose {
			w.fail("C08", "decode-after-close", "a response was decoded after Close had returned")
		}
	}
}

// evalClose checks that every Close returned.
func (w *World) evalClose() {
	for _, h := range w.handles {
		if h.closers > h.closesDone {
			w.fail("C08", "close-hangs", "Close of %s does not return", h.name)
		}
	}
}

// evalLeaks checks, after everything was closed, that nothing is left over.
func (w *World) evalLeaks(props string) {
	for _, l := range w.links {
		if l.c != nil && l.c.Open() {
			w.fail(props, "socket-leak", "a connection to %s stays open after everything was closed", l.c.Addr)
		}
	}
	if gs := rt.LiveLib(); len(gs) > 0 {
		w.fail(props, "goroutine-leak", "%d library goroutines keep running after everything was closed (%s)", len(gs), gs[0].Reason())
	}
}

// evalCodec runs the library's own broker-side codec over the traffic of the
// run: decoding requests and encoding responses must follow the same layout.
func (w *World) evalCodec() {
	type dec interface {
		Decode(d *message.Decoder, v int16) error
	}
	type enc interface {
		Encode(e *message.Encoder, v int16)
		Size(v int16) int32
	}
	for _, l := range w.links {
		for _, f := range l.frames {
			if f.key == rawKey || l.garbled != "" {
				continue
			}
			a := apiByKey[f.key]
			pv := reflect.New(msgType[a.Request])
			if d, ok := pv.Interface().(dec); ok {
				err := d.Decode(message.NewDecoder(f.body, len(f.body)), f.ver)
				if err != nil || !bytes.Equal(dump(nil, pv.Elem()), f.req) {
					w.fail("C06", "broker-side-decode", "decoding a %s request v%d on the broker side gives another value (err %v)", a.Name, f.ver, err)
				}
			}
			for _, r := range f.resps {
				e, ok := r.val.Addr().Interface().(enc)
				if !ok {
					if e, ok = r.val.Interface().(enc); !ok {
						continue
					}
				}
				var b bytes.Buffer
				en := message.NewEncoder(&b)
				e.Encode(en, int16(r.ver))
				if err := en.Flush(); err != nil || !sameLayout(b.Bytes(), r) {
					w.fail("C06", "broker-side-encode", "encoding a %s v%d on the broker side gives another layout", r.name, r.ver)
				}
				if int(e.Size(int16(r.ver))) != b.Len() {
					w.fail("C06,C05", "size-mismatch", "Size of %s v%d is %d but its encoding has %d bytes", r.name, r.ver, e.Size(int16(r.ver)), b.Len())
				}
			}
		}
	}
}

// evalHostile hands damaged copies of the run's responses and requests to the
// library's decoders: what the protocol description rejects must be rejected.
func (w *World) evalHostile() {
	w.evalPrims()
	type dec interface {
		Decode(d *message.Decoder, v int16) error
	}
	try := func(name string, t reflect.Type, ver int, b []byte) {
		pv := reflect.New(t)
		d, ok := pv.Interface().(dec)
		if !ok {
			return
		}
		r := &goldReader{b: b}
		gv := reflect.New(t).Elem()
		gerr := decode(r, gv, name, ver)
		// a buffer of its own, with other content behind it
		buf := append(append(make([]byte, 0, len(b)+40), b...), bytes.Repeat([]byte{0, 0, 0, 1}, 10)...)
		err := d.Decode(message.NewDecoder(buf, len(b)), int16(ver))
		rt.Count("reach.damaged_decodes")
		switch {
		case err == nil && gerr != nil:
			w.fail("C09", "accepts-malformed", "decoding a damaged %s v%d of %d bytes succeeds (%v expected)", name, ver, len(b), gerr)
		case err == nil && !r.loose && !bytes.Equal(dump(nil, pv.Elem()), dump(nil, gv)):
			w.fail("C09", "invented-content", "decoding a damaged %s v%d invents content", name, ver)
		}
	}
	damage := func(name string, t reflect.Type, ver int, b []byte) {
		if len(b) == 0 {
			return
		}
		p := rt.NewPRNG(uint64(rt.Bits(rt.StFault)))
		if len(b) <= 48 {
			for i := range b {
				try(name, t, ver, b[:i])
			}
		} else {
			for i := 0; i < 24; i++ {
				try(name, t, ver, b[:p.Uint64n(uint64(len(b)))])
			}
			for i := 1; i <= 16; i++ {
				try(name, t, ver, b[:len(b)-i])
			}
		}
		for i := 0; i < 12; i++ {
			c := append([]byte(nil), b...)
			j := int(p.Uint64n(uint64(len(c))))
			switch p.Uint64n(4) {
			case 0:
				c[j] ^= 1 << p.Uint64n(8)
			case 1:
				c[j] = 0xff
			case 2:
				if j+4 <= len(c) {
					copy(c[j:], [][]byte{{0xff, 0xff, 0xff, 0xff}, {0x7f, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0, 0, 0, 0}, {0, 0, 0x20, 0}}[p.Uint64n(5)])
				}
			case 3:
				if j+2 <= len(c) {
					copy(c[j:], [][]byte{{0xff, 0xff}, {0x7f, 0xff}, {0x80, 0}, {0, 0}, {0xff, 0xfe}}[p.Uint64n(5)])
				}
			}
			try(name, t, ver, c)
		}
		r := &goldReader{b: b, keep: true}
		if decode(r, reflect.New(t).Elem(), name, ver) == nil && len(r.lens) > 0 {
			for i := 0; i < 12; i++ {
				k := r.lens[p.Uint64n(uint64(len(r.lens)))]
				try(name, t, ver, badLength(b, k, int(p.Uint64n(2)), int(p.Uint64n(5))))
			}
		}
	}
	n := 0
	for _, l := range w.links {
		for _, f := range l.frames {
			if f.key == rawKey || l.garbled != "" || n > 12 {
				continue
			}
			n++
			a := apiByKey[f.key]
			if len(f.body) < 4000 {
				damage(a.Request, msgType[a.Request], int(f.ver), f.body)
			}
			for _, r := range f.resps {
				if len(r.body) < 4000 {
					damage(r.name, r.val.Type(), r.ver, r.body)
				}
			}
		}
	}
}

// sameLayout compares an encoding with the golden one up to null versus empty.
func sameLayout(b []byte, r respRec) bool {
	if bytes.Equal(b, r.body) {
		return true
	}
	g := &goldReader{b: b}
	v := reflect.New(r.val.Type()).Elem()
	if err := decode(g, v, r.name, r.ver); err != nil || g.off != len(b) {
		return false
	}
	return bytes.Equal(dump(nil, v), dump(nil, r.val))
}

// refPrims is an independent reading of the decoder's primitives. A nil error
// and a value, or an error.
type refPrims struct {
	b   []byte
	off int
}

var errRef = errors.New("malformed")

func (r *refPrims) take(n int64) ([]byte, error) {
	if n < 0 || n > int64(len(r.b)-r.off) {
		return nil, errRef
	}
	v := r.b[r.off : r.off+int(n)]
	r.off += int(n)
	return v, nil
}

// num reads a big-endian number of n bytes.
func (r *refPrims) num(n int64) (int64, error) {
	b, err := r.take(n)
	if err != nil {
		return 0, err
	}
	var v int64
	for _, x := range b {
		v = v<<8 | int64(x)
	}
	s := uint(64 - 8*n)
	return v << s >> s, nil
}

func (r *refPrims) varint() (int64, error) {
	v, n := binary.Varint(r.b[r.off:])
	if n <= 0 {
		return 0, errRef
	}
	r.off += n
	return v, nil
}

// sized reads what is left behind a length.
func (r *refPrims) sized(n int64, err error) (string, error) {
	if err != nil || n == -1 {
		return "", err
	}
	b, err := r.take(n)
	return string(b), err
}

// array reads n elements.
func (r *refPrims) array(elem func() (string, error)) (string, error) {
	n, err := r.num(4)
	if err != nil || n == -1 {
		return "[]", err
	}
	if n < 0 || n > int64(len(r.b)-r.off) {
		return "", errRef
	}
	out := "["
	for i := int64(0); i < n; i++ {
		v, err := elem()
		if err != nil {
			return "", err
		}
		out += v + ","
	}
	return out + "]", nil
}

// evalPrims reads damaged data with the decoder's primitives.
func (w *World) evalPrims() {
	p := rt.NewPRNG(uint64(rt.Bits(rt.StFault)))
	pick := func(n int) int { return int(p.Uint64n(uint64(n))) }
	for round := 0; round < 6; round++ {
		var ops []int
		var b []byte
		str := func() string {
			s := make([]byte, pick(9))
			for i := range s {
				s[i] = byte(p.Uint64())
			}
			return string(s)
		}
		for i := 1 + pick(8); i > 0; i-- {
			op := pick(15)
			ops = append(ops, op)
			switch v := int64(p.Uint64()); op {
			case 0:
				b = append(b, byte(pick(3)))
			case 1:
				b = append(b, byte(v))
			case 2:
				b = p16(b, int16(v))
			case 3:
				b = p32(b, int32(v))
			case 4:
				b = p64(b, v)
			case 5, 6:
				s := str()
				b = append(p16(b, int16(len(s))), s...)
			case 7:
				s := str()
				b = append(p32(b, int32(len(s))), s...)
			case 8:
				n := pick(4)
				b = p32(b, int32(n))
				for ; n > 0; n-- {
					b = p32(b, int32(v))
				}
			case 9:
				n := pick(4)
				b = p32(b, int32(n))
				for ; n > 0; n-- {
					b = p64(b, v)
				}
			case 10:
				n := pick(4)
				b = p32(b, int32(n))
				for ; n > 0; n-- {
					s := str()
					b = append(p16(b, int16(len(s))), s...)
				}
			case 11:
				b = binary.AppendVarint(b, v>>uint(pick(64)))
			case 12, 13:
				b = varStr(b, str())
			case 14:
				b = p32(b, int32(pick(6)))
			}
		}
		for i := pick(4); i > 0 && len(b) > 0; i-- {
			j := pick(len(b))
			switch pick(5) {
			case 0:
				b = b[:j]
			case 1:
				b[j] = byte(p.Uint64())
			case 2:
				b[j] = 0xff
			case 3:
				copy(b[j:], []byte{0xff, 0xff, 0xff, byte(0xfe + pick(2))})
			case 4:
				copy(b[j:], []byte{0x80, 0, 0, 0}[pick(3):])
			}
		}
		buf := append(append(make([]byte, 0, len(b)+40), b...), bytes.Repeat([]byte{0, 0, 0, 1}, 10)...)
		d := message.NewDecoder(buf, len(b))
		r := &refPrims{b: b}
		f := fmt.Sprint
		for i, op := range ops {
			var name, got, want string
			var gerr, werr error
			num := func(n int64) { var x int64; x, werr = r.num(n); want = f(x) }
			switch op {
			case 0:
				var v bool
				v, gerr = d.Bool()
				var x []byte
				if x, werr = r.take(1); werr == nil {
					want = f(x[0] == 1)
					if x[0] > 1 {
						want = f(v) // not a boolean: either
					}
				}
				name, got = "Bool", f(v)
			case 1:
				v, e := d.Int8()
				num(1)
				name, got, gerr = "Int8", f(v), e
			case 2:
				v, e := d.Int16()
				num(2)
				name, got, gerr = "Int16", f(v), e
			case 3:
				v, e := d.Int32()
				num(4)
				name, got, gerr = "Int32", f(v), e
			case 4:
				v, e := d.Int64()
				num(8)
				name, got, gerr = "Int64", f(v), e
			case 5:
				v, e := d.String()
				want, werr = r.sized(r.num(2))
				name, got, gerr = "String", v, e
			case 6:
				v, e := d.NullableString()
				want, werr = r.sized(r.num(2))
				name, gerr = "NullableString", e
				if v != nil {
					got = *v
				}
			case 7:
				v, e := d.Bytes()
				want, werr = r.sized(r.num(4))
				name, got, gerr = "Bytes", string(v), e
			case 8:
				v, e := d.Int32Array()
				want, werr = r.array(func() (string, error) { x, err := r.num(4); return f(x), err })
				name, gerr, got = "Int32Array", e, "["
				for _, x := range v {
					got += f(x) + ","
				}
				got += "]"
			case 9:
				v, e := d.Int64Array()
				want, werr = r.array(func() (string, error) { x, err := r.num(8); return f(x), err })
				name, gerr, got = "Int64Array", e, "["
				for _, x := range v {
					got += f(x) + ","
				}
				got += "]"
			case 10:
				v, e := d.StringArray()
				want, werr = r.array(func() (string, error) { return r.sized(r.num(2)) })
				name, gerr, got = "StringArray", e, "["
				for _, x := range v {
					got += x + ","
				}
				got += "]"
			case 11:
				v, e := d.VarInt()
				var x int64
				x, werr = r.varint()
				name, got, want, gerr = "VarInt", f(v), f(x), e
			case 12:
				v, e := d.VarString()
				want, werr = r.sized(r.varint())
				name, got, gerr = "VarString", v, e
			case 13:
				v, e := d.VarBytes()
				want, werr = r.sized(r.varint())
				name, got, gerr = "VarBytes", string(v), e
			case 14:
				n := i*7%5 + 1
				gerr = d.Discard(n)
				_, werr = r.take(int64(n))
				name = "Discard"
			}
			rt.Count("reach.damaged_primitives")
			if werr != nil {
				if gerr == nil {
					w.fail("C09", "accepts-malformed", "Decoder.%s accepts malformed data", name)
				}
				break
			}
			if gerr != nil {
				w.fail("C09,C06", "rejects-wellformed", "Decoder.%s fails (%v) on well-formed data", name, gerr)
				break
			}
			if got != want {
				w.fail("C09,C06", "invented-content", "Decoder.%s returns %q instead of %q", name, got, want)
				break
			}
		}
	}
}

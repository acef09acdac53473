package main

import (
	"bytes"
	"reflect"

	"github.com/savaki/kafka/ring"
	"vsim/rt"
)

// ringOp is one read or write of the ring buffer scenario.
type ringOp struct {
	n, extra   int
	started    bool
	done       bool
	err        error
	start, end uint64
	before     int // stream offset at the start of the operation
	avail      int // bytes of successful writes at the start (reads)
	buf        []byte
	snap       []byte
}

type ringWorld struct {
	w        *World
	b        *ring.Buffer
	size     int
	capacity int
	writes   []*ringOp
	reads    []*ringOp

	stream    []byte // everything offered, in order
	accepted  int    // bytes of writes that succeeded
	consumed  int    // bytes of reads that succeeded
	wFailed   bool
	rFailed   bool
	preClose  int // bytes of writes that had succeeded when Close began
	closeBeg  uint64
	closeDone int
	closers   int
	closing   bool
}

// callErr calls a method that takes a slice and a count and may return an error.
func callErr(m reflect.Value, data []byte, n int) error {
	for _, o := range m.Call([]reflect.Value{reflect.ValueOf(data), reflect.ValueOf(n)}) {
		if e, ok := o.Interface().(error); ok {
			return e
		}
	}
	return nil
}

func (r *ringWorld) write(op *ringOp) {
	op.started, op.start, op.before = true, rt.Step(), len(r.stream)
	r.stream = append(r.stream, op.buf[:op.n]...)
	op.err = callErr(reflect.ValueOf(r.b).MethodByName("WriteN"), op.buf, op.n)
	op.done, op.end = true, rt.Step()
	rt.Progress()
	rt.Note("write %d -> %v", op.n, op.err)
	rt.MixHash(uint64(op.n)<<2 | b2u(op.err != nil))
	if !bytes.Equal(op.buf, op.snap) {
		r.w.fail("C03", "writer-data-changed", "WriteN changed the data it was given")
	}
	for i := range op.buf {
		op.buf[i] = 0xEE // the data belongs to the writer again
	}
	if op.err != nil {
		r.wFailed = true
		if r.closeBeg == 0 {
			r.w.fail("C03,C04", "write-fails", "a write of %d bytes fails (%v) although the buffer is open", op.n, op.err)
		}
		return
	}
	if r.wFailed && op.n > 0 {
		// an earlier write was cut short: bytes would be missing in between
		r.w.fail("C03,C04", "write-after-failed-write", "a write succeeds after an earlier one had failed")
		return
	}
	r.accepted += op.n
	if r.closeBeg == 0 {
		r.preClose = r.accepted
	}
	if un := r.accepted - r.consumedNow(); un > r.capacity+1 {
		r.w.fail("C03,C04", "pretended-write", "a write reports success while %d accepted bytes are unread in a buffer of %d", un, r.size)
	}
}

// consumedNow bounds from above what the reader may have taken out by now.
func (r *ringWorld) consumedNow() int {
	n := 0
	for _, o := range r.reads {
		if o.started {
			n += o.n
		}
	}
	return n
}

func (r *ringWorld) read(op *ringOp) {
	op.started, op.start, op.before, op.avail = true, rt.Step(), r.consumed, r.accepted
	op.err = callErr(reflect.ValueOf(r.b).MethodByName("ReadN"), op.buf, op.n)
	op.done, op.end = true, rt.Step()
	rt.Progress()
	rt.Note("read %d -> %v", op.n, op.err)
	rt.MixHash(uint64(op.n)<<2 | 2 | b2u(op.err != nil))
	w := r.w
	for _, x := range op.buf[op.n:] {
		if x != 0xDD {
			w.fail("C03", "reads-beyond", "ReadN of %d bytes writes beyond them", op.n)
			break
		}
	}
	earlier := r.rFailed // what a failed read consumed is unspecified
	if op.err != nil {
		r.rFailed = true
		if r.closeBeg == 0 {
			w.fail("C03,C04", "read-fails", "a read of %d bytes fails (%v) although the buffer is open", op.n, op.err)
			return
		}
		have := r.preClose
		if op.avail > have {
			have = op.avail
		}
		if !earlier && have-op.before >= op.n {
			w.fail("C04,C03", "bytes-lost-at-close", "a read of %d bytes fails although %d bytes had been written before", op.n, have-op.before)
		}
		return
	}
	if earlier {
		return
	}
	if op.before+op.n > len(r.stream) {
		w.fail("C03,C04", "invented-bytes", "a read returns %d bytes although only %d were ever offered", op.n, len(r.stream)-op.before)
		return
	}
	if want := r.stream[op.before : op.before+op.n]; !bytes.Equal(op.buf[:op.n], want) {
		i := 0
		for op.buf[i] == want[i] {
			i++
		}
		w.fail("C03", "wrong-bytes", "byte %d of the stream reads as %#x instead of %#x (buffer size %d)", op.before+i, op.buf[i], want[i], r.size)
		return
	}
	r.consumed += op.n
	op.snap = append([]byte(nil), op.buf...)
}

func (r *ringWorld) close() {
	if r.closeBeg == 0 {
		r.closeBeg = rt.Step() + 1
	}
	r.closers++
	rt.Count("fault.ring_close")
	rt.Note("close")
	r.b.Close()
	r.closeDone++
}

// scenRing runs one reader, one writer and possibly a closer on a ring buffer,
// and sometimes another buffer that comes into being meanwhile.
func scenRing(w *World) {
	size := []int{2, 3, 4, 5, 7, 8, 13, 16, 64}[rt.Choose(rt.StWork, 9)]
	if rt.Chance(rt.StWork, .2) {
		size = 2 + rt.Choose(rt.StWork, 60)
	}
	limit, nw := 400, 1+rt.Choose(rt.StWork, 7)
	if !w.race {
		switch rt.Weighted(rt.StWork, .92, .06, .01, .01) {
		case 1: // larger buffers
			size = []int{100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 4096}[rt.Choose(rt.StWork, 11)]
			limit = 4 * size
		case 2: // beyond 16-bit positions
			size = []int{32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000}[rt.Choose(rt.StWork, 9)]
			limit = 3 * size
		case 3: // a long stream through a small buffer
			limit = 70000 + rt.Choose(rt.StWork, 70000)
			nw = 400
			if size < 16 {
				size = 32
			}
		}
	}
	pc := .3
	if w.prop == "C04" {
		pc = .6
	} else if w.prop == "C03" {
		pc = .2
	}
	r := &ringWorld{w: w, size: size}
	r.prepare(limit, nw)
	r.spawn(rt.Chance(rt.StFault, pc))
	rs := []*ringWorld{r}
	if limit < 5000 && rt.Chance(rt.StWork, .12) {
		rt.Count("feature.second_buffer")
		o := &ringWorld{w: w, size: size}
		rt.After(int64(rt.Choose(rt.StWork, 20))*ms/2, func() {
			rt.GoHarness("opener", func() {
				o.prepare(limit, 1+rt.Choose(rt.StWork, 4))
				o.spawn(rt.Chance(rt.StFault, pc))
			})
		})
		rs = append(rs, o)
	}
	rt.Count("nontrivial")
	w.quiesce()
	for _, r := range rs {
		r.judge(r.closing)
		if !r.closing {
			rt.GoHarness("closer", r.close)
		}
	}
	w.quiesce()
	for _, r := range rs {
		r.judge(true)
		for _, o := range r.reads {
			if o.snap != nil && !bytes.Equal(o.snap, o.buf) {
				w.fail("C03", "read-data-changed", "data returned by a read changed later")
			}
		}
	}
	if n := len(rt.LiveLib()); n > 0 {
		w.fail("C04", "goroutine-left", "%d goroutines of the buffer are left after Close", n)
	}
}

// prepare makes the buffer and the operations on it.
func (r *ringWorld) prepare(limit, nw int) {
	r.capacity = r.size - 1
	r.b = ring.New(r.size)
	total := 0
	style := rt.Choose(rt.StWork, 5)
	pick := func() int {
		switch style {
		case 0: // around the capacity
			n := r.capacity - 1 + rt.Choose(rt.StWork, 3)
			return n
		case 1:
			return rt.Choose(rt.StWork, 3)
		case 2:
			return rt.Choose(rt.StWork, 3*r.size+1)
		case 3:
			return 1 + rt.Choose(rt.StWork, r.size)
		}
		switch rt.Choose(rt.StWork, 3) {
		case 0:
			return 1
		case 1:
			return r.capacity
		}
		return 2*r.capacity + 1
	}
	if limit > 50000 && r.size < 1000 {
		pick = func() int { return 1 + rt.Choose(rt.StWork, 500) }
	}
	seed := rt.Bits(rt.StWork)
	p := rt.NewPRNG(uint64(seed) + 1)
	for i := 0; i < nw && total < limit; i++ {
		n := pick()
		op := &ringOp{n: n, extra: rt.Choose(rt.StWork, 3)}
		for j := 0; j < n+op.extra; j++ {
			if seed == 0 {
				op.buf = append(op.buf, byte(1+(total+j)%200))
			} else {
				op.buf = append(op.buf, byte(p.Uint64()))
			}
		}
		op.snap = append([]byte(nil), op.buf...)
		total += n
		r.writes = append(r.writes, op)
	}
	// the reader takes everything, or less, or asks for more
	goal := total
	over := rt.Weighted(rt.StWork, 6, 1, 1)
	switch over {
	case 1:
		goal = rt.Choose(rt.StWork, total+1)
	case 2:
		goal = total + 1 + rt.Choose(rt.StWork, r.size)
	}
	if same := rt.Chance(rt.StWork, .5); !same {
		style = rt.Choose(rt.StWork, 5)
	}
	zero := 0
	for left := goal; left > 0; {
		n := pick()
		if n == 0 {
			zero++
			if zero > 5 {
				n = 1
			}
		}
		if n > left {
			n = left
		}
		left -= n
		op := &ringOp{n: n, extra: rt.Choose(rt.StWork, 3)}
		op.buf = bytes.Repeat([]byte{0xDD}, n+op.extra)
		r.reads = append(r.reads, op)
	}
}

// spawn starts the reader, the writer and possibly closers.
func (r *ringWorld) spawn(closing bool) {
	r.closing = closing
	gapW, gapR := rt.Chance(rt.StWork, .3), rt.Chance(rt.StWork, .3)
	rt.GoHarness("writer", func() {
		for _, op := range r.writes {
			if gapW {
				sleep(int64(rt.Choose(rt.StWork, 5)) * ms)
			}
			r.write(op)
		}
	})
	rt.GoHarness("reader", func() {
		for _, op := range r.reads {
			if gapR {
				sleep(int64(rt.Choose(rt.StWork, 5)) * ms)
			}
			r.read(op)
		}
	})
	if closing {
		k := 1 + rt.Choose(rt.StFault, 2)
		for i := 0; i < k; i++ {
			d := int64(rt.Choose(rt.StFault, 20)) * ms / 2
			if rt.Chance(rt.StFault, .4) {
				d = -1
			}
			rt.GoHarness("closer", func() {
				if d >= 0 {
					sleep(d)
				}
				r.close()
			})
		}
	}
}

func (r *ringWorld) judge(closed bool) {
	w := r.w
	var bw, br *ringOp
	for _, o := range r.writes {
		if o.started && !o.done {
			bw = o
		}
	}
	for _, o := range r.reads {
		if o.started && !o.done {
			br = o
		}
	}
	if closed {
		if bw != nil {
			w.fail("C04", "close-does-not-release-writer", "a write of %d bytes stays blocked after Close", bw.n)
		}
		if br != nil {
			w.fail("C04", "close-does-not-release-reader", "a read of %d bytes stays blocked after Close", br.n)
		}
		if r.closeDone < r.closers {
			w.fail("C04", "close-hangs", "Close of the buffer does not return")
		}
		return
	}
	switch {
	case bw != nil && br != nil:
		w.fail("C04,C03", "both-blocked", "the reader (of %d bytes) and the writer (of %d bytes) wait for each other", br.n, bw.n)
	case br != nil:
		if r.accepted-br.before >= br.n {
			w.fail("C04", "lost-wakeup-reader", "a read of %d bytes stays blocked although %d bytes are available", br.n, r.accepted-br.before)
		}
	case bw != nil:
		if bw.before+bw.n-r.consumed <= r.capacity {
			w.fail("C04", "lost-wakeup-writer", "a write of %d bytes stays blocked although there is room for it", bw.n)
		}
	}
}

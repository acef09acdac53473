package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"reflect"
	"strconv"

	"github.com/savaki/kafka/message"
	"vsim/rt"
)

// faultyWriter fails at a byte of the stream, for good or once.
type faultyWriter struct {
	got      []byte
	offered  []byte
	failAt   int // byte at which a write fails; -1 never
	trans    bool
	err      error
	failed   bool
	after    int // calls made after the failure
	partial  bool
	slow     bool
	flushErr error
	flushes  int
	flushAt  int // flush call that fails, 0 none
	buffered bool
	pend     []byte
}

func (f *faultyWriter) Write(p []byte) (int, error) {
	if f.slow {
		sleep(ms)
	}
	if f.failed {
		f.after++
		if !f.trans {
			return 0, f.err
		}
	}
	f.offered = append(f.offered, p...)
	if !f.failed && f.failAt >= 0 && f.failAt < len(f.offered) {
		f.failed = true
		rt.Count("fault.writer_error")
		n := 0
		if f.partial {
			n = len(p) - (len(f.offered) - f.failAt)
			f.take(p[:n])
		}
		return n, f.err
	}
	f.take(p)
	return len(p), nil
}

func (f *faultyWriter) take(p []byte) {
	if f.buffered {
		f.pend = append(f.pend, p...)
		return
	}
	f.got = append(f.got, p...)
}

// flushWriter adds a Flush method.
type flushWriter struct{ *faultyWriter }

func (f flushWriter) Flush() error {
	f.flushes++
	if f.failed {
		f.after++
		if !f.trans {
			return f.err
		}
	}
	if f.flushAt == f.flushes {
		f.failed = true
		rt.Count("fault.flush_error")
		return f.err
	}
	f.got = append(f.got, f.pend...)
	f.pend = nil
	return nil
}

// stringWriter adds a WriteString method.
type stringWriter struct{ flushWriter }

func (f stringWriter) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type encOp struct {
	name string
	do   func(e *message.Encoder)
	gold []byte // nil when the layout is not described
	has  bool
}

// varStr is a string or bytes behind a variable-length length.
func varStr(b []byte, s string) []byte { return append(binary.AppendVarint(b, int64(len(s))), s...) }

func encOps(n int, msgs bool) []encOp {
	var out []encOp
	str := func() string {
		n := rt.Choose(rt.StWork, 12)
		if rt.Chance(rt.StWork, .12) {
			n = []int{300, 5000, 9000, 20000, 32000, 127, 128}[rt.Choose(rt.StWork, 7)] + rt.Choose(rt.StWork, 200)
		}
		seed := rt.NewPRNG(uint64(rt.Bits(rt.StWork)))
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + seed.Uint64n(26))
		}
		if rt.Chance(rt.StWork, .2) {
			return string(b) + []string{"é漢", "\xff", "é\xe6\xbc", "\xed\xa0\x80z"}[seed.Uint64n(4)]
		}
		return string(b)
	}
	for i := 0; i < n; i++ {
		k := rt.Choose(rt.StWork, 16)
		if !msgs && k >= 14 {
			k = 0
		}
		v := int64(rt.Bits(rt.StWork))<<17 ^ int64(rt.Bits(rt.StWork))
		s := str()
		var o encOp
		switch k {
		case 0:
			o = encOp{"Int8", func(e *message.Encoder) { e.PutInt8(int8(v)) }, []byte{byte(v)}, true}
		case 1:
			o = encOp{"Int16", func(e *message.Encoder) { e.PutInt16(int16(v)) }, p16(nil, int16(v)), true}
		case 2:
			o = encOp{"Int32", func(e *message.Encoder) { e.PutInt32(int32(v)) }, p32(nil, int32(v)), true}
			if v&3 == 0 {
				n := int(v>>2) & (1<<31 - 1)
				o = encOp{"ArrayLength", func(e *message.Encoder) { e.PutArrayLength(n) }, p32(nil, int32(n)), true}
			}
		case 3:
			o = encOp{"Int64", func(e *message.Encoder) { e.PutInt64(v) }, p64(nil, v), true}
		case 4:
			o = encOp{"Bool", func(e *message.Encoder) { e.PutBool(v&1 == 1) }, []byte{byte(v & 1)}, true}
		case 5:
			o = encOp{"String", func(e *message.Encoder) { e.PutString(s) }, append(p16(nil, int16(len(s))), s...), true}
		case 6:
			g := append(p32(nil, int32(len(s))), s...)
			o = encOp{"Bytes", func(e *message.Encoder) { e.PutBytes([]byte(s)) }, g, true}
		case 7:
			o = encOp{"NullableString", func(e *message.Encoder) {
				if v&1 == 0 {
					e.PutNullableString(nil)
				} else {
					e.PutNullableString(&s)
				}
			}, p16(nil, -1), true}
			if v&1 == 1 {
				o.gold = append(p16(nil, int16(len(s))), s...)
			}
		case 8:
			a := []int32{int32(v), 1, -1}[:v&1+int64(len(s))%3]
			if v%7 == 6 {
				a = make([]int32, 100+v%1500)
				for i := range a {
					a[i] = int32(v) * int32(i)
				}
			}
			g := p32(nil, int32(len(a)))
			for _, x := range a {
				g = p32(g, x)
			}
			if v%11 == 10 {
				a, g = nil, p32(nil, -1)
			}
			o = encOp{"Int32Array", func(e *message.Encoder) { e.PutInt32Array(a) }, g, true}
		case 9:
			a := []int64{v, 1, -1}[:v&1+int64(len(s))%3]
			if v%7 == 6 {
				a = make([]int64, 100+v%700)
				for i := range a {
					a[i] = v * int64(i)
				}
			}
			g := p32(nil, int32(len(a)))
			for _, x := range a {
				g = p64(g, x)
			}
			if v%11 == 10 {
				a, g = nil, p32(nil, -1)
			}
			o = encOp{"Int64Array", func(e *message.Encoder) { e.PutInt64Array(a) }, g, true}
		case 10:
			a := []string{s, "", "xyz"}[:v&1+int64(len(s))%3]
			if v%7 == 6 {
				a = make([]string, 50+v%100)
				for i := range a {
					a[i] = "item" + strconv.Itoa(i)
				}
			}
			g := p32(nil, int32(len(a)))
			for _, x := range a {
				g = append(p16(g, int16(len(x))), x...)
			}
			if v%11 == 10 {
				a, g = nil, p32(nil, -1)
			}
			o = encOp{"StringArray", func(e *message.Encoder) { e.PutStringArray(a) }, g, true}
		case 11:
			o = encOp{"VarInt", func(e *message.Encoder) { e.PutVarInt(v) }, binary.AppendVarint(nil, v), true}
		case 12:
			o = encOp{"VarBytes", func(e *message.Encoder) { e.PutVarBytes([]byte(s)) }, varStr(nil, s), true}
		case 13:
			o = encOp{"RecordHeader", func(e *message.Encoder) { e.PutRecordHeader(s, "v") }, varStr(varStr(nil, s), "v"), true}
			if v&3 == 0 {
				o = encOp{"VarString", func(e *message.Encoder) { e.PutVarString(s) }, varStr(nil, s), true}
			}
		case 14, 15:
			a := &schema.Apis[rt.Choose(rt.StWork, len(schema.Apis))]
			name := a.Request
			if k == 15 {
				name = a.Response
			}
			ver := rt.Choose(rt.StWork, a.Max+1)
			g := newGen(rt.Bits(rt.StWork), uint32(i), 0)
			val := reflect.New(msgType[name])
			g.fill(val.Elem(), name, ver, false, 0)
			type encoder interface {
				Encode(e *message.Encoder, version int16)
			}
			x, ok := val.Interface().(encoder)
			if !ok {
				x, ok = val.Elem().Interface().(encoder)
			}
			if !ok {
				continue
			}
			o = encOp{name + " v" + strconv.Itoa(ver), func(e *message.Encoder) { x.Encode(e, int16(ver)) }, nil, false}
		}
		out = append(out, o)
	}
	return out
}

// scenEncoder drives an encoder whose target fails.
func scenEncoder(w *World) {
	ops := encOps(1+rt.Choose(rt.StWork, 12), true)
	flushEach := rt.Choose(rt.StWork, 4)
	// the fault-free encoding
	var ref bytes.Buffer
	e := message.NewEncoder(&ref)
	for _, o := range ops {
		at := ref.Len()
		o.do(e)
		e.Flush()
		if o.has && !bytes.Equal(ref.Bytes()[at:], o.gold) {
			w.fail("C18", "wrong-bytes", "encoding %s writes %x instead of %x", o.name, ref.Bytes()[at:], o.gold)
		}
	}
	if err := e.Flush(); err != nil {
		w.fail("C18", "flush-error", "Flush fails (%v) although nothing went wrong", err)
	}
	full := append([]byte(nil), ref.Bytes()...)
	fw := &faultyWriter{failAt: -1, err: []error{io.ErrClosedPipe, errors.New("disk full"), io.ErrShortWrite, io.EOF}[rt.Choose(rt.StFault, 4)]}
	if rt.Chance(rt.StFault, .8) && len(full) > 0 {
		fw.failAt = rt.Choose(rt.StFault, len(full))
		if rt.Chance(rt.StFault, .3) {
			fw.failAt = rt.Choose(rt.StFault, 3)
		}
		fw.trans = rt.Chance(rt.StFault, .6)
		fw.partial = rt.Chance(rt.StFault, .5)
	}
	fw.slow = rt.Chance(rt.StFault, .1)
	var target io.Writer = fw
	kind := rt.Choose(rt.StWork, 5)
	switch kind {
	case 1:
		fw.buffered = true
		target = flushWriter{fw}
	case 2:
		target = stringWriter{flushWriter{fw}}
	case 3:
		target = bufio.NewWriterSize(fw, 16+rt.Choose(rt.StWork, 40))
	case 4:
		fw.buffered = true
		target = stringWriter{flushWriter{fw}}
		if rt.Chance(rt.StFault, .4) {
			fw.flushAt = 1 + rt.Choose(rt.StFault, 3)
			fw.trans = true
			fw.failAt = -1
		}
	}
	rt.Count("nontrivial")
	e = message.NewEncoder(target)
	check := func(o string) bool {
		all := append(append([]byte(nil), fw.got...), fw.pend...)
		if !bytes.HasPrefix(full, all) {
			w.fail("C18", "not-a-prefix", "after %s the target holds %d bytes that are no prefix of the encoding (failure at byte %d)", o, len(all), fw.failAt)
			return false
		}
		if fw.failed && fw.after > 0 {
			w.fail("C18", "write-after-failure", "%s makes the encoder write after a failed write", o)
			return false
		}
		return true
	}
	for i, o := range ops {
		before := fw.failed
		o.do(e)
		if !check(o.name) {
			return
		}
		_ = before
		if flushEach > 0 && i%flushEach == 0 {
			err := e.Flush()
			if !check("Flush") {
				return
			}
			if (err != nil) != fw.failed {
				w.fail("C18", "flush-verdict", "Flush reports %v although the target failed=%v", err, fw.failed)
				return
			}
			if err == nil && (kind == 1 || kind == 3 || kind == 4) && len(fw.pend) > 0 {
				w.fail("C18", "flush-incomplete", "Flush leaves %d bytes behind", len(fw.pend))
			}
		}
	}
	for i := 0; i < 2; i++ {
		err := e.Flush()
		if !check("Flush") {
			return
		}
		if (err != nil) != fw.failed {
			w.fail("C18", "flush-verdict", "Flush reports %v although the target failed=%v", err, fw.failed)
			return
		}
		if err != nil && !errors.Is(err, fw.err) {
			w.fail("C18", "wrong-error", "Flush reports %v instead of the target's error %v", err, fw.err)
		}
		if err == nil && !bytes.Equal(fw.got, full) {
			w.fail("C18", "flush-incomplete", "after Flush the target holds %d of %d bytes", len(fw.got), len(full))
		}
	}
}

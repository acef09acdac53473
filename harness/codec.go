package main

import (
	_ "embed"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	"vsim/rt"

	kafka "github.com/savaki/kafka"
)

// The golden description of the protocol: which fields each message has in
// which version, in which order and with which type. The simulated brokers
// encode and decode with it, never with the library's own codec.

//go:embed schema.json
var schemaJSON []byte

type field struct {
	Name, Type, Elem string
	Min, Max         int
}

type api struct {
	Name              string
	Key, Min, Max     int
	Request, Response string
}

type schemaFile struct {
	Apis    []api
	Structs map[string][]field
}

var (
	schema   schemaFile
	apiByKey = map[int16]*api{}
	apiNamed = map[string]*api{}
	msgType  = map[string]reflect.Type{} // top-level message struct -> Go type
)

var errShort = errors.New("golden decode: short buffer")
var errBad = errors.New("golden decode: bad length")

func loadSchema() error {
	if err := json.Unmarshal(schemaJSON, &schema); err != nil {
		return err
	}
	bt := reflect.TypeOf(&kafka.Broker{})
	for i := range schema.Apis {
		a := &schema.Apis[i]
		apiByKey[int16(a.Key)] = a
		apiNamed[a.Name] = a
		m, ok := bt.MethodByName(a.Name)
		if !ok || m.Type.NumIn() != 2 || m.Type.NumOut() != 2 {
			return fmt.Errorf("no usable Broker method %s", a.Name)
		}
		msgType[a.Request] = m.Type.In(1)
		msgType[a.Response] = m.Type.Out(0)
	}
	for i := range schema.Apis {
		a := &schema.Apis[i]
		for _, n := range []string{a.Request, a.Response} {
			if err := checkType(msgType[n], n); err != nil {
				return err
			}
		}
	}
	return nil
}

// checkType makes sure that the Go struct has the fields of the description.
func checkType(t reflect.Type, name string) error {
	if t.Kind() != reflect.Struct {
		return fmt.Errorf("%s is not a struct", name)
	}
	for _, f := range schema.Structs[name] {
		sf, ok := t.FieldByName(f.Name)
		if !ok {
			return fmt.Errorf("%s has no field %s", name, f.Name)
		}
		if f.Type == "array" {
			if sf.Type.Kind() != reflect.Slice {
				return fmt.Errorf("%s.%s is not a slice", name, f.Name)
			}
			if err := checkType(sf.Type.Elem(), f.Elem); err != nil {
				return err
			}
		}
	}
	return nil
}

type fieldIdx struct {
	field
	idx int
}

var fieldCache = map[string][]fieldIdx{}

func fieldsOf(t reflect.Type, name string) []fieldIdx {
	if c, ok := fieldCache[name]; ok {
		return c
	}
	var out []fieldIdx
	for _, f := range schema.Structs[name] {
		sf, _ := t.FieldByName(f.Name)
		out = append(out, fieldIdx{f, sf.Index[0]})
	}
	fieldCache[name] = out
	return out
}

func p16(b []byte, v int16) []byte { return binary.BigEndian.AppendUint16(b, uint16(v)) }
func p32(b []byte, v int32) []byte { return binary.BigEndian.AppendUint32(b, uint32(v)) }
func p64(b []byte, v int64) []byte { return binary.BigEndian.AppendUint64(b, uint64(v)) }

// encode appends the golden encoding of v at a version. null, if not nil, says
// for each empty nullable field whether it is sent as null.
func encode(b []byte, v reflect.Value, name string, ver int, null func() bool) []byte {
	isNull := func(n int) bool { return n == 0 && null != nil && null() }
	for _, f := range fieldsOf(v.Type(), name) {
		if ver < f.Min || ver > f.Max {
			continue
		}
		x := v.Field(f.idx)
		switch f.Type {
		case "string":
			s := x.String()
			if isNull(len(s)) {
				b = p16(b, -1)
			} else {
				b = p16(b, int16(len(s)))
				b = append(b, s...)
			}
		case "bytes":
			if isNull(x.Len()) {
				b = p32(b, -1)
			} else {
				b = p32(b, int32(x.Len()))
				b = append(b, x.Bytes()...)
			}
		case "int8":
			b = append(b, byte(x.Int()))
		case "int16":
			b = p16(b, int16(x.Int()))
		case "int32":
			b = p32(b, int32(x.Int()))
		case "int64":
			b = p64(b, x.Int())
		case "bool":
			if x.Bool() {
				b = append(b, 1)
			} else {
				b = append(b, 0)
			}
		default:
			n := x.Len()
			if isNull(n) {
				b = p32(b, -1)
				continue
			}
			b = p32(b, int32(n))
			for i := 0; i < n; i++ {
				e := x.Index(i)
				switch f.Type {
				case "int32array":
					b = p32(b, int32(e.Int()))
				case "int64array":
					b = p64(b, e.Int())
				case "stringarray":
					b = p16(b, int16(e.Len()))
					b = append(b, e.String()...)
				case "array":
					b = encode(b, e, f.Elem, ver, null)
				default:
					panic("golden: type " + f.Type)
				}
			}
		}
	}
	return b
}

type goldReader struct {
	b     []byte
	off   int
	loose bool // met an encoding whose interpretation is not settled (a bool that is neither 0 nor 1)
	keep  bool // remember where the lengths are
	lens  []lenPos
}

// lenPos is a length or count inside a message and the end of what it counts.
type lenPos struct{ off, width, end int }

func (r *goldReader) mark(width int) int {
	if r.keep {
		r.lens = append(r.lens, lenPos{r.off - width, width, r.off})
	}
	return len(r.lens) - 1
}

func (r *goldReader) ends(i int) {
	if r.keep {
		r.lens[i].end = r.off
	}
}

// badLength damages the length at p: a value that no message may have there,
// with or without the content it used to count.
func badLength(b []byte, p lenPos, kind, val int) []byte {
	c := append([]byte(nil), b[:p.off]...)
	rest := b[p.off+p.width:]
	if kind == 1 {
		rest = b[p.end:]
	}
	if p.width == 2 {
		c = p16(c, []int16{-2, -32768, 32767, int16(len(rest) + 1), -3}[val%5])
	} else {
		c = p32(c, []int32{-2, -2147483648, 2147483647, int32(len(rest) + 1), -16777216}[val%5])
	}
	return append(c, rest...)
}

func (r *goldReader) take(n int) ([]byte, error) {
	if n < 0 {
		return nil, errBad
	}
	if len(r.b)-r.off < n {
		return nil, errShort
	}
	v := r.b[r.off : r.off+n]
	r.off += n
	return v, nil
}

func (r *goldReader) i16() (int16, error) {
	b, err := r.take(2)
	if err != nil {
		return 0, err
	}
	return int16(binary.BigEndian.Uint16(b)), nil
}

func (r *goldReader) i32() (int32, error) {
	b, err := r.take(4)
	if err != nil {
		return 0, err
	}
	return int32(binary.BigEndian.Uint32(b)), nil
}

func (r *goldReader) i64() (int64, error) {
	b, err := r.take(8)
	if err != nil {
		return 0, err
	}
	return int64(binary.BigEndian.Uint64(b)), nil
}

func (r *goldReader) str() (string, error) {
	n, err := r.i16()
	if err != nil || n == -1 {
		return "", err
	}
	m := r.mark(2)
	b, err := r.take(int(n))
	r.ends(m)
	return string(b), err
}

// settable makes unexported fields writable (CreateTopicsRequest has two).
func settable(x reflect.Value) reflect.Value {
	if x.CanSet() {
		return x
	}
	return reflect.NewAt(x.Type(), unsafe.Pointer(x.UnsafeAddr())).Elem()
}

// decode reads a message at a version into v.
func decode(r *goldReader, v reflect.Value, name string, ver int) error {
	for _, f := range fieldsOf(v.Type(), name) {
		if ver < f.Min || ver > f.Max {
			continue
		}
		x := settable(v.Field(f.idx))
		switch f.Type {
		case "string":
			s, err := r.str()
			if err != nil {
				return err
			}
			x.SetString(s)
		case "bytes":
			n, err := r.i32()
			if err != nil {
				return err
			}
			if n == -1 {
				continue
			}
			m := r.mark(4)
			b, err := r.take(int(n))
			if err != nil {
				return err
			}
			r.ends(m)
			x.SetBytes(append([]byte{}, b...))
		case "int8":
			b, err := r.take(1)
			if err != nil {
				return err
			}
			x.SetInt(int64(int8(b[0])))
		case "int16":
			n, err := r.i16()
			if err != nil {
				return err
			}
			x.SetInt(int64(n))
		case "int32":
			n, err := r.i32()
			if err != nil {
				return err
			}
			x.SetInt(int64(n))
		case "int64":
			n, err := r.i64()
			if err != nil {
				return err
			}
			x.SetInt(n)
		case "bool":
			b, err := r.take(1)
			if err != nil {
				return err
			}
			if b[0] > 1 {
				r.loose = true
			}
			x.SetBool(b[0] == 1)
		default:
			n, err := r.i32()
			if err != nil {
				return err
			}
			if n == -1 {
				continue
			}
			if n < 0 {
				return errBad
			}
			m := r.mark(4)
			min := 1
			switch f.Type {
			case "int32array":
				min = 4
			case "int64array":
				min = 8
			case "stringarray":
				min = 2
			}
			if int64(n)*int64(min) > int64(len(r.b)-r.off) {
				return errShort
			}
			s := reflect.MakeSlice(x.Type(), int(n), int(n))
			for i := 0; i < int(n); i++ {
				switch f.Type {
				case "int32array":
					e, err := r.i32()
					if err != nil {
						return err
					}
					s.Index(i).SetInt(int64(e))
				case "int64array":
					e, err := r.i64()
					if err != nil {
						return err
					}
					s.Index(i).SetInt(e)
				case "stringarray":
					e, err := r.str()
					if err != nil {
						return err
					}
					s.Index(i).SetString(e)
				case "array":
					if err := decode(r, s.Index(i), f.Elem, ver); err != nil {
						return err
					}
				}
			}
			r.ends(m)
			x.Set(s)
		}
	}
	return nil
}

// dump is a canonical rendering of the whole Go value, in which nil and empty
// slices are the same.
func dump(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			b = dump(b, v.Field(i))
		}
	case reflect.Slice:
		b = p32(b, int32(v.Len()))
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return append(b, v.Bytes()...)
		}
		for i := 0; i < v.Len(); i++ {
			b = dump(b, v.Index(i))
		}
	case reflect.String:
		b = p32(b, int32(v.Len()))
		b = append(b, v.String()...)
	case reflect.Bool:
		if v.Bool() {
			b = append(b, 1)
		} else {
			b = append(b, 0)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		b = p64(b, v.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b = p64(b, int64(v.Uint()))
	case reflect.Ptr:
		if v.IsNil() {
			b = append(b, 0)
		} else {
			b = append(b, 1)
			b = dump(b, v.Elem())
		}
	default:
		panic("dump: kind " + v.Kind().String())
	}
	return b
}

// gen fills v with random content for the fields of a version (all fields when
// all is set). Values come from one recorded 32-bit decision.
type gen struct {
	p     *rt.PRNG
	tiny  bool // default decision: the smallest distinct content
	uniq  uint32
	arr   int // largest array length
	str   int // largest string
	byt   int // largest bytes field
	big   bool
	count int
	long  int // largest array of long ones
	left  int // bytes that may still be generated
}

func newGen(seed, uniq uint32, class int) *gen {
	g := &gen{p: rt.NewPRNG(rt.Mix(uint64(seed), uint64(uniq), 7)), tiny: seed == 0, uniq: uniq}
	switch class {
	case 0:
		g.arr, g.str, g.byt, g.left = 2, 8, 12, 1500
	case 1:
		g.arr, g.str, g.byt, g.left = 3, 40, 120, 3000
	case 2:
		g.arr, g.str, g.byt, g.left = 4, 300, 3000, 8000
	default:
		g.arr, g.str, g.byt, g.left = 5, 2000, 20000, 40000
		g.big = true
		switch g.n(5) {
		case 0: // the longest strings
			g.str, g.left = 32767, 120000
		case 1: // byte fields beyond 16-bit lengths
			g.byt, g.left = 70000, 150000
		case 2: // long arrays
			g.long, g.str, g.byt, g.left = 3000, 8, 12, 60000
		}
	}
	return g
}

func (g *gen) n(n int) int { return int(g.p.Uint64n(uint64(n))) }

func (g *gen) int(bits int) int64 {
	g.count++
	if g.tiny {
		if g.count == 1 {
			return int64(g.uniq & 0x7f)
		}
		return 0
	}
	switch g.n(8) {
	case 0:
		return 0
	case 1:
		return -1
	case 2:
		return int64(1)<<(bits-1) - 1
	case 3:
		return -int64(1) << (bits - 1)
	}
	v := int64(g.p.Uint64())
	return v << (64 - bits) >> (64 - bits)
}

func (g *gen) bytes(max int) []byte {
	if g.tiny {
		g.count++
		if g.count == 1 {
			return []byte{byte('a' + g.uniq%26)}
		}
		return nil
	}
	n := 0
	switch g.n(6) {
	case 0:
		n = 0
	case 1:
		n = max
	case 2: // at or next to a power of two
		n = 1<<(2+g.n(15)) - 2 + g.n(4)
		if n > max {
			n = g.n(max + 1)
		}
	default:
		n = g.n(max + 1)
	}
	if n > g.left {
		n = g.left
	}
	g.left -= n
	b := make([]byte, n)
	switch g.n(5) {
	case 0: // length-like content
		for i := range b {
			b[i] = []byte{0, 0, 0, 0xff, 1, 0x7f, 0x80}[g.n(7)]
		}
	default:
		for i := range b {
			b[i] = byte(g.p.Uint64())
		}
	}
	return b
}

func (g *gen) fill(v reflect.Value, name string, ver int, all bool, depth int) {
	for _, f := range fieldsOf(v.Type(), name) {
		if !all && (ver < f.Min || ver > f.Max) {
			continue
		}
		x := v.Field(f.idx)
		if !x.CanSet() {
			continue // a caller cannot set it either
		}
		switch f.Type {
		case "string":
			x.SetString(string(g.bytes(g.str)))
		case "bytes":
			x.SetBytes(g.bytes(g.byt))
		case "int8":
			x.SetInt(g.int(8))
		case "int16":
			x.SetInt(g.int(16))
		case "int32":
			x.SetInt(g.int(32))
		case "int64":
			x.SetInt(g.int(64))
		case "bool":
			x.SetBool(!g.tiny && g.n(2) == 1)
		default:
			if g.tiny {
				continue
			}
			max := g.arr
			if depth >= 3 {
				max = 1
			}
			n := g.n(max + 1)
			if g.big && depth == 0 && g.n(3) == 0 {
				n = 20 + g.n(60)
			}
			if f.Type != "array" && g.n(6) == 0 {
				n = g.n(4 * (max + 1))
			}
			if g.long > 0 && depth <= 1 && g.n(2) == 0 {
				n = g.n(g.long)
			}
			if n == 0 && g.n(2) == 0 {
				continue
			}
			if n > g.left/4 {
				n = g.left / 4
			}
			g.left -= 4 * n
			s := reflect.MakeSlice(x.Type(), n, n)
			for i := 0; i < n; i++ {
				e := s.Index(i)
				switch f.Type {
				case "int32array":
					e.SetInt(g.int(32))
				case "int64array":
					e.SetInt(g.int(64))
				case "stringarray":
					e.SetString(string(g.bytes(g.str)))
				case "array":
					g.fill(e, f.Elem, ver, all, depth+1)
				}
			}
			x.Set(s)
		}
	}
}

// masked returns a copy of v in which the fields outside the version are zero.
func masked(v reflect.Value, name string, ver int) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	for _, f := range fieldsOf(v.Type(), name) {
		if ver < f.Min || ver > f.Max {
			continue
		}
		x, y := v.Field(f.idx), settable(out.Field(f.idx))
		if !x.CanInterface() {
			continue
		}
		if f.Type == "array" {
			n := x.Len()
			s := reflect.MakeSlice(x.Type(), n, n)
			for i := 0; i < n; i++ {
				s.Index(i).Set(masked(x.Index(i), f.Elem, ver))
			}
			y.Set(s)
		} else {
			y.Set(x)
		}
	}
	return out
}

func structNames() []string {
	var n []string
	for k := range schema.Structs {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}

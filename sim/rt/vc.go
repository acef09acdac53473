package rt

import (
	"bufio"
	"bytes"
	"container/list"
	"fmt"
	"reflect"
	"strings"
	"unsafe"
)

// VC is a vector clock indexed by goroutine id.
type VC []uint32

func (v VC) clone(n int) VC {
	if len(v) > n {
		n = len(v)
	}
	c := make(VC, n)
	copy(c, v)
	return c
}

func (v *VC) join(o VC) {
	if len(o) > len(*v) {
		n := make(VC, len(o))
		copy(n, *v)
		*v = n
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v *VC) tick(id int) {
	if id >= len(*v) {
		n := make(VC, id+1)
		copy(n, *v)
		*v = n
	}
	(*v)[id]++
}

func (v VC) get(id int) uint32 {
	if id < len(v) {
		return v[id]
	}
	return 0
}

// Acquire orders the current goroutine after everything released into v.
func Acquire(v *VC) {
	if s := S; s != nil && s.Race {
		s.cur.vc.join(*v)
	}
}

// Release makes v include everything the current goroutine did.
func Release(v *VC) {
	if s := S; s != nil && s.Race {
		v.join(s.cur.vc)
		s.cur.vc.tick(s.cur.ID)
	}
}

func (s *Sim) addrVC(p unsafe.Pointer) *VC {
	v := s.syncVC[uintptr(p)]
	if v == nil {
		v = new(VC)
		s.syncVC[uintptr(p)] = v
	}
	return v
}

// AtomicLoad, AtomicStore and AtomicRMW are the synchronisation effects of
// atomic operations on p, together with the check against plain accesses.
func AtomicLoad(p unsafe.Pointer) {
	leak(p)
	s := raceOn()
	if s == nil {
		return
	}
	Acquire(s.addrVC(p))
	g := s.cur
	c := s.sh.cell(uintptr(p))
	if c.wg >= 0 && !c.wat && c.wg != g.ID && c.wclk > g.vc.get(c.wg) {
		s.raceFound("write", c.wloc, c.wg, "atomic load", "", g.ID)
	}
}

func AtomicStore(p unsafe.Pointer) {
	leak(p)
	s := raceOn()
	if s == nil {
		return
	}
	v := s.addrVC(p)
	s.atomicWrite(p)
	*v = nil
	Release(v)
}

func AtomicRMW(p unsafe.Pointer) {
	leak(p)
	s := raceOn()
	if s == nil {
		return
	}
	v := s.addrVC(p)
	Acquire(v)
	s.atomicWrite(p)
	Release(v)
}

func (s *Sim) atomicWrite(p unsafe.Pointer) {
	g := s.cur
	c := s.sh.cell(uintptr(p))
	if c.wg >= 0 && !c.wat && c.wg != g.ID && c.wclk > g.vc.get(c.wg) {
		s.raceFound("write", c.wloc, c.wg, "atomic store", "", g.ID)
	}
	s.checkReaders(c, "atomic store", "")
	c.wg, c.wclk, c.wloc, c.wat = g.ID, g.vc.get(g.ID), "atomic", true
	c.rg, c.readers, c.rlocs = -2, nil, nil
}

func (s *Sim) checkReaders(c *cell, kind, loc string) {
	g := s.cur
	if c.rg >= 0 && c.rg != g.ID && c.rclk > g.vc.get(c.rg) {
		s.raceFound("read", c.rloc, c.rg, kind, loc, g.ID)
	} else if c.rg == -1 {
		for id, k := range c.readers {
			if id != g.ID && k > g.vc.get(id) {
				s.raceFound("read", c.rlocs[id], id, kind, loc, g.ID)
			}
		}
	}
}

// shadow memory of the happens-before race detector (one cell per address).
type cell struct {
	wg, rg     int // last writer, last reader (-1: several)
	wclk, rclk uint32
	wloc, rloc string
	wat        bool // the last write was atomic
	readers    VC
	rlocs      map[int]string
}

type shadow struct {
	cells map[uintptr]*cell
	lastP uintptr
	lastC *cell
}

func newShadow() *shadow { return &shadow{cells: map[uintptr]*cell{}} }

func (sh *shadow) cell(p uintptr) *cell {
	if p == sh.lastP {
		return sh.lastC
	}
	c := sh.cells[p]
	if c == nil {
		c = &cell{wg: -1, rg: -2}
		sh.cells[p] = c
	}
	sh.lastP, sh.lastC = p, c
	return c
}

func (s *Sim) raceRead(p uintptr, loc string) {
	g := s.cur
	c := s.sh.cell(p)
	if c.wg >= 0 && c.wg != g.ID && c.wclk > g.vc.get(c.wg) {
		s.raceFound("write", c.wloc, c.wg, "read", loc, g.ID)
	}
	clk := g.vc.get(g.ID)
	switch {
	case c.rg == -2 || c.rg == g.ID:
		c.rg, c.rclk, c.rloc = g.ID, clk, loc
	case c.rg >= 0 && c.rclk <= g.vc.get(c.rg):
		c.rg, c.rclk, c.rloc = g.ID, clk, loc
	default:
		if c.rg >= 0 {
			c.readers = make(VC, max(c.rg, g.ID)+1)
			c.rlocs = map[int]string{c.rg: c.rloc}
			c.readers[c.rg] = c.rclk
			c.rg = -1
		}
		c.readers.join(make(VC, g.ID+1))
		c.readers[g.ID] = clk
		c.rlocs[g.ID] = loc
	}
}

func (s *Sim) raceWrite(p uintptr, loc string) {
	g := s.cur
	c := s.sh.cell(p)
	if c.wg >= 0 && c.wg != g.ID && c.wclk > g.vc.get(c.wg) {
		s.raceFound("write", c.wloc, c.wg, "write", loc, g.ID)
	}
	s.checkReaders(c, "write", loc)
	c.wg, c.wclk, c.wloc, c.wat = g.ID, g.vc.get(g.ID), loc, false
	c.rg, c.readers, c.rlocs = -2, nil, nil
}

// RaceProps are the properties a data race violates.
var RaceProps []string

func (s *Sim) raceFound(k1, l1 string, g1 int, k2, l2 string, g2 int) {
	s.Fail(RaceProps, "data-race", "unsynchronised %s at %s (g%d %s) and %s at %s (g%d %s)", k1, l1, g1, s.gs[g1].Name, k2, l2, g2, s.gs[g2].Name)
}

func raceOn() *Sim {
	s := S
	if s == nil || !s.Race || s.dying || s.cur == nil {
		return nil
	}
	return s
}

// Everything the race detector looks at must live on the heap, where addresses
// are not reused during a run (the collector is off): leak makes it escape.
var (
	never bool
	sink  unsafe.Pointer
)

func leak(p unsafe.Pointer) {
	if never {
		sink = p
	}
}

// Rd notes a read of *p and returns p.
func Rd[T any](p *T, loc string) *T {
	leak(unsafe.Pointer(p))
	if s := raceOn(); s != nil && p != nil {
		for _, o := range leaves(p) {
			s.raceRead(uintptr(unsafe.Pointer(p))+o, loc)
		}
	}
	return p
}

// Wr notes a write of *p.
func Wr[T any](p *T, loc string) {
	leak(unsafe.Pointer(p))
	if s := raceOn(); s != nil && p != nil {
		for _, o := range leaves(p) {
			s.raceWrite(uintptr(unsafe.Pointer(p))+o, loc)
		}
	}
}

// RdRange notes reads of the first n elements of b.
func RdRange[T any](b []T, n int, loc string) {
	leak(unsafe.Pointer(unsafe.SliceData(b)))
	if s := raceOn(); s != nil {
		for i := 0; i < n && i < len(b); i++ {
			s.raceRead(uintptr(unsafe.Pointer(&b[i])), loc)
		}
	}
}

// WrRange notes writes of the first n elements of b.
func WrRange[T any](b []T, n int, loc string) {
	leak(unsafe.Pointer(unsafe.SliceData(b)))
	if s := raceOn(); s != nil {
		for i := 0; i < n && i < len(b); i++ {
			s.raceWrite(uintptr(unsafe.Pointer(&b[i])), loc)
		}
	}
}

var zero1 = []uintptr{0}
var leafCache = map[reflect.Type][]uintptr{}

func leaves[T any](p *T) []uintptr {
	t := reflect.TypeOf(p).Elem()
	if k := t.Kind(); k != reflect.Struct && k != reflect.Array {
		return zero1
	}
	if o, ok := leafCache[t]; ok {
		return o
	}
	var out []uintptr
	var walk func(t reflect.Type, base uintptr)
	walk = func(t reflect.Type, base uintptr) {
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type, base+t.Field(i).Offset)
			}
		case reflect.Array:
			if t.Len() > 64 {
				out = append(out, base)
				return
			}
			for i := 0; i < t.Len(); i++ {
				walk(t.Elem(), base+uintptr(i)*t.Elem().Size())
			}
		default:
			if t.PkgPath() == "" || t.Size() > 0 {
				out = append(out, base)
			}
		}
	}
	walk(t, 0)
	leafCache[t] = out
	return out
}

// ObjR notes that a method of x reads it, if x is an object of the standard
// library that does not synchronise by itself.
func ObjR[T any](x T, loc string) T {
	if s := raceOn(); s != nil {
		if p := object(x); p != 0 {
			s.raceRead(p, loc)
		}
	}
	return x
}

// ObjW is ObjR for a method that changes x.
func ObjW[T any](x T, loc string) T {
	if s := raceOn(); s != nil {
		if p := object(x); p != 0 {
			s.raceWrite(p, loc)
		}
	}
	return x
}

func at(p unsafe.Pointer) uintptr {
	leak(p)
	return uintptr(p)
}

func object(x any) uintptr {
	switch p := x.(type) {
	case *bufio.Writer:
		return at(unsafe.Pointer(p))
	case *bufio.Reader:
		return at(unsafe.Pointer(p))
	case *bufio.ReadWriter:
		return at(unsafe.Pointer(p))
	case *bufio.Scanner:
		return at(unsafe.Pointer(p))
	case *bytes.Buffer:
		return at(unsafe.Pointer(p))
	case *bytes.Reader:
		return at(unsafe.Pointer(p))
	case *strings.Builder:
		return at(unsafe.Pointer(p))
	case *strings.Reader:
		return at(unsafe.Pointer(p))
	case *list.List:
		return at(unsafe.Pointer(p))
	}
	return 0
}

// MapRd notes a read of map m and returns m.
func MapRd[M ~map[K]V, K comparable, V any](m M, loc string) M {
	leak(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
	if s := raceOn(); s != nil && m != nil {
		s.raceRead(*(*uintptr)(unsafe.Pointer(&m)), loc)
	}
	return m
}

// MapWr notes a write to map m and returns m.
func MapWr[M ~map[K]V, K comparable, V any](m M, loc string) M {
	leak(*(*unsafe.Pointer)(unsafe.Pointer(&m)))
	if s := raceOn(); s != nil && m != nil {
		s.raceWrite(*(*uintptr)(unsafe.Pointer(&m)), loc)
	}
	return m
}

// MakeSlice replaces make([]T, n) of instrumented code, so that absurd
// allocations are reported instead of performed.
func MakeSlice[T any](n, c int) []T {
	if s := S; s != nil && !s.dying {
		var z T
		if n < 0 || c < n {
			panic(fmt.Sprintf("makeslice: len out of range (%d)", n))
		}
		sz := int64(c) * int64(unsafe.Sizeof(z))
		s.AllocTotal += sz
		if sz > s.BigAlloc {
			s.BigAlloc = sz
		}
		if sz > s.AllocLimit {
			panic(AllocPanic(sz))
		}
	}
	return make([]T, n, c)
}

// MakeS1 and MakeS2 replace make for slice types.
func MakeS1[S ~[]T, T any](n int) S    { return S(MakeSlice[T](n, n)) }
func MakeS2[S ~[]T, T any](n, c int) S { return S(MakeSlice[T](n, c)) }

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// RdAll notes a read of every element of b and returns b.
func RdAll[S ~[]T, T any](b S, loc string) S { RdRange([]T(b), len(b), loc); return b }

// RdN and WrN note accesses to the first n bytes of b and return b.
func RdN(b []byte, n int, loc string) []byte { RdRange(b, n, loc); return b }
func WrN(b []byte, n int, loc string) []byte { WrRange(b, n, loc); return b }

// Copy is copy(d, s).
func Copy[D ~[]T, S ~[]T, T any](d D, s S, loc string) int {
	n := copy(d, s)
	RdRange([]T(s), n, loc)
	WrRange([]T(d), n, loc)
	return n
}

// CopyStr is copy(d, s) for a string.
func CopyStr[D ~[]byte, S ~string](d D, s S, loc string) int {
	n := copy(d, s)
	WrRange([]byte(d), n, loc)
	return n
}

// AllocPanic is raised when instrumented code asks for more memory than the
// run's allocation limit.
type AllocPanic int64

func (a AllocPanic) String() string {
	return fmt.Sprintf("allocation of %d bytes exceeds the simulated memory limit", int64(a))
}

func (a AllocPanic) Error() string { return a.String() }

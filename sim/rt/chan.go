package rt

import (
	"cmp"
	"fmt"
	"reflect"
	"slices"
	"sort"
)

// waiter is a goroutine parked on one or more channel operations.
type waiter struct {
	g     *G
	fired bool
	idx   int
}

type recvWait[T any] struct {
	w   *waiter
	idx int
	val T
	ok  bool
}

type sendWait[T any] struct {
	w   *waiter
	idx int
	val T
	// closed is set when the channel was closed under the sender
	closed bool
}

// Chan is the simulated channel.
type Chan[T any] struct {
	buf    []T
	capn   int
	closed bool
	recvq  []*recvWait[T]
	sendq  []*sendWait[T]
	cvc    VC
	slots  []VC
	sendx  int
	recvx  int
}

// NewChan is make(chan T, n).
func NewChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	c := &Chan[T]{capn: n}
	if S != nil && S.Race {
		c.slots = make([]VC, n)
	}
	return c
}

func (c *Chan[T]) slot(i int) *VC {
	if len(c.slots) < c.capn {
		c.slots = make([]VC, c.capn)
	}
	return &c.slots[i]
}

func handoff(a, b *G) {
	s := S
	if !s.Race {
		return
	}
	a.vc.join(b.vc)
	b.vc.join(a.vc)
	a.vc.tick(a.ID)
	b.vc.tick(b.ID)
}

func (c *Chan[T]) popRecv() *recvWait[T] {
	for len(c.recvq) > 0 {
		r := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !r.w.fired {
			return r
		}
	}
	return nil
}

func (c *Chan[T]) popSend() *sendWait[T] {
	for len(c.sendq) > 0 {
		r := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !r.w.fired {
			return r
		}
	}
	return nil
}

func (c *Chan[T]) peekRecv() bool {
	for _, r := range c.recvq {
		if !r.w.fired {
			return true
		}
	}
	return false
}

func (c *Chan[T]) peekSend() bool {
	for _, r := range c.sendq {
		if !r.w.fired {
			return true
		}
	}
	return false
}

// trySend performs the send if it need not block.
func (c *Chan[T]) trySend(v T) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if S.cur != S.kernel && (len(c.buf) < c.capn || c.peekRecv()) {
		S.passed()
	}
	if r := c.popRecv(); r != nil {
		r.val, r.ok = v, true
		r.w.fired, r.w.idx = true, r.idx
		if c.capn > 0 && S.Race {
			sv := c.slot(c.sendx)
			Acquire(sv)
			Release(sv)
			r.w.g.vc.join(*sv)
			sv.join(r.w.g.vc)
			r.w.g.vc.tick(r.w.g.ID)
			c.sendx = (c.sendx + 1) % c.capn
			c.recvx = c.sendx
		} else {
			handoff(S.cur, r.w.g)
		}
		S.ready(r.w.g)
		return true
	}
	if len(c.buf) < c.capn {
		if S.Race {
			sv := c.slot(c.sendx)
			Acquire(sv)
			Release(sv)
			c.sendx = (c.sendx + 1) % c.capn
		}
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

// tryRecv performs the receive if it need not block.
func (c *Chan[T]) tryRecv() (v T, ok, done bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if S.Race {
			sv := c.slot(c.recvx)
			Acquire(sv)
			Release(sv)
			c.recvx = (c.recvx + 1) % c.capn
		}
		if w := c.popSend(); w != nil {
			w.w.fired, w.w.idx = true, w.idx
			c.buf = append(c.buf, w.val)
			if S.Race {
				sv := c.slot(c.sendx)
				w.w.g.vc.join(*sv)
				sv.join(w.w.g.vc)
				w.w.g.vc.tick(w.w.g.ID)
				c.sendx = (c.sendx + 1) % c.capn
			}
			S.ready(w.w.g)
		}
		return v, true, true
	}
	if w := c.popSend(); w != nil {
		w.w.fired, w.w.idx = true, w.idx
		handoff(S.cur, w.w.g)
		S.ready(w.w.g)
		return w.val, true, true
	}
	if c.closed {
		Acquire(&c.cvc)
		return v, false, true
	}
	return v, false, false
}

// SendTo returns the send operation of c; SendTo(c)(v) is c <- v.
func SendTo[T any](c *Chan[T]) func(T) {
	return func(v T) { c.send(v) }
}

func (c *Chan[T]) send(v T) {
	if Dying() {
		return
	}
	Sync()
	if c == nil {
		Block("send on nil channel")
		panic("unreachable")
	}
	if c.trySend(v) {
		return
	}
	w := &sendWait[T]{w: &waiter{g: S.cur}, val: v}
	c.sendq = append(c.sendq, w)
	for !w.w.fired {
		Block("chan send")
	}
	if w.closed {
		panic("send on closed channel")
	}
}

// Recv is <-c.
func Recv[T any](c *Chan[T]) T {
	v, _ := Recv2(c)
	return v
}

// Recv2 is v, ok := <-c.
func Recv2[T any](c *Chan[T]) (T, bool) {
	Sync()
	if c == nil {
		Block("receive on nil channel")
		panic("unreachable")
	}
	if v, ok, done := c.tryRecv(); done {
		return v, ok
	}
	w := &recvWait[T]{w: &waiter{g: S.cur}}
	c.recvq = append(c.recvq, w)
	for !w.w.fired {
		Block("chan receive")
	}
	return w.val, w.ok
}

// Close is close(c).
func Close[T any](c *Chan[T]) {
	if Dying() {
		return
	}
	Sync()
	c.CloseNow()
}

// CloseNow closes c without a scheduling point (for event callbacks).
func (c *Chan[T]) CloseNow() {
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	Release(&c.cvc)
	for r := c.popRecv(); r != nil; r = c.popRecv() {
		r.w.fired, r.w.idx = true, r.idx
		r.ok = false
		if S.Race {
			r.w.g.vc.join(c.cvc)
		}
		S.ready(r.w.g)
	}
	for r := c.popSend(); r != nil; r = c.popSend() {
		r.w.fired, r.w.idx = true, r.idx
		r.closed = true
		S.ready(r.w.g)
	}
}

// Closed reports whether c is closed (harness use).
func (c *Chan[T]) Closed() bool { return c.closed }

// TrySendNow sends without blocking or scheduling (for event callbacks).
func (c *Chan[T]) TrySendNow(v T) bool { return c.trySend(v) }

// Len is len(c).
func Len[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Cap is cap(c).
func Cap[T any](c *Chan[T]) int {
	if c == nil {
		return 0
	}
	return c.capn
}

// Case is one communication clause of a select statement.
type Case interface {
	ready() bool
	exec()
	enqueue(w *waiter, idx int)
	finish()
	cancel()
}

// RecvCase is a receive clause.
type RecvCase[T any] struct {
	c   *Chan[T]
	w   *recvWait[T]
	Val T
	Ok  bool
}

func CaseRecv[T any](c *Chan[T]) *RecvCase[T] { return &RecvCase[T]{c: c} }

func (k *RecvCase[T]) ready() bool {
	return k.c != nil && (len(k.c.buf) > 0 || k.c.closed || k.c.peekSend())
}
func (k *RecvCase[T]) exec() { k.Val, k.Ok, _ = k.c.tryRecv() }
func (k *RecvCase[T]) enqueue(w *waiter, idx int) {
	if k.c != nil {
		k.w = &recvWait[T]{w: w, idx: idx}
		k.c.recvq = append(k.c.recvq, k.w)
	}
}
func (k *RecvCase[T]) finish() { k.Val, k.Ok = k.w.val, k.w.ok }
func (k *RecvCase[T]) cancel() {
	if k.c != nil {
		for i, x := range k.c.recvq {
			if x == k.w {
				k.c.recvq = append(k.c.recvq[:i:i], k.c.recvq[i+1:]...)
				break
			}
		}
	}
}

type sendCase[T any] struct {
	c *Chan[T]
	v T
	w *sendWait[T]
}

// CaseSend is a send clause: CaseSend(c)(v).
func CaseSend[T any](c *Chan[T]) func(T) Case {
	return func(v T) Case { return &sendCase[T]{c: c, v: v} }
}

func (k *sendCase[T]) ready() bool {
	return k.c != nil && (k.c.closed || len(k.c.buf) < k.c.capn || k.c.peekRecv())
}
func (k *sendCase[T]) exec() { k.c.trySend(k.v) }
func (k *sendCase[T]) enqueue(w *waiter, idx int) {
	if k.c != nil {
		k.w = &sendWait[T]{w: w, idx: idx, val: k.v}
		k.c.sendq = append(k.c.sendq, k.w)
	}
}
func (k *sendCase[T]) finish() {
	if k.w.closed {
		panic("send on closed channel")
	}
}
func (k *sendCase[T]) cancel() {
	if k.c != nil {
		for i, x := range k.c.sendq {
			if x == k.w {
				k.c.sendq = append(k.c.sendq[:i:i], k.c.sendq[i+1:]...)
				break
			}
		}
	}
}

// Select runs a select statement and returns the index of the chosen clause,
// -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	Sync()
	var ready []int
	for i, c := range cases {
		if c.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[Choose(StSelect, len(ready))]
		cases[i].exec()
		return i
	}
	if hasDefault {
		return -1
	}
	w := &waiter{g: S.cur}
	for i, c := range cases {
		c.enqueue(w, i)
	}
	for !w.fired {
		Block("select")
	}
	for i, c := range cases {
		if i != w.idx {
			c.cancel()
		}
	}
	cases[w.idx].finish()
	return w.idx
}

// MapKeys returns the keys of m in an order decided by the simulator.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) > 1 {
		sortKeys(keys)
		if S != nil && !S.dying {
			// one decision rotates the order, one reverses it
			r := Choose(StSelect, len(keys))
			rev := Choose(StSelect, 2) == 1
			keys = append(keys[r:len(keys):len(keys)], keys[:r]...)
			if rev {
				slices.Reverse(keys)
			}
		}
	}
	return keys
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []int:
		slices.Sort(ks)
	case []int16:
		slices.Sort(ks)
	case []int32:
		slices.Sort(ks)
	case []int64:
		slices.Sort(ks)
	case []string:
		slices.Sort(ks)
	default:
		t := reflect.TypeOf(keys).Elem()
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(reflect.ValueOf(a).Int(), reflect.ValueOf(b).Int()) })
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(reflect.ValueOf(a).Uint(), reflect.ValueOf(b).Uint()) })
		default:
			if t.Kind() == reflect.Pointer || t.Kind() == reflect.Chan || t.Kind() == reflect.Interface {
				return // no stable order exists; see DESIGN.md
			}
			sort.SliceStable(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		}
	}
}

// WaitEither parks the current goroutine until done is closed or it is made
// ready by someone else.
func WaitEither(done *Chan[struct{}], reason string) {
	w := &recvWait[struct{}]{w: &waiter{g: S.cur}}
	done.recvq = append(done.recvq, w)
	Block(reason)
	w.w.fired = true
	for i, x := range done.recvq {
		if x == w {
			done.recvq = append(done.recvq[:i:i], done.recvq[i+1:]...)
			break
		}
	}
}

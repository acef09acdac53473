// Package simnet is the simulated network: TCP-like connections between the
// client code under test and simulated servers, with every delay, cut and fault
// taken from the simulator's decisions.
package simnet

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"vsim/rt"
)

// N is the network of the run in progress.
var N *Net

// Net is a simulated network.
type Net struct {
	Resolve func(d *Dial) Outcome
	Conns   []*Conn
	Dials   []*Dial
}

// Reset installs a fresh network.
func Reset(resolve func(d *Dial) Outcome) *Net {
	N = &Net{Resolve: resolve}
	return N
}

// Settings are the caller-visible dialer settings of a dial.
type Settings struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	KeepAlive       time.Duration
	FallbackDelay   time.Duration
	Custom          any // the Control function pointer, if any
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	DualStack       bool
	CustomContext   uintptr // identity of ControlContext
}

// Dial is one dial attempt.
type Dial struct {
	Seq      int
	Network  string
	Addr     string
	Settings Settings
	Start    int64
	Conn     *Conn
	Err      error
	Pending  bool
	G        *rt.G // goroutine that dialled
}

// Outcome is what becomes of a dial.
type Outcome struct {
	Delay  int64
	Err    error
	Hang   bool
	Server Server
	// Setup lets the resolver configure the connection before it is used.
	Setup func(c *Conn)
}

// Server is the far end of a connection; its methods run as events.
type Server interface {
	Accept(c *Conn)
	Data(c *Conn, b []byte)
	ClientClosed(c *Conn)
	TLS(c *Conn, serverName string) TLSOutcome
}

// TLSOutcome is what becomes of a TLS handshake.
type TLSOutcome struct {
	Delay int64
	Err   error
	Hang  bool
	Name  string // name in the server's certificate

	Untrusted bool // the certificate is by an unknown authority
}

func opErr(op, addr string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: Addr(addr), Err: err}
}

// Addr is a simulated address.
type Addr string

func (Addr) Network() string  { return "tcp" }
func (a Addr) String() string { return string(a) }

// ErrRefused etc. are the errors the simulated kernel reports.
var (
	ErrRefused  = os.NewSyscallError("connect", syscall.ECONNREFUSED)
	ErrReset    = os.NewSyscallError("read", syscall.ECONNRESET)
	ErrTimedOut = os.NewSyscallError("read", syscall.ETIMEDOUT) // keep-alive or retransmission gave up
	ErrNoRoute  = os.NewSyscallError("read", syscall.EHOSTUNREACH)
	ErrPipe     = os.NewSyscallError("write", syscall.EPIPE)
	ErrWReset   = os.NewSyscallError("write", syscall.ECONNRESET)
	ErrTimeout  = os.NewSyscallError("connect", syscall.ETIMEDOUT)
	ErrIO       = os.NewSyscallError("read", syscall.ETIMEDOUT)
	ErrNoMemory = os.NewSyscallError("write", syscall.ENOBUFS)
)

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Is(err error) bool {
	return err == os.ErrDeadlineExceeded || err == context.DeadlineExceeded
}

// Connect dials addr. done, when not nil, is the caller's cancellation.
func Connect(network, addr string, st Settings, done *rt.Chan[struct{}], ctxErr func() error) (*Conn, error) {
	rt.Sync()
	n := N
	d := &Dial{Seq: len(n.Dials), Network: network, Addr: addr, Settings: st, Start: rt.Now(), Pending: true, G: rt.Cur()}
	n.Dials = append(n.Dials, d)
	fail := func(err error) (*Conn, error) {
		d.Pending = false
		d.Err = opErr("dial", addr, err)
		rt.Note("dial %s failed: %v", addr, err)
		return nil, d.Err
	}
	if !strings.HasPrefix(network, "tcp") {
		return fail(net.UnknownNetworkError(network))
	}
	host, port, err := net.SplitHostPort(addr)
	if err != nil {
		d.Pending = false
		d.Err = &net.OpError{Op: "dial", Net: network, Err: err}
		return nil, d.Err
	}
	if p, err := strconv.Atoi(port); err != nil || p < 0 || p > 65535 {
		return fail(&net.AddrError{Err: "invalid port", Addr: port})
	}
	_ = host
	out := n.Resolve(d)
	if out.Err == nil && out.Server == nil && !out.Hang {
		out.Err = ErrRefused
	}
	g := rt.Cur()
	state := 0 // 1: finished, 2: timed out
	var evs []*rt.Event
	wake := func(s int) func() {
		return func() {
			if state == 0 {
				state = s
				rt.Ready(g)
			}
		}
	}
	if !out.Hang {
		evs = append(evs, rt.After(out.Delay, wake(1)))
	} else {
		rt.Count("fault.dial_hang")
	}
	if st.Timeout > 0 {
		evs = append(evs, rt.After(int64(st.Timeout), wake(2)))
	}
	if !st.Deadline.IsZero() {
		evs = append(evs, rt.At(st.Deadline.Sub(Epoch).Nanoseconds(), wake(2)))
	}
	if done != nil {
		// park on the cancellation channel as well, by way of a helper select
		if waitOrDone(done, &state) {
			for _, e := range evs {
				e.Stop()
			}
			d.Pending = false
			return fail(mapCtxErr(ctxErr()))
		}
	} else {
		for state == 0 {
			rt.Block("dial " + addr)
		}
	}
	for _, e := range evs {
		e.Stop()
	}
	if state == 2 {
		rt.Count("fault.dial_timeout")
		return fail(timeoutErr{})
	}
	if out.Err != nil {
		rt.Count("fault.dial_refused")
		return fail(out.Err)
	}
	c := &Conn{ID: len(n.Conns), Addr: addr, Server: out.Server, Dial: d, CutAt: -1, FailWriteAt: -1}
	n.Conns = append(n.Conns, c)
	d.Conn = c
	d.Pending = false
	if out.Setup != nil {
		out.Setup(c)
	}
	rt.Note("conn %d to %s established", c.ID, addr)
	c.Server.Accept(c)
	return c, nil
}

func mapCtxErr(err error) error { return err }

// waitOrDone blocks until *state is set or done is closed; true means done.
func waitOrDone(done *rt.Chan[struct{}], state *int) bool {
	for *state == 0 {
		if done.Closed() {
			return true
		}
		rt.WaitEither(done, "dial")
	}
	return false
}

// Epoch is virtual time zero.
var Epoch = time.Unix(1577836800, 0).UTC()

// Conn is the client end of a simulated connection.
type Conn struct {
	ID      int
	Addr    string
	Server  Server
	Dial    *Dial
	TLS     bool // handshake completed
	TLSConf any  // configuration the client used for the handshake

	in       []byte
	inTotal  int64 // bytes that have arrived
	Consumed int64 // bytes returned by Read
	inErr    error
	ErrRead  bool   // the inbound error has been returned by Read
	ErrAt    uint64 // step at which the first error was reported to the library (0: none)
	Reads    int

	queued  []segment // sent by the server, not yet arrived
	sending bool
	SentIn  int64 // bytes the server has sent
	lastIn  int64
	Stalled bool   // inbound held back
	OnEnd   func() // called when the inbound stream ends
	CutAt   int64
	CutErr  error

	Written           int64 // bytes accepted by Write
	lastOut           int64
	OutLog            []byte // bytes that reached the server
	FailWriteAt       int64
	WriteErr          error
	WriteTrans        bool // the injected write error is transient
	writeBroken       error
	WriteFailed       bool // an injected write failure has been reported to the writer
	writing           bool
	BytesAfterFailure int64
	StallOut          bool  // outbound blocks
	Window            int64 // bytes in flight allowed before Write blocks (0: unlimited)
	inFlight          int64

	CutMode  int // segmentation of reads
	Latency  func() int64
	closed   bool
	ClosedAt uint64
	srvGone  bool // server end closed or reset
	waiters  []*rt.G
	rdl, wdl int64
	rev, wev *rt.Event
	User     any
	PlainOut int64 // bytes written outside TLS
}

type segment struct {
	b   []byte
	err error
}

func (c *Conn) wakeAll() {
	w := c.waiters
	c.waiters = nil
	for _, g := range w {
		rt.Ready(g)
	}
}

func (c *Conn) wait(reason string) {
	c.waiters = append(c.waiters, rt.Cur())
	rt.Block(reason)
}

func (c *Conn) noteErr() {
	if c.ErrAt == 0 {
		c.ErrAt = rt.Step() + 1
	}
}

// Lost reports whether the inbound stream has ended at the client.
func (c *Conn) Lost() bool { return c.inErr != nil }

// InWrite reports whether a Write is in progress.
func (c *Conn) InWrite() bool { return c.writing }

// Alive reports whether the server end can still send.
func (c *Conn) Alive() bool { return !c.srvGone }

// Open reports whether the client has not closed its end.
func (c *Conn) Open() bool { return !c.closed }

// Dead reports whether the connection has been torn down by a fault or the peer.
func (c *Conn) Dead() bool { return c.inErr != nil || c.srvGone }

func (c *Conn) Read(p []byte) (int, error) {
	n, err := c.read(p)
	rt.Linger()
	return n, err
}

func (c *Conn) Write(p []byte) (int, error) {
	n, err := c.write(p)
	rt.Linger()
	return n, err
}

func (c *Conn) read(p []byte) (int, error) {
	rt.Sync()
	c.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, opErr("read", c.Addr, net.ErrClosed)
		}
		if c.rdl != 0 && rt.Now() >= c.rdl {
			if c.Stalled {
				c.noteErr() // otherwise the library's own doing
			}
			return 0, opErr("read", c.Addr, timeoutErr{})
		}
		if len(c.in) > 0 {
			n := len(c.in)
			if n > len(p) {
				n = len(p)
			}
			n = c.cut(n)
			copy(p, c.in[:n])
			rt.WrRange(p, n, "net.Conn.Read")
			c.in = c.in[n:]
			c.Consumed += int64(n)
			rt.Progress()
			rt.MixHash(uint64(n) + 77)
			if c.TLS && len(c.in) == 0 && c.inErr == io.EOF && rt.Chance(rt.StNet, .7) {
				// as crypto/tls does if the close alert is already there
				rt.Count("fault.data_with_eof")
				c.ErrRead = true
				c.noteErr()
				return n, io.EOF
			}
			return n, nil
		}
		if c.inErr != nil {
			c.ErrRead = true
			c.noteErr()
			if c.inErr == io.EOF {
				return 0, io.EOF
			}
			return 0, opErr("read", c.Addr, c.inErr)
		}
		c.wait("conn read")
	}
}

func (c *Conn) cut(n int) int {
	if n <= 1 || c.CutMode == 0 {
		return n
	}
	switch c.CutMode {
	case 1: // occasionally short
		if rt.Chance(rt.StNet, 0.25) {
			rt.Count("fault.short_read")
			return 1 + rt.Choose(rt.StNet, n)%n
		}
	case 2: // small pieces
		m := 1 + rt.Choose(rt.StNet, 8)
		if m < n {
			rt.Count("fault.short_read")
			return m
		}
	case 3: // single bytes
		rt.Count("fault.short_read")
		return 1
	case 4: // all but the last byte
		rt.Count("fault.short_read")
		return n - 1
	}
	return n
}

func (c *Conn) write(p []byte) (int, error) {
	rt.Sync()
	for c.writing && !c.closed {
		c.wait("conn write lock")
	}
	c.writing = true
	defer func() {
		c.writing = false
		if !rt.Dying() {
			c.wakeAll()
		}
	}()
	for {
		if len(p) == 0 {
			return 0, nil // as an empty buffer among others
		}
		if c.closed {
			return 0, opErr("write", c.Addr, net.ErrClosed)
		}
		if c.wdl != 0 && rt.Now() >= c.wdl {
			if c.StallOut || c.Window != 0 {
				c.noteErr() // otherwise the library's own doing
			}
			return 0, opErr("write", c.Addr, timeoutErr{})
		}
		if c.writeBroken != nil {
			c.noteErr()
			c.WriteFailed = true
			return 0, opErr("write", c.Addr, c.writeBroken)
		}
		if !c.StallOut && (c.Window == 0 || c.inFlight == 0 || c.inFlight+int64(len(p)) <= c.Window) {
			break
		}
		rt.Count("fault.write_blocked")
		c.wait("conn write")
	}
	rt.Progress()
	rt.RdRange(p, len(p), "net.Conn.Write")
	if c.WriteFailed {
		c.BytesAfterFailure += int64(len(p))
	}
	if !c.TLS {
		c.PlainOut += int64(len(p))
	}
	if c.FailWriteAt >= 0 && c.Written+int64(len(p)) > c.FailWriteAt {
		k := int(c.FailWriteAt - c.Written)
		if k < 0 {
			k = 0
		}
		c.deliverOut(p[:k])
		c.FailWriteAt = -1
		c.WriteFailed = true
		c.noteErr()
		rt.Count("fault.write_error")
		if k > 0 {
			rt.Count("fault.partial_write")
		}
		err := c.WriteErr
		if err == nil {
			err = ErrPipe
		}
		if !c.WriteTrans || c.TLS {
			c.writeBroken = err
		}
		rt.Note("conn %d write of %d bytes fails after %d: %v", c.ID, len(p), k, err)
		return k, opErr("write", c.Addr, err)
	}
	c.deliverOut(p)
	return len(p), nil
}

func (c *Conn) deliverOut(p []byte) {
	if len(p) == 0 {
		return
	}
	b := append([]byte(nil), p...)
	c.Written += int64(len(b))
	c.inFlight += int64(len(b))
	t := rt.Now() + c.latency()
	if t < c.lastOut {
		t = c.lastOut
	}
	c.lastOut = t
	rt.At(t, func() {
		c.inFlight -= int64(len(b))
		c.OutLog = append(c.OutLog, b...)
		if !c.srvGone {
			c.Server.Data(c, b)
		}
		c.wakeAll()
	})
}

func (c *Conn) latency() int64 {
	if c.Latency != nil {
		return c.Latency()
	}
	return 1e6
}

func (c *Conn) Close() error {
	if rt.Dying() {
		return nil
	}
	rt.Sync()
	if c.closed {
		return opErr("close", c.Addr, net.ErrClosed)
	}
	c.closed = true
	c.ClosedAt = rt.Step()
	rt.Note("conn %d closed by client", c.ID)
	c.rev.Stop()
	c.wev.Stop()
	c.wakeAll()
	rt.After(c.latency(), func() {
		if !c.srvGone {
			c.Server.ClientClosed(c)
		}
	})
	return nil
}

// Send queues bytes from the server towards the client, split into the given
// segments (nil: one segment).
func (c *Conn) Send(b []byte) {
	if c.srvGone || len(b) == 0 {
		return
	}
	c.SentIn += int64(len(b))
	c.push(segment{b: append([]byte(nil), b...)})
}

// ServerClose ends the server's side in order, after the data sent so far.
func (c *Conn) ServerClose() {
	if c.srvGone {
		return
	}
	c.push(segment{err: io.EOF})
	c.srvGone = true
	c.breakWrites(ErrPipe)
}

// Reset tears the connection down: bytes not yet arrived are lost.
func (c *Conn) Reset() {
	c.queued = nil
	c.srvGone = true
	c.breakWrites(ErrWReset)
	c.push(segment{err: ErrReset})
}

func (c *Conn) breakWrites(err error) {
	rt.After(c.latency(), func() {
		if c.writeBroken == nil {
			c.writeBroken = err
		}
		c.wakeAll()
	})
}

func (c *Conn) push(s segment) {
	c.queued = append(c.queued, s)
	t := rt.Now() + c.latency()
	if t < c.lastIn {
		t = c.lastIn
	}
	c.lastIn = t
	rt.At(t, func() {
		if !c.Stalled {
			c.arriveOne()
		}
	})
}

func (c *Conn) arriveOne() {
	if len(c.queued) == 0 {
		return
	}
	s := c.queued[0]
	c.queued = c.queued[1:]
	if c.inErr != nil {
		return
	}
	if s.err != nil {
		c.inErr = s.err
		rt.Note("conn %d inbound ends: %v", c.ID, s.err)
		c.wakeAll()
		if c.OnEnd != nil {
			c.OnEnd()
		}
		return
	}
	b := s.b
	if c.CutAt >= 0 && c.inTotal+int64(len(b)) >= c.CutAt {
		b = b[:c.CutAt-c.inTotal]
		c.inErr = c.CutErr
		if c.inErr == nil {
			c.inErr = io.EOF
		}
		c.srvGone = true
		c.breakWrites(ErrPipe)
		rt.Count("fault.stream_cut")
		rt.Note("conn %d inbound cut at byte %d: %v", c.ID, c.CutAt, c.inErr)
	}
	c.in = append(c.in, b...)
	c.inTotal += int64(len(b))
	rt.MixHash(uint64(len(b)) + 99)
	c.wakeAll()
	if c.inErr != nil && c.OnEnd != nil {
		c.OnEnd()
	}
}

// Unstall lets held inbound segments arrive.
func (c *Conn) Unstall() {
	if !c.Stalled {
		return
	}
	c.Stalled = false
	for len(c.queued) > 0 {
		c.arriveOne()
	}
}

// UnstallOut lets blocked writes proceed.
func (c *Conn) UnstallOut() {
	c.StallOut = false
	c.wakeAll()
}

// Arrived returns the number of inbound bytes that reached the client's kernel.
func (c *Conn) Arrived() int64 { return c.inTotal }

func (c *Conn) LocalAddr() net.Addr {
	if c.Dial.Settings.LocalAddr != nil {
		return c.Dial.Settings.LocalAddr
	}
	return Addr(fmt.Sprintf("client:%d", 40000+c.ID))
}
func (c *Conn) RemoteAddr() net.Addr { return Addr(c.Addr) }

func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", c.Addr, net.ErrClosed)
	}
	c.rev.Stop()
	c.rdl = 0
	if !t.IsZero() {
		c.rdl = t.Sub(Epoch).Nanoseconds()
		if c.rdl <= 0 {
			c.rdl = 1
		}
		c.rev = rt.At(c.rdl, c.wakeAll)
	}
	c.wakeAll()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return opErr("set", c.Addr, net.ErrClosed)
	}
	c.wev.Stop()
	c.wdl = 0
	if !t.IsZero() {
		c.wdl = t.Sub(Epoch).Nanoseconds()
		if c.wdl <= 0 {
			c.wdl = 1
		}
		c.wev = rt.At(c.wdl, c.wakeAll)
	}
	c.wakeAll()
	return nil
}

// Socket options of *net.TCPConn that client code may set.
func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetKeepAliveConfig(net.KeepAliveConfig) error {
	return nil
}
func (c *Conn) SetLinger(int) error         { return nil }
func (c *Conn) SetReadBuffer(int) error     { return nil }
func (c *Conn) SetWriteBuffer(int) error    { return nil }
func (c *Conn) MultipathTCP() (bool, error) { return false, nil }
func (c *Conn) File() (*os.File, error)     { return nil, opErr("file", c.Addr, syscall.EINVAL) }
func (c *Conn) SyscallConn() (syscall.RawConn, error) {
	return nil, opErr("raw", c.Addr, syscall.EINVAL)
}

// ReadFrom implements io.ReaderFrom.
func (c *Conn) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c}, r)
}

// WriteTo implements io.WriterTo.
func (c *Conn) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{c})
}

// CloseRead shuts the reading side down.
func (c *Conn) CloseRead() error {
	rt.Sync()
	if c.closed {
		return opErr("close", c.Addr, net.ErrClosed)
	}
	if c.inErr == nil {
		c.inErr = io.EOF
	}
	c.wakeAll()
	return nil
}

// CloseWrite shuts the writing side down; the broker ends the connection when it
// sees that.
func (c *Conn) CloseWrite() error {
	rt.Sync()
	if c.closed {
		return opErr("close", c.Addr, net.ErrClosed)
	}
	if c.writeBroken == nil {
		c.writeBroken = ErrPipe
	}
	c.wakeAll()
	t := rt.Now() + c.latency()
	if t < c.lastOut {
		t = c.lastOut
	}
	rt.At(t, func() {
		if !c.srvGone {
			c.Server.ClientClosed(c)
			c.ServerClose()
		}
	})
	return nil
}

var errHandshakeAborted = errors.New("tls: handshake aborted")

// Handshake performs the simulated TLS handshake.
func (c *Conn) Handshake(serverName string, insecure bool, timeout int64) error {
	rt.Sync()
	if c.TLS {
		return nil
	}
	if c.closed {
		return opErr("write", c.Addr, net.ErrClosed)
	}
	out := c.Server.TLS(c, serverName)
	done := false
	timedOut := false
	var evs []*rt.Event
	if !out.Hang {
		evs = append(evs, rt.After(out.Delay, func() { done = true; c.wakeAll() }))
	} else {
		rt.Count("fault.tls_hang")
	}
	if timeout > 0 {
		evs = append(evs, rt.After(timeout, func() { timedOut = true; c.wakeAll() }))
	}
	defer func() {
		if !rt.Dying() {
			for _, e := range evs {
				e.Stop()
			}
		}
	}()
	for !done && !timedOut && !c.closed && c.inErr == nil {
		if c.rdl != 0 && rt.Now() >= c.rdl {
			break
		}
		c.wait("tls handshake")
	}
	switch {
	case c.closed:
		return opErr("read", c.Addr, net.ErrClosed)
	case c.inErr != nil:
		return c.inErr
	case !done:
		return timeoutErr{}
	}
	if out.Err != nil {
		rt.Count("fault.tls_failed")
		return out.Err
	}
	if !insecure && !strings.EqualFold(out.Name, serverName) {
		rt.Count("fault.tls_bad_cert")
		if out.Untrusted {
			return &tls.CertificateVerificationError{Err: x509.UnknownAuthorityError{}}
		}
		return fmt.Errorf("tls: failed to verify certificate: x509: certificate is valid for %s, not %s", out.Name, serverName)
	}
	c.TLS = true
	return nil
}

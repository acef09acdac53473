// Package net replaces the standard package in instrumented code: dialling goes
// to the simulated network, everything else is the standard package's.
package net

import (
	"io"
	"net"
	"reflect"
	"syscall"
	"time"

	"vsim/rt"
	"vsim/simnet"
	"vsim/std/context"
)

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          *rt.Chan[struct{}]
	Control         func(network, address string, c syscall.RawConn) error
	ControlContext  func(ctx context.Context, network, address string, c syscall.RawConn) error
}

func (d *Dialer) settings() simnet.Settings {
	s := simnet.Settings{Timeout: d.Timeout, Deadline: d.Deadline, LocalAddr: d.LocalAddr, KeepAlive: d.KeepAlive, FallbackDelay: d.FallbackDelay,
		KeepAliveConfig: d.KeepAliveConfig, Resolver: d.Resolver, DualStack: d.DualStack}
	if d.ControlContext != nil {
		s.CustomContext = reflect.ValueOf(d.ControlContext).Pointer()
	}
	if d.Control != nil {
		s.Custom = reflect.ValueOf(d.Control).Pointer()
	}
	return s
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, address)
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if ctx == nil {
		panic("nil context")
	}
	st := d.settings()
	if dl, ok := ctx.Deadline(); ok && (st.Deadline.IsZero() || dl.Before(st.Deadline)) {
		st.Deadline = dl
	}
	done, why := ctx.Done(), ctx.Err
	if done == nil && d.Cancel != nil {
		done, why = d.Cancel, func() error { return context.Canceled }
	}
	if done != nil && done.Closed() {
		return nil, &net.OpError{Op: "dial", Net: network, Err: mapErr(why())}
	}
	c, err := simnet.Connect(network, address, st, done, func() error { return mapErr(why()) })
	if err != nil {
		return nil, err
	}
	return c, nil
}

type canceledError struct{}

func (canceledError) Error() string        { return "operation was canceled" }
func (canceledError) Is(target error) bool { return target == context.Canceled }

type timeoutError struct{}

func (timeoutError) Error() string        { return "i/o timeout" }
func (timeoutError) Timeout() bool        { return true }
func (timeoutError) Temporary() bool      { return true }
func (timeoutError) Is(target error) bool { return target == context.DeadlineExceeded }

func mapErr(err error) error {
	switch err {
	case context.Canceled:
		return canceledError{}
	case context.DeadlineExceeded:
		return timeoutError{}
	}
	return err
}

func (d *Dialer) SetMultipathTCP(bool) {}
func (d *Dialer) MultipathTCP() bool   { return false }

func Dial(network, address string) (net.Conn, error) {
	return (&Dialer{}).Dial(network, address)
}

func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return (&Dialer{Timeout: timeout}).Dial(network, address)
}

// TCPConn stands for *net.TCPConn in type assertions.
type TCPConn = simnet.Conn

// DialTCP acts like Dial for TCP networks.
func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	d := &Dialer{}
	if laddr != nil {
		d.LocalAddr = laddr
	}
	c, err := d.Dial(network, raddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// LookupHost resolves a name to itself: the simulated network knows nodes by name.
func LookupHost(host string) ([]string, error) { return []string{host}, nil }

// Buffers holds parts of data to be written with one system call.
type Buffers [][]byte

// WriteTo writes the parts: at once to a TCP connection, else one by one.
func (v *Buffers) WriteTo(w io.Writer) (n int64, err error) {
	if c, ok := w.(*simnet.Conn); ok && !c.TLS {
		var all []byte
		for _, b := range *v {
			all = append(all, b...)
		}
		if len(all) == 0 {
			return 0, nil
		}
		k, err := c.Write(all)
		v.consume(int64(k))
		return int64(k), err
	}
	for _, b := range *v {
		k, err := w.Write(b)
		n += int64(k)
		if err != nil {
			v.consume(n)
			return n, err
		}
	}
	v.consume(n)
	return n, nil
}

// Read reads from the parts.
func (v *Buffers) Read(p []byte) (n int, err error) {
	for len(p) > 0 && len(*v) > 0 {
		k := copy(p, (*v)[0])
		v.consume(int64(k))
		p = p[k:]
		n += k
	}
	if len(*v) == 0 {
		err = io.EOF
	}
	return n, err
}

func (v *Buffers) consume(n int64) {
	for len(*v) > 0 {
		k := int64(len((*v)[0]))
		if k > n {
			(*v)[0] = (*v)[0][n:]
			return
		}
		n -= k
		(*v)[0] = nil
		*v = (*v)[1:]
	}
}

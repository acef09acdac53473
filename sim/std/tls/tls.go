// Package tls replaces crypto/tls in instrumented code. The handshake is a stub
// that keeps what matters to a client: whether it took place before any data,
// with which server name, and whether the peer's certificate was verified.
package tls

import (
	"crypto/tls"
	"errors"
	"net"
	"strings"
	"time"

	"vsim/rt"
	"vsim/simnet"
	"vsim/std/context"
	simnetstd "vsim/std/net"
	simtime "vsim/std/time"
)

// Conn is a simulated TLS client connection.
type Conn struct {
	raw    net.Conn
	cfg    *tls.Config
	done   bool
	hsErr  error
	inHS   bool
	waiter []*rt.G
}

// Client wraps a connection.
func Client(conn net.Conn, config *tls.Config) *Conn { return &Conn{raw: conn, cfg: config} }

func (c *Conn) Handshake() error { return c.HandshakeContext(context.Background()) }

func (c *Conn) HandshakeContext(ctx context.Context) error {
	if c.done {
		return nil
	}
	if c.hsErr != nil {
		return c.hsErr
	}
	for c.inHS {
		c.waiter = append(c.waiter, rt.Cur())
		rt.Block("tls handshake lock")
	}
	if c.done || c.hsErr != nil {
		return c.hsErr
	}
	sc, ok := c.raw.(*simnet.Conn)
	if !ok {
		return errors.New("tls: not a simulated connection")
	}
	cfg := c.cfg
	if cfg == nil {
		cfg = &tls.Config{}
	}
	if cfg.ServerName == "" && !cfg.InsecureSkipVerify {
		c.hsErr = errors.New("tls: either ServerName or InsecureSkipVerify must be specified in the tls.Config")
		return c.hsErr
	}
	c.inHS = true
	sc.TLSConf = cfg
	var stop func() bool
	if ctx.Done() != nil {
		stop = context.AfterFunc(ctx, func() { sc.Close() })
	}
	err := sc.Handshake(cfg.ServerName, cfg.InsecureSkipVerify, 0)
	if stop != nil && !stop() && ctx.Err() != nil {
		err = ctx.Err()
	}
	c.inHS = false
	for _, g := range c.waiter {
		rt.Ready(g)
	}
	c.waiter = nil
	if err != nil {
		c.hsErr = err
		return err
	}
	c.done = true
	return nil
}

func (c *Conn) Read(p []byte) (int, error) {
	if err := c.Handshake(); err != nil {
		return 0, err
	}
	return c.raw.Read(p)
}

func (c *Conn) Write(p []byte) (int, error) {
	if err := c.Handshake(); err != nil {
		return 0, err
	}
	return c.raw.Write(p)
}

func (c *Conn) Close() error                       { return c.raw.Close() }
func (c *Conn) CloseWrite() error                  { return nil }
func (c *Conn) LocalAddr() net.Addr                { return c.raw.LocalAddr() }
func (c *Conn) RemoteAddr() net.Addr               { return c.raw.RemoteAddr() }
func (c *Conn) SetDeadline(t time.Time) error      { return c.raw.SetDeadline(t) }
func (c *Conn) SetReadDeadline(t time.Time) error  { return c.raw.SetReadDeadline(t) }
func (c *Conn) SetWriteDeadline(t time.Time) error { return c.raw.SetWriteDeadline(t) }
func (c *Conn) NetConn() net.Conn                  { return c.raw }
func (c *Conn) ConnectionState() tls.ConnectionState {
	return tls.ConnectionState{HandshakeComplete: c.done}
}
func (c *Conn) VerifyHostname(host string) error { return nil }

// DialWithDialer follows crypto/tls: the dialer's timeout covers the handshake.
func DialWithDialer(dialer *simnetstd.Dialer, network, addr string, config *tls.Config) (*Conn, error) {
	return dial(context.Background(), dialer, network, addr, config)
}

func dial(ctx context.Context, d *simnetstd.Dialer, network, addr string, config *tls.Config) (*Conn, error) {
	if d.Timeout != 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, d.Timeout)
		defer cancel()
	}
	if !d.Deadline.IsZero() {
		var cancel context.CancelFunc
		ctx, cancel = context.WithDeadline(ctx, d.Deadline)
		defer cancel()
	}
	raw, err := d.DialContext(ctx, network, addr)
	if err != nil {
		return nil, err
	}
	colon := strings.LastIndex(addr, ":")
	if colon == -1 {
		colon = len(addr)
	}
	host := addr[:colon]
	if config == nil {
		config = &tls.Config{}
	}
	if config.ServerName == "" {
		c := config.Clone()
		c.ServerName = host
		config = c
	}
	conn := Client(raw, config)
	if err := conn.HandshakeContext(ctx); err != nil {
		raw.Close()
		return nil, err
	}
	return conn, nil
}

func Dial(network, addr string, config *tls.Config) (*Conn, error) {
	return DialWithDialer(new(simnetstd.Dialer), network, addr, config)
}

// Dialer mirrors tls.Dialer.
type Dialer struct {
	NetDialer *simnetstd.Dialer
	Config    *tls.Config
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(context.Background(), network, addr)
}

func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	nd := d.NetDialer
	if nd == nil {
		nd = new(simnetstd.Dialer)
	}
	c, err := dial(ctx, nd, network, addr, d.Config)
	if err != nil {
		return nil, err
	}
	return c, nil
}

var _ = simtime.Now

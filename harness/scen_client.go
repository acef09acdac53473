package main

import (
	"crypto/tls"
	"crypto/x509"
	"errors"
	"io"
	"net"
	"reflect"
	"strconv"
	"strings"
	"syscall"
	"time"

	kafka "github.com/savaki/kafka"
	"github.com/savaki/kafka/message"
	"vsim/rt"
	"vsim/simnet"
	"vsim/std/context"
	simstd "vsim/std/net"
)

// behaviours of a simulated server towards one operation
const (
	bHealthy = iota
	bRefuse
	bDialHang
	bCrashAccept
	bCrashNego
	bCutNego
	bBadNego
	bIncompatible
	bCrashQuery
	bCutQuery
	bBadQuery
	bWriteFail
	bReset
	bStallNego
	bStallQuery
	bTLSBadCert
	bTLSFail
	bTLSHang
	bDialSlow
	bNoMoreHealthy // number of behaviours
)

var behaveName = []string{"healthy", "refuse", "dial-hang", "crash-at-accept", "crash-in-negotiation", "cut-in-negotiation",
	"bad-negotiation", "incompatible", "crash-in-query", "cut-in-query", "bad-answer", "write-failure", "reset", "stall-negotiation", "stall-query",
	"tls-bad-certificate", "tls-failure", "tls-hang", "dial-times-out"}

type answer struct {
	l    *Link
	f    *Frame
	key  int16
	ver  int
	addr string // address the answer names for the operation, "" if none
	val  []byte // canonical response
	end  int64  // offset of the end of its frame in the inbound stream
}

// Op is one operation of a client.
type Op struct {
	id        int
	w         *World
	cw        *clientWorld
	cfg       *clientCfg
	mood      int // 1: all its servers are healthy, 2: all of them hang
	kind      int // 0 Metadata, 1 DialController, 2 DialLeader, 3 DialGroupCoordinator
	topics    []string
	topic     string
	partition int32
	group     string
	ctx       context.Context
	hasCtx    bool

	g          *rt.G
	started    bool
	done       bool
	err        error
	meta       message.MetadataResponse
	b          *kafka.Broker
	start, end uint64
	startT     int64
	skipped    int64 // how much of the time was the scheduler's doing
	endT       int64
	behave     map[string]int
	answers    []answer
	link       *Link

	cancelled   bool // the cancellation has taken effect
	cancelBegun bool
	beginT      int64 // when
	cancelT     int64
	cancelIdle  bool
	cancelFired uint64
	preCancel   bool
	endFired    uint64
	idleSeen    bool
	leaked      string
}

var groupNames = []string{"g0", "g1", "g2", "g3", "G1", "g1 ", " g2", "a.b-c_d", "gruppe-ä"}

var opName = []string{"Metadata", "DialController", "DialLeader", "DialGroupCoordinator"}

type nodeInfo struct {
	id   int32
	host string
	port int32
}

func (n nodeInfo) addr() string { return net.JoinHostPort(n.host, strconv.Itoa(int(n.port))) }

type clientWorld struct {
	w         *World
	nodes     []nodeInfo
	ops       []*Op
	links     map[*Link]*Op
	badWeight float64
	hangs     bool
	topicSet  []string
	parts     []int32 // partitions there are
	handed    []*Handle
	hostile   bool
	use       float64 // how often a broker is used while operations go on
}

// clientCfg is a client and what it was configured with.
type clientCfg struct {
	cl        *kafka.Client
	bootstrap []string
	tls       *tls.Config
	tlsWas    *tls.Config // what it was when it was configured
	wantName  string      // server name verified, "" for the host
	dialer    *simstd.Dialer
}

func controlContextHook(ctx context.Context, network, address string, c syscall.RawConn) error {
	return nil
}

func controlHook(network, address string, c syscall.RawConn) error { return nil }

// options draws the connection options of a client.
func (cf *clientCfg) options(w *World) []kafka.Option {
	var out []kafka.Option
	if rt.Chance(rt.StWork, .3) {
		out = append(out, kafka.WithDialer(&simstd.Dialer{Timeout: 7 * time.Second}))
		out = append(out, kafka.WithDialer(nil))
	}
	if rt.Chance(rt.StWork, .6) {
		d := &simstd.Dialer{}
		if rt.Chance(rt.StWork, .6) {
			d.Timeout = time.Duration(100+rt.Choose(rt.StWork, 300)) * 100 * time.Millisecond
		}
		if rt.Chance(rt.StWork, .5) {
			d.KeepAlive = time.Duration(1+rt.Choose(rt.StWork, 60)) * time.Second
		}
		if rt.Chance(rt.StWork, .5) {
			d.LocalAddr = &net.TCPAddr{IP: net.IPv4(10, 1, 2, byte(rt.Choose(rt.StWork, 200)))}
		}
		if rt.Chance(rt.StWork, .3) {
			d.FallbackDelay = -1
		}
		if rt.Chance(rt.StWork, .3) {
			d.Control = controlHook
		}
		if rt.Chance(rt.StWork, .2) {
			d.ControlContext = controlContextHook
		}
		if rt.Chance(rt.StWork, .2) {
			d.Resolver = &net.Resolver{PreferGo: true}
		}
		if rt.Chance(rt.StWork, .2) {
			d.DualStack = true
		}
		if rt.Chance(rt.StWork, .2) {
			d.KeepAliveConfig = net.KeepAliveConfig{Enable: true, Idle: 11 * time.Second, Interval: 3 * time.Second, Count: 4}
		}
		if rt.Chance(rt.StWork, .2) {
			d.Deadline = simnet.Epoch.Add(10000 * time.Hour)
		}
		cf.dialer = d
		out = append(out, kafka.WithDialer(d))
	}
	p := .3
	if w.prop == "C16" {
		p = .7
	}
	if rt.Chance(rt.StWork, p) {
		c := &tls.Config{}
		if rt.Chance(rt.StWork, .4) {
			c.ServerName = "kafka.cluster.internal"
			cf.wantName = c.ServerName
		}
		if rt.Chance(rt.StWork, .2) {
			c.InsecureSkipVerify = true
		}
		if rt.Chance(rt.StWork, .5) {
			c.MinVersion = tls.VersionTLS12
			c.NextProtos = []string{"kafka"}
		}
		if rt.Chance(rt.StWork, .3) {
			c.RootCAs = x509.NewCertPool()
			c.Certificates = []tls.Certificate{{Certificate: [][]byte{{1, 2, 3}}}}
		}
		if rt.Chance(rt.StWork, .2) {
			c.MaxVersion = tls.VersionTLS13
			c.CipherSuites = []uint16{tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256}
			c.CurvePreferences = []tls.CurveID{tls.X25519}
		}
		if rt.Chance(rt.StWork, .2) {
			c.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return nil }
			c.VerifyConnection = func(tls.ConnectionState) error { return nil }
			c.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) { return &tls.Certificate{}, nil }
		}
		if rt.Chance(rt.StWork, .2) {
			c.ClientSessionCache = tls.NewLRUClientSessionCache(4)
			c.KeyLogWriter = io.Discard
		}
		cf.tls, cf.tlsWas = c, c.Clone()
		if rt.Chance(rt.StWork, .2) {
			out = append(out, kafka.WithTLS(&tls.Config{ServerName: "other"}))
		}
		out = append([]kafka.Option{}, append(out, kafka.WithTLS(c))...)
		if rt.Chance(rt.StWork, .3) && len(out) > 1 {
			out[0], out[len(out)-1] = out[len(out)-1], out[0]
			// the options of a kind apply in order: keep what must win last
			if cf.dialer != nil {
				out = append(out, kafka.WithDialer(cf.dialer))
			} else {
				out = append(out, kafka.WithDialer(nil))
			}
			out = append(out, kafka.WithTLS(c))
		}
	} else if rt.Chance(rt.StWork, .2) {
		out = append(out, kafka.WithTLS(&tls.Config{}), kafka.WithTLS(nil))
	}
	return out
}

func (cw *clientWorld) topology() {
	hosts := []string{"kafka-a", "kafka-b", "10.0.0.7", "::1", "fe80::7", "kafka-a.example.com", "kafka-b.example.com.", "kafka_c", "fe80::7%eth0"}
	n := 1 + rt.Choose(rt.StWork, 4)
	ids := []int32{0, 1, 2, 3, 5, 100, 1001, 2147483647}
	used := map[int32]bool{}
	addrs := map[string]bool{}
	for len(cw.nodes) < n {
		x := nodeInfo{ids[rt.Choose(rt.StWork, len(ids))], hosts[rt.Choose(rt.StWork, len(hosts))], []int32{9092, 9093, 19092, 1, 65535}[rt.Choose(rt.StWork, 5)]}
		for used[x.id] {
			x.id++
			if x.id < 0 {
				x.id = 0
			}
		}
		for addrs[x.addr()] {
			x.port = x.port%60000 + 1
		}
		used[x.id] = true
		addrs[x.addr()] = true
		cw.nodes = append(cw.nodes, x)
	}
	cw.parts = [][]int32{{0, 1, 2, 3}, {0, 65536, 1, 65537}, {5, 0, 261, 32768}, {2147483647, 0, 16777216, 100000}}[rt.Weighted(rt.StWork, 8, 1, 1, 1)]
	cw.topicSet = []string{"orders", "orders2", "order", "Orders", "payments", "t", "log.é", " t", "orders "}
}

// servers draws a list of bootstrap servers.
func (cw *clientWorld) servers() (out []string) {
	b := rt.Weighted(rt.StWork, .04, .3, .3, .2, .14, .02)
	if b == 5 {
		b += rt.Choose(rt.StWork, 40)
	}
	for i := 0; i < b; i++ {
		a := "boot-" + strconv.Itoa(i) + ":9092"
		if rt.Chance(rt.StWork, .25) {
			a = cw.nodes[rt.Choose(rt.StWork, len(cw.nodes))].addr()
		}
		out = append(out, a)
	}
	return out
}

func (cf *clientCfg) isBoot(addr string) bool {
	for _, a := range cf.bootstrap {
		if a == addr {
			return true
		}
	}
	return false
}

// behaviour draws, once per operation and address, how a server behaves.
func (o *Op) behaviour(addr string) int {
	if b, ok := o.behave[addr]; ok {
		return b
	}
	b := bHealthy
	if o.mood == 1 {
		// nothing happens to it
	} else if o.mood == 2 {
		b = []int{bDialHang, bStallNego, bStallQuery, bTLSHang}[rt.Choose(rt.StFault, 4)]
		if b == bTLSHang && o.cfg.tls == nil || b == bStallQuery && !o.cfg.isBoot(addr) {
			b = bStallNego
		}
	} else if o.cw.hostile && rt.Chance(rt.StFault, o.cw.badWeight) {
		b = 1 + rt.Choose(rt.StFault, bNoMoreHealthy-1)
		if !o.cw.hangs && (b == bStallNego || b == bStallQuery) {
			b = bRefuse
		}
		if (b == bDialHang || b == bTLSHang) && !o.cw.hangs && !o.hasTimeout() {
			b = bCrashNego
		}
		if b >= bTLSBadCert && b <= bTLSHang && o.cfg.tls == nil {
			b = bCrashQuery
		}
		if b == bTLSBadCert && o.cfg.tls.InsecureSkipVerify {
			b = bTLSFail
		}
		if o.cfg.isBoot(addr) == false && (b == bCrashQuery || b == bCutQuery || b == bBadQuery || b == bStallQuery) {
			b = bCutNego
		}
	}
	o.behave[addr] = b
	rt.Note("op %d: %s is %s", o.id, addr, behaveName[b])
	if b != bHealthy {
		rt.Count("fault.server_" + behaveName[b])
	}
	return b
}

func (o *Op) hasTimeout() bool { return o.cfg.dialer != nil && o.cfg.dialer.Timeout > 0 }

// class: 0 healthy, 1 fails in bounded time, 2 may hang
func (o *Op) class(addr string) int {
	switch o.behaviour(addr) {
	case bHealthy:
		return 0
	case bStallNego, bStallQuery:
		return 2
	case bDialHang, bTLSHang:
		if !o.hasTimeout() {
			return 2
		}
	}
	return 1
}

func (cw *clientWorld) opOf(d *simnet.Dial) *Op {
	r := d.G.Root()
	for _, o := range cw.ops {
		if o.g == r {
			return o
		}
	}
	return nil
}

// resolve decides the fate of a dial and records it.
func (cw *clientWorld) resolve(d *simnet.Dial) (*Plan, simnet.Outcome) {
	w := cw.w
	o := cw.opOf(d)
	if o == nil {
		w.fail("C14", "unexpected-dial", "a connection to %s is opened outside of any operation", d.Addr)
		return nil, simnet.Outcome{Err: simnet.ErrRefused}
	}
	rt.Note("op %d dials %s", o.id, d.Addr)
	o.checkSettings(d)
	if !o.cfg.isBoot(d.Addr) {
		ok := false
		for _, a := range o.answers {
			if a.addr == d.Addr {
				ok = true
			}
		}
		if !ok {
			w.fail("C14", "dials-unnamed-node", "%s connects to %s, which no answer of the cluster names", opName[o.kind], d.Addr)
			return nil, simnet.Outcome{Err: simnet.ErrRefused}
		}
	}
	b := o.behaviour(d.Addr)
	out := simnet.Outcome{Delay: int64(rt.Choose(rt.StNet, 20)) * ms / 2, Setup: w.network}
	switch b {
	case bRefuse:
		out.Err = simnet.ErrRefused
		return nil, out
	case bDialHang:
		out.Hang = true
		return nil, out
	case bDialSlow: // the system gives up
		out.Err = simnet.ErrTimeout
		out.Delay = []int64{2, 21, 63, 127}[rt.Choose(rt.StFault, 4)] * 1000 * ms
		cw.w.busy(out.Delay)
		return nil, out
	}
	p := &Plan{ranges: cw.ranges(), delay: []int64{0, 3 * ms, 40 * ms}[rt.Choose(rt.StFault, 3)], sizeClass: []float64{1}}
	if rt.Chance(rt.StFault, .3) {
		p.pSplit = .5
	}
	if b == bIncompatible {
		a := &schema.Apis[rt.Choose(rt.StFault, len(schema.Apis))]
		r := [3]int16{int16(a.Key), int16(a.Max) + 1, int16(a.Max) + 3}
		for i := range p.ranges {
			if p.ranges[i][0] == r[0] {
				p.ranges[i] = r
				r[0] = -1
			}
		}
		if r[0] >= 0 {
			p.ranges = append(p.ranges, r)
		}
	}
	setup := out.Setup
	k := rt.Choose(rt.StFault, 60)
	out.Setup = func(c *simnet.Conn) {
		setup(c)
		switch b {
		case bCrashAccept:
			rt.After(0, func() { c.ServerClose() })
		case bCutNego:
			c.CutAt = int64(k % 30)
			c.CutErr = []error{nil, simnet.ErrReset}[k%2]
		case bWriteFail:
			c.FailWriteAt = int64(k % 30)
		case bReset:
			rt.After(0, c.Reset)
		case bTLSHang, bTLSFail, bTLSBadCert:
		}
	}
	p.onFrame = func(l *Link, f *Frame) {
		switch {
		case b == bCrashNego && f.nego, b == bCrashQuery && !f.nego && f.key != 12:
			l.c.ServerClose()
		case b == bCutQuery && !f.nego && f.key != 12:
			l.c.CutAt = l.c.SentIn + int64(k%13)
		}
	}
	p.custom = func(l *Link, f *Frame) bool { return cw.serve(l, f, b) }
	p.tlsOut = func(l *Link, name string) simnet.TLSOutcome {
		t := simnet.TLSOutcome{Delay: 2 * ms, Name: name}
		host, _, _ := net.SplitHostPort(d.Addr)
		want := o.cfg.wantName
		if want == "" {
			want = host
		}
		if strings.Trim(name, "[]") != want {
			w.fail("C16", "wrong-server-name", "the handshake with %s verifies the name %q instead of %q", d.Addr, name, want)
		}
		switch b {
		case bTLSBadCert:
			t.Name = "evil.example.com"
			t.Untrusted = k%2 == 1
		case bTLSFail:
			t.Err = []error{
				errors.New("remote error: tls: handshake failure"),
				tls.RecordHeaderError{Msg: "first record does not look like a TLS handshake"},
				tls.AlertError(40),
				io.EOF,
				io.ErrUnexpectedEOF,
				simnet.ErrReset,
			}[k%6]
		case bTLSHang:
			t.Hang = true
		}
		return t
	}
	return p, out
}

// ranges advertises what client operations and probes need.
func (cw *clientWorld) ranges() [][3]int16 {
	out := [][3]int16{{18, 0, 2}}
	for _, k := range []int16{3, 10, 12} {
		a := apiByKey[k]
		hi := int16(rt.Choose(rt.StWork, a.Max+1))
		lo := int16(0)
		if rt.Chance(rt.StWork, .2) {
			lo = int16(rt.Choose(rt.StWork, int(hi)+1))
		}
		if rt.Chance(rt.StWork, .15) {
			hi = int16(a.Max + rt.Choose(rt.StWork, 3))
		}
		out = append(out, [3]int16{k, lo, hi})
	}
	if rt.Chance(rt.StWork, .3) {
		out = append(out, [3]int16{77, 0, 4})
	}
	return out
}

// serve answers the frames of client operations.
func (cw *clientWorld) serve(l *Link, f *Frame, b int) bool {
	o := cw.links[l]
	if o == nil {
		o = cw.opOf(l.c.Dial)
		cw.links[l] = o
	}
	if f.nego {
		switch b {
		case bStallNego:
			return true
		case bBadNego:
			l.later(l.delay(), func() { l.badAnswer(f, []byte{0, 0, 0}) })
			return true
		}
		return false
	}
	switch b {
	case bStallQuery:
		if f.key != 12 {
			return true
		}
	case bBadQuery:
		if f.key != 12 {
			l.later(l.delay(), func() { l.badAnswer(f, []byte{0, 0}) })
			return true
		}
	}
	switch f.key {
	case 3:
		cw.serveMetadata(l, f, o)
		return true
	case 10:
		cw.serveCoordinator(l, f, o)
		return true
	}
	return false
}

// badAnswer answers a request with something that is no response to it.
func (l *Link) badAnswer(f *Frame, body []byte) {
	k := rt.Choose(rt.StFault, 8)
	if k >= 4 {
		l.respond(f, body)
		return
	}
	f.done = true
	l.send([][]byte{
		{255, 255, 255, 254, 0, 0}, // negative length
		{0, 0, 0, 2, 0, 0},         // no header
		{0, 0, 0, 0},               // nothing at all
		[]byte("HTTP/1.1 400 Bad Request\r\n\r\n"),
	}[k])
	rt.After(50*ms, func() {
		if l.c.Alive() {
			l.c.ServerClose()
		}
	})
}

// publish sends an answer and remembers it.
func (cw *clientWorld) publish(l *Link, f *Frame, o *Op, v reflect.Value, name string, addr string) {
	body := encode(nil, v, name, int(f.ver), nil)
	g := &goldReader{b: body}
	x := reflect.New(v.Type()).Elem()
	if err := decode(g, x, name, int(f.ver)); err != nil {
		rt.Fail(nil, "harness", "own answer does not decode: %v", err)
	}
	l.later(l.delay(), func() {
		o.answers = append(o.answers, answer{l, f, f.key, int(f.ver), addr, dump(nil, x), l.c.SentIn + int64(8+len(body))})
		rt.Note("op %d: answer names %q", o.id, addr)
		l.respond(f, body)
	})
}

func (cw *clientWorld) serveMetadata(l *Link, f *Frame, o *Op) {
	w := cw.w
	// the request must carry what the operation asked for
	var got []string
	ts := f.val.FieldByName("Topics")
	for i := 0; i < ts.Len(); i++ {
		got = append(got, ts.Index(i).FieldByName("Name").String())
	}
	want := o.topics
	if o.kind == 2 {
		want = []string{o.topic}
	}
	if o.kind == 3 {
		w.fail("C14", "wrong-query", "DialGroupCoordinator asks for metadata")
	} else if strings.Join(got, "\x00") != strings.Join(want, "\x00") && o.kind != 1 {
		w.fail("C06,C14", "wrong-topics", "%s asks for the topics %q instead of %q", opName[o.kind], got, want)
	}
	m := message.MetadataResponse{ThrottleTimeMs: int32(rt.Choose(rt.StBroker, 100)), ClusterId: "c" + strconv.Itoa(rt.Choose(rt.StBroker, 1000)),
		ClusterAuthorizedOperations: int32(rt.Bits(rt.StBroker))}
	perm := rt.Choose(rt.StBroker, len(cw.nodes))
	missing := -1
	if rt.Chance(rt.StBroker, .15) {
		missing = rt.Choose(rt.StBroker, len(cw.nodes))
	}
	addrOf := map[int32]string{}
	for i := range cw.nodes {
		n := cw.nodes[(i+perm)%len(cw.nodes)]
		if (i+perm)%len(cw.nodes) == missing {
			continue
		}
		m.Brokers = append(m.Brokers, message.MetadataResponseBroker3{NodeId: n.id, Host: n.host, Port: n.port, Rack: "r"})
		addrOf[n.id] = n.addr()
	}
	node := func() int32 {
		switch rt.Weighted(rt.StBroker, 8, 1, 1) {
		case 1:
			return -1
		case 2:
			return 77
		}
		return cw.nodes[rt.Choose(rt.StBroker, len(cw.nodes))].id
	}
	m.ControllerId = node()
	addr := ""
	if o.kind == 1 && f.ver >= 1 {
		addr = addrOf[m.ControllerId]
	}
	names := append([]string{}, cw.topicSet...)
	nt := 1 + rt.Choose(rt.StBroker, len(names))
	rot := rt.Choose(rt.StBroker, len(names))
	for i := 0; i < nt; i++ {
		name := names[(i+rot)%len(names)]
		t := message.MetadataResponseTopic3{Name: name, IsInternal: rt.Chance(rt.StBroker, .2), TopicAuthorizedOperations: 3}
		if rt.Chance(rt.StBroker, .1) {
			t.ErrorCode = 3
		} else {
			np := rt.Choose(rt.StBroker, 4)
			prot := rt.Choose(rt.StBroker, 4)
			for j := 0; j < np; j++ {
				p := message.MetadataResponsePartition3{PartitionIndex: cw.parts[(j+prot)%4], LeaderId: node(), LeaderEpoch: 7,
					ReplicaNodes: []int32{node(), node()}, IsrNodes: []int32{node()}}
				if p.LeaderId < 0 {
					p.ErrorCode = 5
				} else if rt.Chance(rt.StBroker, .1) {
					p.ErrorCode = 9
				}
				t.Partitions = append(t.Partitions, p)
				if o.kind == 2 && name == o.topic && p.PartitionIndex == o.partition {
					addr = addrOf[p.LeaderId]
				}
			}
		}
		m.Topics = append(m.Topics, t)
	}
	cw.publish(l, f, o, reflect.ValueOf(&m).Elem(), "MetadataResponse", addr)
}

func (cw *clientWorld) serveCoordinator(l *Link, f *Frame, o *Op) {
	w := cw.w
	if o.kind != 3 {
		w.fail("C14", "wrong-query", "%s asks for a coordinator", opName[o.kind])
	}
	if k := f.val.FieldByName("Key").String(); k != o.group || f.ver >= 1 && f.val.FieldByName("KeyType").Int() != 0 {
		w.fail("C06,C14", "wrong-group", "the coordinator of group %q is asked for instead of %q", k, o.group)
	}
	r := message.FindCoordinatorResponse{ThrottleTimeMs: 3}
	addr := ""
	n := cw.nodes[rt.Choose(rt.StBroker, len(cw.nodes))]
	switch rt.Weighted(rt.StBroker, 8, 1, 1, 1) {
	case 0:
		r.NodeId, r.Host, r.Port = n.id, n.host, n.port
		addr = n.addr()
	case 1: // not available
		r.ErrorCode, r.ErrorMessage, r.NodeId, r.Port = 15, "not available", -1, -1
	case 2: // an error together with an address
		r.ErrorCode, r.NodeId, r.Host, r.Port = []int16{14, 16, 30, -1}[rt.Choose(rt.StBroker, 4)], n.id, n.host, n.port
	case 3: // nothing named
		r.NodeId, r.Port = -1, []int32{-1, 0, n.port, 9092}[rt.Choose(rt.StBroker, 4)]
		if rt.Chance(rt.StBroker, .3) {
			r.NodeId = n.id // but no address
		}
	}
	cw.publish(l, f, o, reflect.ValueOf(&r).Elem(), "FindCoordinatorResponse", addr)
}

// checkSettings compares a dial with the caller's options.
func (o *Op) checkSettings(d *simnet.Dial) {
	w := o.w
	want := simnet.Settings{}
	if x := o.cfg.dialer; x != nil {
		want = simnet.Settings{Timeout: x.Timeout, LocalAddr: x.LocalAddr, KeepAlive: x.KeepAlive, FallbackDelay: x.FallbackDelay,
			KeepAliveConfig: x.KeepAliveConfig, Resolver: x.Resolver, DualStack: x.DualStack, Deadline: x.Deadline}
		if x.Control != nil {
			want.Custom = reflect.ValueOf(x.Control).Pointer()
		}
		if x.ControlContext != nil {
			want.CustomContext = reflect.ValueOf(x.ControlContext).Pointer()
		}
	}
	got := d.Settings
	if want.Deadline.IsZero() || !got.Deadline.IsZero() && got.Deadline.Before(want.Deadline) {
		got.Deadline = want.Deadline // an earlier one may come from the context or the dialer's timeout
	}
	if got != want {
		w.fail("C16", "dialer-settings", "%s dials %s with other settings than the caller's dialer", opName[o.kind], d.Addr)
	}
}

// run performs the operation on the calling goroutine.
func (o *Op) run() {
	o.g = rt.Cur()
	o.start, o.startT = rt.Step(), rt.Now()
	o.skipped = -rt.Skipped()
	o.started = true
	o.preCancel = o.cancelled
	rt.Note("op %d %s starts", o.id, opName[o.kind])
	switch o.kind {
	case 0:
		o.meta, o.err = o.cfg.cl.Metadata(o.ctx, o.topics...)
	case 1:
		o.b, o.err = o.cfg.cl.DialController(o.ctx)
	case 2:
		o.b, o.err = o.cfg.cl.DialLeader(o.ctx, o.topic, o.partition)
	case 3:
		o.b, o.err = o.cfg.cl.DialGroupCoordinator(o.ctx, o.group)
	}
	o.end, o.endT, o.endFired = rt.Step(), rt.Now(), rt.Fired()
	o.skipped += rt.Skipped()
	o.done = true
	rt.Progress()
	rt.MixHash(uint64(o.id)<<1 | b2u(o.err != nil))
	rt.Note("op %d returns err=%v", o.id, o.err)
	w := o.w
	// connections left open by the operation
	var open []*simnet.Conn
	for _, c := range simnet.N.Conns {
		if c.Dial.G.Root() == o.g && c.Open() {
			open = append(open, c)
		}
	}
	allowed := 0
	if o.kind != 0 && o.err == nil {
		allowed = 1
	}
	if len(open) > allowed && !o.cancelBegun && o.ctx.Err() == nil {
		w.fail("C15", "connection-left-open", "%s returned (err %v) and left %d connections open that nobody holds", opName[o.kind], o.err, len(open)-allowed)
	}
	if o.kind != 0 && o.err == nil {
		if o.b == nil {
			w.fail("C14", "no-broker", "%s returned neither a broker nor an error", opName[o.kind])
			return
		}
		if len(open) == 0 {
			p := "C14,C15"
			if o.hasCtx {
				p += ",C13"
			}
			w.fail(p, "broker-already-closed", "%s returned a broker whose connection is closed", opName[o.kind])
			return
		}
		l, _ := open[len(open)-1].User.(*Link)
		o.link = l
		h := &Handle{w: w, name: "op" + strconv.Itoa(o.id), b: o.b, link: l, opened: true, g: o.g}
		if l != nil {
			l.owner = h
			h.vers = expectVersions(l.plan.ranges)
		}
		w.handles = append(w.handles, h)
		o.cw.handed = append(o.cw.handed, h)
		if o.cw.use > 0 && l != nil && rt.Chance(rt.StWork, o.cw.use) {
			o.useBroker(h)
		}
	}
}

// useBroker uses, and possibly closes, a broker while other operations run.
func (o *Op) useBroker(h *Handle) {
	w := o.w
	rt.Count("feature.broker_in_use")
	var cs []*Call
	for i := rt.Choose(rt.StWork, 4); i >= 0; i-- {
		c := w.newCall(h, apiNamed["Heartbeat"])
		w.request(c)
		cs = append(cs, c)
	}
	shut := rt.Chance(rt.StWork, .4)
	at := int64(rt.Choose(rt.StFault, 60)) * ms / 2
	w.caller("user", cs)
	if shut {
		h.userClosed = true
		rt.After(at, func() {
			rt.Count("fault.user_close")
			rt.GoHarness("closer", h.close)
		})
	}
}

func (o *Op) cancelNow(cancel func()) {
	if o.cancelBegun {
		return
	}
	o.cancelBegun, o.beginT = true, rt.Now()
	o.cancelIdle = rt.Idle() && o.started && !o.done
	rt.Count("fault.ctx_cancel")
	rt.Note("op %d cancelled", o.id)
	cancel()
	o.cancelled = true
	o.cancelT = rt.Now()
	o.cancelFired = rt.Fired()
}

// scenClient runs cluster operations of one client against a simulated cluster.
func scenClient(w *World) {
	cw := &clientWorld{w: w, links: map[*Link]*Op{}}
	w.sizes()
	w.watchClose()
	cw.topology()
	cw.hostile = rt.Chance(rt.StFault, .8)
	cw.badWeight = []float64{.35, .15, .6, .9}[rt.Choose(rt.StFault, 4)]
	p := .4
	switch w.prop {
	case "C13":
		p = .9
	case "C12":
		p = .15
	}
	withCtx := rt.Chance(rt.StFault, p)
	cw.hangs = withCtx && rt.Chance(rt.StFault, .7)
	w.planFor = cw.resolve
	cw.use = []float64{0, .5, 1}[rt.Choose(rt.StWork, 3)]
	var cfgs []*clientCfg
	for i := 1 + rt.Weighted(rt.StWork, .75, .25); i > 0; i-- {
		cf := &clientCfg{}
		opts := cf.options(w)
		cf.bootstrap = cw.servers()
		cf.cl = kafka.NewClient(append([]string(nil), cf.bootstrap...), opts...)
		cfgs = append(cfgs, cf)
	}
	if len(cfgs) > 1 {
		rt.Count("feature.second_client")
	}
	n := 1 + rt.Choose(rt.StWork, 3)
	if rt.Chance(rt.StWork, .02) {
		n += 5 + rt.Choose(rt.StWork, 25)
		rt.Count("feature.many_operations")
	}
	pm := .05
	if w.prop == "C20" {
		pm = .35
	}
	moods := rt.Chance(rt.StFault, pm)
	if moods {
		// some operations hang, the others must not notice
		n = 2 + rt.Choose(rt.StWork, 9)
		if rt.Chance(rt.StWork, .1) {
			n += rt.Choose(rt.StWork, 70)
		}
		rt.Count("feature.hanging_neighbours")
	}
	for i := 0; i < n; i++ {
		o := &Op{id: i, w: w, cw: cw, cfg: cfgs[rt.Choose(rt.StWork, len(cfgs))], behave: map[string]int{}, ctx: context.Background()}
		o.kind = rt.Choose(rt.StWork, 4)
		if w.prop == "C14" && o.kind == 0 {
			o.kind = 1 + rt.Choose(rt.StWork, 3)
		}
		nt := rt.Choose(rt.StWork, 3)
		for j := 0; j < nt; j++ {
			o.topics = append(o.topics, cw.topicSet[rt.Choose(rt.StWork, len(cw.topicSet))])
		}
		o.topic = cw.topicSet[rt.Choose(rt.StWork, len(cw.topicSet))]
		o.partition = cw.parts[rt.Weighted(rt.StWork, 2, 1, 1, 1)]
		o.group = groupNames[rt.Choose(rt.StWork, len(groupNames))]
		if moods {
			o.mood = 1 + rt.Weighted(rt.StFault, .35, .65)
		}
		if withCtx && o.mood == 0 {
			o.makeCtx()
		}
		cw.ops = append(cw.ops, o)
	}
	rt.AtIdle(func() {
		for _, o := range cw.ops {
			if o.cancelled && o.started && !o.done {
				o.idleSeen = true
			}
		}
	})
	seq := rt.Chance(rt.StWork, .4) && !moods
	if seq {
		rt.GoHarness("op", func() {
			for _, o := range cw.ops {
				o := o
				// each operation has a goroutine of its own, for attribution
				done := false
				me := rt.Cur()
				waiting := false
				rt.GoHarness("op", func() {
					o.run()
					done = true
					if waiting {
						rt.Ready(me)
					}
				})
				for !done {
					waiting = true
					rt.Block("previous operation")
				}
				if d := w.restTime(); d > 0 {
					w.busy(d)
					sleep(d)
				}
			}
		})
	} else {
		for _, o := range cw.ops {
			rt.GoHarness("op", o.run)
		}
	}
	w.quiesce()
	if n > 1 {
		rt.Count("nontrivial")
	} else if cw.hostile || withCtx {
		rt.Count("nontrivial")
	}
	for _, o := range cw.ops {
		o.judge(n)
	}
	cw.finish()
}

func (o *Op) makeCtx() {
	o.hasCtx = true
	ctx := context.Background()
	if rt.Chance(rt.StFault, .3) {
		ctx = context.WithValue(ctx, "k", "v")
	}
	d := int64(rt.Choose(rt.StFault, 200)) * ms
	if rt.Chance(rt.StFault, .3) {
		d = int64(rt.Choose(rt.StFault, 60)) * ms / 4
	}
	switch rt.Choose(rt.StFault, 6) {
	case 0: // never cancelled during the operation
		o.ctx, _ = context.WithCancel(ctx)
	case 1, 2: // deadline
		if d == 0 {
			d = 1
		}
		c, _ := context.WithTimeout(ctx, time.Duration(d))
		o.ctx = c
		rt.After(d, func() {})
		o.watchDeadline(c, d)
	case 3: // cancelled by another goroutine
		c, cancel := context.WithCancel(ctx)
		o.ctx = c
		rt.GoHarness("canceller", func() {
			sleep(d)
			o.cancelNow(cancel)
			o.cancelIdle = false
		})
	case 4: // before it starts
		c, cancel := context.WithCancel(ctx)
		o.ctx = c
		o.cancelNow(cancel)
	case 5:
		c, cancel := context.WithCancel(ctx)
		o.ctx = c
		rt.After(d, func() { o.cancelNow(cancel) })
	}
	if rt.Chance(rt.StFault, .3) {
		o.ctx = context.WithValue(o.ctx, "k2", 2)
	}
	if rt.Chance(rt.StFault, .15) {
		o.ctx = ownContext{o.ctx}
		rt.Count("feature.own_context")
	}
}

// ownContext is a context of the caller's own type.
type ownContext struct{ context.Context }

func (ownContext) Value(any) any { return nil }

// watchDeadline notes when the deadline of the context passes.
func (o *Op) watchDeadline(c context.Context, d int64) {
	rt.At(rt.Now()+d, func() {
		if !o.cancelled {
			o.cancelled, o.cancelBegun = true, true
			o.cancelT = rt.Now()
			o.beginT = o.cancelT
			rt.Count("fault.ctx_deadline")
			rt.Note("op %d deadline", o.id)
		}
	})
}

func ctxReason(ctx context.Context, err error) bool {
	r := ctx.Err()
	return r != nil && errors.Is(err, r)
}

func (o *Op) judge(nops int) {
	w := o.w
	if !o.started {
		return
	}
	what := "op " + strconv.Itoa(o.id) + " (" + opName[o.kind] + ")"
	// what the bootstrap servers oblige the operation to
	must, mayHang, healthy := false, false, false
	for _, a := range o.cfg.bootstrap {
		c := o.class(a)
		if c == 0 {
			healthy = true
			if !mayHang {
				must = true
			}
		}
		if c == 2 {
			mayHang = true
		}
	}
	extra := ""
	if nops > 1 {
		all := true
		for a := range o.behave {
			if o.behave[a] != bHealthy {
				all = false
			}
		}
		if all && healthy {
			extra = ",C20"
		}
	}
	// cancellation
	if o.cancelled && o.hasCtx {
		late := !o.done || o.endT > o.cancelT+1000*ms
		if o.idleSeen && late {
			w.fail("C13", "ignores-cancellation", "%s keeps going after its context was cancelled (returned: %v, %dms later)", what, o.done, (o.endT-o.cancelT)/ms)
			if !o.done {
				return
			}
		}
		if o.done && o.err == nil && (o.idleSeen || o.preCancel) {
			w.fail("C13", "success-after-cancellation", "%s succeeded although its context had been cancelled while it was waiting", what)
		}
		if o.done && o.err != nil && !ctxReason(o.ctx, o.err) &&
			(o.preCancel || o.idleSeen || o.cancelIdle && o.cancelFired == o.endFired && o.end >= o.start) {
			w.fail("C13", "wrong-cancellation-reason", "%s returned %q, which does not identify the context's reason", what, o.err)
		}
	}
	if !o.done {
		if !mayHang && !o.nodeHangs() {
			w.fail("C12,C13,C01"+extra, "operation-hangs", "%s never returns although no server hangs", what)
		}
		return
	}
	if o.mood == 1 && !rt.Polled() && o.endT-o.startT-o.skipped > 5000*ms {
		w.fail("C20", "delayed-by-others", "%s takes %dms while others hang, although all its servers are healthy", what, (o.endT-o.startT)/ms)
	}
	if o.cancelBegun && (!o.cancelled || o.beginT <= o.endT) {
		return
	}
	if o.err != nil && o.ctx.Err() == nil && (errors.Is(o.err, context.Canceled) || errors.Is(o.err, context.DeadlineExceeded) && !o.hasTimeout()) {
		w.fail("C13"+extra, "invented-cancellation", "%s returned %q although its context was not cancelled", what, o.err)
	}
	// answers received in full
	var got []answer
	for _, a := range o.answers {
		if a.end <= a.l.c.Consumed {
			got = append(got, a)
		}
	}
	if o.err == nil && len(got) == 0 {
		w.fail("C12,C14", "success-without-answer", "%s succeeded although no bootstrap server answered", what)
		return
	}
	if o.kind == 0 {
		if o.err == nil {
			snap := dump(nil, reflect.ValueOf(o.meta))
			for _, a := range got {
				if string(a.val) == string(snap) {
					return
				}
			}
			w.fail("C06,C12,C01", "altered-metadata", "%s returned other metadata than any server sent", what)
		} else if must {
			w.fail("C12"+extra, "no-failover", "%s failed (%v) although a bootstrap server is healthy", what, o.err)
		}
		return
	}
	if o.err == nil {
		for _, a := range got {
			if a.addr != "" && o.link != nil && a.addr == o.link.c.Addr {
				return
			}
		}
		named := ""
		for _, a := range got {
			named += " " + strconv.Quote(a.addr)
		}
		to := "?"
		if o.link != nil {
			to = o.link.c.Addr
		}
		w.fail("C14", "wrong-node", "%s returned a connection to %s; the answers name%s", what, to, named)
		return
	}
	// it failed: was it allowed to?
	if len(got) == 0 {
		if must {
			w.fail("C12"+extra, "no-failover", "%s failed (%v) although a bootstrap server is healthy", what, o.err)
		}
		return
	}
	for _, a := range got {
		if a.addr == "" || o.class(a.addr) != 0 {
			return
		}
	}
	w.fail("C14,C12"+extra, "named-node-not-reached", "%s failed (%v) although the named node %s is healthy", what, o.err, got[len(got)-1].addr)
}

func (o *Op) nodeHangs() bool {
	for _, a := range o.answers {
		if a.addr != "" && o.class(a.addr) == 2 {
			return true
		}
	}
	return false
}

// finish uses and closes the brokers handed out, then looks for leftovers.
func (cw *clientWorld) finish() {
	w := cw.w
	w.rest()
	// a broker handed out works, and is the one the operation reached
	for _, o := range cw.ops {
		if o.b == nil || !o.done || o.err != nil || o.link == nil {
			continue
		}
		var h *Handle
		for _, x := range cw.handed {
			if x.b == o.b {
				h = x
			}
		}
		if h == nil || h.userClosed {
			continue
		}
		c := w.newCall(h, apiNamed["Heartbeat"])
		w.request(c)
		w.caller("probe", []*Call{c})
	}
	w.quiesce()
	for _, c := range w.calls {
		l := c.h.link
		if c.h.userClosed || l.c.Dead() || l.c.WriteFailed {
			continue
		}
		if !c.done || c.err != nil {
			w.fail("C13,C14,C15", "handed-out-broker-unusable", "a broker returned by an operation does not work: done=%v err=%v", c.done, c.err)
		}
	}
	w.evalCalls(true)
	for _, h := range cw.handed {
		rt.GoHarness("final-close", h.close)
	}
	w.quiesce()
	w.evalClose()
	w.evalSnapshots()
	w.evalTLS(cw)
	pendingOps := false
	for _, o := range cw.ops {
		if o.started && !o.done {
			pendingOps = true
		}
	}
	if pendingOps {
		return
	}
	// dials that are still pending hold on to their goroutine
	pending := false
	for _, d := range simnet.N.Dials {
		if d.Pending {
			pending = true
		}
	}
	for _, o := range cw.ops {
		for _, b := range o.behave {
			if b == bTLSHang {
				pending = true
			}
		}
	}
	if pending {
		return
	}
	w.evalLeaks("C15")
}

// evalTLS checks what was sent in the clear.
func (w *World) evalTLS(cw *clientWorld) {
	for _, c := range simnet.N.Conns {
		o := cw.opOf(c.Dial)
		if o == nil {
			continue
		}
		if o.cfg.tls == nil {
			if c.TLS {
				w.fail("C16", "unexpected-tls", "the connection to %s uses TLS although none is configured", c.Addr)
			}
			continue
		}
		if c.PlainOut > 0 {
			w.fail("C16", "plain-bytes", "%d bytes were sent to %s outside a TLS session", c.PlainOut, c.Addr)
		}
		if cfg, ok := c.TLSConf.(*tls.Config); ok {
			t := reflect.ValueOf(o.cfg.tlsWas).Elem()
			g := reflect.ValueOf(cfg).Elem()
			for i := 0; i < t.NumField(); i++ {
				ft := t.Type().Field(i)
				if ft.PkgPath != "" || ft.Name == "ServerName" || t.Field(i).IsZero() {
					continue
				}
				same := true
				switch ft.Type.Kind() {
				case reflect.Func:
					same = t.Field(i).Pointer() == g.Field(i).Pointer()
				case reflect.Slice:
					same = t.Field(i).Len() == g.Field(i).Len()
				default:
					if ft.Type.Comparable() {
						same = t.Field(i).Interface() == g.Field(i).Interface()
					}
				}
				if !same {
					w.fail("C16", "tls-settings", "the handshake with %s does not use the caller's TLS configuration (%s)", c.Addr, ft.Name)
				}
			}
			if cfg.InsecureSkipVerify && !o.cfg.tlsWas.InsecureSkipVerify {
				w.fail("C16", "tls-settings", "the handshake with %s does not verify the peer", c.Addr)
			}
		}
	}
	for _, o := range cw.ops {
		if t := o.cfg.tls; t != nil && t.ServerName != o.cfg.wantName {
			w.fail("C16", "tls-config-changed", "the caller's TLS configuration was changed: its server name is %q", t.ServerName)
		}
		if o.cfg.tls == nil {
			continue
		}
		a, b := reflect.ValueOf(o.cfg.tls).Elem(), reflect.ValueOf(o.cfg.tlsWas).Elem()
		for i := 0; i < a.NumField(); i++ {
			f := a.Type().Field(i)
			if f.PkgPath != "" || f.Name == "ServerName" {
				continue
			}
			same := true
			switch f.Type.Kind() {
			case reflect.Func:
				same = a.Field(i).IsNil() == b.Field(i).IsNil()
			case reflect.Slice:
				same = a.Field(i).Len() == b.Field(i).Len()
			case reflect.Bool, reflect.Uint16, reflect.Int, reflect.Ptr:
				same = a.Field(i).Interface() == b.Field(i).Interface()
			}
			if !same {
				w.fail("C16", "tls-config-changed", "the caller's TLS configuration was changed (%s)", f.Name)
			}
		}
	}
}

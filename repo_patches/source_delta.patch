From 9971204fc98740da7277ddb621f5b2f36580cb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:30 +0000
Subject: [PATCH 01/11] hook: connection buffer sizes are variables under the
 verif build tag

Without the tag they are the same constants as before.
---
 gen.conn.go    |  4 ++--
 sizes.go       |  9 +++++++++
 sizes_verif.go | 11 +++++++++++
 3 files changed, 22 insertions(+), 2 deletions(-)
 create mode 100644 sizes.go
 create mode 100644 sizes_verif.go

diff --git a/gen.conn.go b/gen.conn.go
index fda4007..eeb7e3f 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -68,7 +68,7 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 
 	var (
 		ctx, cancel = context.WithCancel(context.Background())
-		rb          = ring.New(5e6)
+		rb          = ring.New(ringBufferSize)
 		ch          = make(chan request, 32)
 		e           = message.NewEncoder(bufio.NewWriter(raw))
 	)
@@ -92,7 +92,7 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
 	defer close(c.doneRead)
 
-	buffer := make([]byte, 2e6) // 2MB
+	buffer := make([]byte, readBufferSize)
 	for {
 		n, err := raw.Read(buffer)
 		if err != nil {
diff --git a/sizes.go b/sizes.go
new file mode 100644
index 0000000..165a89b
--- /dev/null
+++ b/sizes.go
@@ -0,0 +1,9 @@
+//go:build !verif
+// +build !verif
+
+package kafka
+
+const (
+	ringBufferSize = 5e6 // bytes buffered between the reader and the dispatcher of a connection
+	readBufferSize = 2e6 // bytes per read from a connection
+)
diff --git a/sizes_verif.go b/sizes_verif.go
new file mode 100644
index 0000000..80118aa
--- /dev/null
+++ b/sizes_verif.go
@@ -0,0 +1,11 @@
+//go:build verif
+// +build verif
+
+package kafka
+
+// Variables in the verification build only, so that small runs can fill and
+// wrap the buffers of a connection.
+var (
+	ringBufferSize = int(5e6)
+	readBufferSize = int(2e6)
+)
-- 
2.43.0


From c7743dc30a026b0ea37cdb35178f08a50987e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:18 +0000
Subject: [PATCH 02/11] fix: ring buffer lost wake-ups, read stale bytes and
 could not be closed

A release that arrived before the other side waited was lost, a waiter
continued without re-reading the indices (and so copied bytes that were not
there), the last byte of a write did not wake the reader, and after Close both
sides went on as if data or space were available.  WriteN and ReadN now report
a closed buffer.
---
 ring/buffer.go | 77 ++++++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/ring/buffer.go b/ring/buffer.go
index b4c244c..8f3cd7e 100644
--- a/ring/buffer.go
+++ b/ring/buffer.go
@@ -18,37 +18,36 @@ package ring
 
 import (
 	"context"
+	"io"
 	"sync/atomic"
 )
 
+// mutex parks one side of the buffer until the other side makes progress.  A
+// release that finds nobody waiting is remembered, so it cannot be lost; the
+// waiting side re-checks its condition after every Wait.
 type mutex struct {
 	ctx context.Context
 	ch  chan struct{}
-	set int32
 }
 
 func newMutex(ctx context.Context) *mutex {
 	return &mutex{
 		ctx: ctx,
-		ch:  make(chan struct{}),
+		ch:  make(chan struct{}, 1),
 	}
 }
 
 func (m *mutex) Wait() {
-	if atomic.CompareAndSwapInt32(&m.set, 0, 1) {
-		select {
-		case <-m.ctx.Done():
-		case m.ch <- struct{}{}:
-		}
+	select {
+	case <-m.ctx.Done():
+	case <-m.ch:
 	}
 }
 
 func (m *mutex) Release() {
-	if atomic.CompareAndSwapInt32(&m.set, 1, 0) {
-		select {
-		case <-m.ctx.Done():
-		case <-m.ch:
-		}
+	select {
+	case m.ch <- struct{}{}:
+	default:
 	}
 }
 
@@ -84,46 +83,50 @@ func (r *Buffer) Close() error {
 }
 
 // WriteN writes the first n bytes from data to the buffer.  If buffer is full, WriteN
-// blocks until ReadN clears space
-func (r *Buffer) WriteN(data []byte, n int) {
+// blocks until ReadN clears space.  Returns io.ErrClosedPipe if the buffer was closed
+// before all bytes could be written.
+func (r *Buffer) WriteN(data []byte, n int) error {
 	var (
 		pos   = atomic.LoadInt32(&r.next)  // position next byte should be written
 		start = atomic.LoadInt32(&r.start) // start of data
-		wrote int                          // bytes written since last lock
 	)
 
-	for i := 0; i < n; i++ {
-		r.data[pos] = data[i]
-		pos = incr(pos, r.size)
+	if n > 0 && r.ctx.Err() != nil {
+		return io.ErrClosedPipe
+	}
 
+	for i := 0; i < n; i++ {
 		// whenever pos catches up to the starting position, wait for
-		// additional bytes to be written before continuing
-		if next := incr(pos, r.size); next == start {
+		// bytes to be read before continuing
+		for next := incr(pos, r.size); next == start; {
+			// important to store pos prior to releasing the reader
 			atomic.StoreInt32(&r.next, pos)
-
-			// important to store pos prior to reading from lockMux
 			r.readLock.Release()
-			wrote = i
 
-			start = atomic.LoadInt32(&r.start)
-			if next := incr(pos, r.size); next == start {
+			if start = atomic.LoadInt32(&r.start); next == start {
+				if r.ctx.Err() != nil {
+					return io.ErrClosedPipe
+				}
 				r.writeLock.Wait()
+				start = atomic.LoadInt32(&r.start)
 			}
 		}
+
+		r.data[pos] = data[i]
+		pos = incr(pos, r.size)
 	}
 
 	atomic.StoreInt32(&r.next, pos)
-
-	// if at least one byte has been written since the last time r.lock
-	// was cleared, check to see if it needs to be cleared again
-	if n > wrote+1 {
+	if n > 0 {
 		r.readLock.Release()
 	}
+	return nil
 }
 
 // ReadN reads n bytes in the byte array provided.  If insufficient bytes
-// are available, blocks until WriteN refills the buffer.
-func (r *Buffer) ReadN(data []byte, n int) {
+// are available, blocks until WriteN refills the buffer.  Bytes written before the
+// buffer was closed can still be read; once they are used up, ReadN returns io.EOF.
+func (r *Buffer) ReadN(data []byte, n int) error {
 	var (
 		pos  = atomic.LoadInt32(&r.start)
 		next = atomic.LoadInt32(&r.next)
@@ -131,15 +134,20 @@ func (r *Buffer) ReadN(data []byte, n int) {
 	)
 
 	for i := 0; i < n; i++ {
-		if pos == next {
+		for pos == next {
 			atomic.StoreInt32(&r.start, pos)
 			if read > 0 {
 				r.writeLock.Release()
 			}
 
-			next = atomic.LoadInt32(&r.next)
-			if pos == next {
+			// important to check for close prior to reading next
+			closed := r.ctx.Err() != nil
+			if next = atomic.LoadInt32(&r.next); pos == next {
+				if closed {
+					return io.EOF
+				}
 				r.readLock.Wait()
+				next = atomic.LoadInt32(&r.next)
 			}
 		}
 
@@ -152,6 +160,7 @@ func (r *Buffer) ReadN(data []byte, n int) {
 	if read > 0 {
 		r.writeLock.Release()
 	}
+	return nil
 }
 
 func incr(pos, size int32) int32 {
-- 
2.43.0


From 1d75a222ac7cf056960013e391ca1d67a1f2050a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:57 +0000
Subject: [PATCH 03/11] fix: connection failures and Close left callers
 waiting, responses shared memory

Losing the connection, a write error or Close now fails every outstanding
and every later call; both loops end. Payloads of any size are read in
chunks into memory of their own, so a response is never changed by later
traffic, and a malformed frame fails the connection instead of
desynchronising it.
---
 gen.conn.go | 131 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 97 insertions(+), 34 deletions(-)

diff --git a/gen.conn.go b/gen.conn.go
index eeb7e3f..adc8a2a 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -18,8 +18,8 @@ package kafka
 
 import (
 	"bufio"
-	"context"
 	"crypto/tls"
+	"errors"
 	"fmt"
 	"net"
 	"sync"
@@ -29,19 +29,25 @@ import (
 	"github.com/savaki/kafka/ring"
 )
 
+// maxPayloadChunk limits how much memory is allocated ahead of the bytes received
+const maxPayloadChunk = 64 * 1024
+
+var (
+	errClosed    = errors.New("connection closed")
+	errMalformed = errors.New("malformed response")
+)
+
 type Conn struct {
-	cancel      context.CancelFunc
-	ch          chan request
 	doneMessage chan struct{}
 	doneRead    chan struct{}
 	encoder     *message.Encoder
-	err         error
 	id          int32
 	raw         net.Conn
 	rb          *ring.Buffer
 
 	writeLock sync.Mutex
-	readLock  sync.Mutex
+	readLock  sync.Mutex // guards the fields below
+	err       error      // reason the connection can no longer be used
 	requests  map[int32]request
 }
 
@@ -67,15 +73,11 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 	}
 
 	var (
-		ctx, cancel = context.WithCancel(context.Background())
-		rb          = ring.New(ringBufferSize)
-		ch          = make(chan request, 32)
-		e           = message.NewEncoder(bufio.NewWriter(raw))
+		rb = ring.New(ringBufferSize)
+		e  = message.NewEncoder(bufio.NewWriter(raw))
 	)
 
 	c := &Conn{
-		cancel:      cancel,
-		ch:          ch,
 		doneMessage: make(chan struct{}),
 		doneRead:    make(chan struct{}),
 		encoder:     e,
@@ -83,57 +85,61 @@ func Connect(addr string, opts ...Option) (*Conn, error) {
 		rb:          rb,
 		requests:    map[int32]request{},
 	}
-	go c.readLoop(ctx, rb, raw)
-	go c.messageLoop(ctx, rb, ch)
+	go c.readLoop(rb, raw)
+	go c.messageLoop(rb)
 
 	return c, nil
 }
 
-func (c *Conn) readLoop(ctx context.Context, rb *ring.Buffer, raw net.Conn) {
+func (c *Conn) readLoop(rb *ring.Buffer, raw net.Conn) {
 	defer close(c.doneRead)
+	defer rb.Close() // messageLoop ends once it has used up what was received
 
 	buffer := make([]byte, readBufferSize)
 	for {
 		n, err := raw.Read(buffer)
+		if n > 0 {
+			if err := rb.WriteN(buffer, n); err != nil {
+				return
+			}
+		}
 		if err != nil {
-			fmt.Println(err)
+			c.setErr(fmt.Errorf("connection lost: %w", err))
 			return
 		}
-
-		rb.WriteN(buffer, n)
 	}
 }
 
-func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan request) {
+func (c *Conn) messageLoop(rb *ring.Buffer) {
 	defer close(c.doneMessage)
+	defer c.failRequests()
 
 	var (
-		buffer = make([]byte, 2e6) // 2MB
+		buffer = make([]byte, 4)
 		d      = message.NewDecoder(buffer, len(buffer))
 	)
 
 	for {
-		select {
-		case <-ctx.Done():
+		// read the header
+		if err := rb.ReadN(buffer, 4); err != nil {
 			return
-		default:
-			// ok
 		}
-
-		// read the header
-		rb.ReadN(buffer, 4)
 		d.Reset(4)
 		v, _ := d.Int32()
 		size := int(v)
 
-		// read the payload
-		rb.ReadN(buffer, size)
-		d.Reset(size)
+		// read the payload; decoded messages refer to it, so it is never reused
+		payload, err := readPayload(rb, size)
+		if err != nil {
+			c.fail(err)
+			return
+		}
+		d := message.NewDecoder(payload, len(payload))
 
 		var resp message.ResponseHeader
 		if err := (&resp).Decode(d, 1); err != nil {
-			fmt.Println(err)
-			continue
+			c.fail(errMalformed)
+			return
 		}
 
 		c.readLock.Lock()
@@ -147,6 +153,55 @@ func (c *Conn) messageLoop(ctx context.Context, rb *ring.Buffer, ch <-chan reque
 	}
 }
 
+// readPayload reads size bytes, allocating memory as they arrive
+func readPayload(rb *ring.Buffer, size int) ([]byte, error) {
+	if size < 0 {
+		return nil, errMalformed
+	}
+
+	var payload []byte
+	for offset := 0; offset < size; offset = len(payload) {
+		n := size - offset
+		if n > maxPayloadChunk {
+			n = maxPayloadChunk
+		}
+		payload = append(payload, make([]byte, n)...)
+		if err := rb.ReadN(payload[offset:], n); err != nil {
+			return nil, err
+		}
+	}
+	return payload, nil
+}
+
+// setErr records the first reason why the connection can no longer be used
+func (c *Conn) setErr(err error) {
+	c.readLock.Lock()
+	defer c.readLock.Unlock()
+	if c.err == nil {
+		c.err = err
+	}
+}
+
+// fail makes the connection unusable: both loops end, and so does every
+// outstanding request
+func (c *Conn) fail(err error) {
+	c.setErr(err)
+	c.raw.Close()
+	c.rb.Close()
+}
+
+// failRequests fails all outstanding requests
+func (c *Conn) failRequests() {
+	c.fail(errClosed)
+
+	c.readLock.Lock()
+	defer c.readLock.Unlock()
+	for id, req := range c.requests {
+		delete(c.requests, id)
+		req.reply <- c.err
+	}
+}
+
 type EncodeFunc func(e *message.Encoder, correlationID int32)
 type DecodeFunc func(d *message.Decoder) error
 
@@ -158,6 +213,10 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	}
 
 	c.readLock.Lock()
+	if err := c.err; err != nil {
+		c.readLock.Unlock()
+		return err
+	}
 	c.requests[correlationID] = req
 	c.readLock.Unlock()
 
@@ -167,17 +226,21 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	c.writeLock.Unlock()
 
 	if err != nil {
+		// part of the request may have been sent, so nothing can follow it
+		c.setErr(fmt.Errorf("connection lost: %w", err))
+		c.raw.Close()
+		<-req.reply
 		return err
 	}
 
 	return <-req.reply
 }
 
+// Close the connection.  Outstanding requests fail.
 func (c *Conn) Close() error {
-	c.cancel()
-	c.rb.Close()
+	c.setErr(errClosed)
 	c.raw.Close()
 	<-c.doneMessage
 	<-c.doneRead
-	return c.err
+	return nil
 }
-- 
2.43.0


From 038d950ff14d97edd475607d6e3cee4df505ee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:32 +0000
Subject: [PATCH 04/11] fix: decoder accepted negative lengths and unbounded
 array counts

---
 message/decoder.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index a00bcbd..3ffc117 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -24,6 +24,7 @@ import (
 )
 
 var (
+	errInvalidLength  = errors.New("invalid length")
 	errNullString     = errors.New("null string")
 	errVarIntOverflow = errors.New("var int overflow")
 )
@@ -58,18 +59,29 @@ func (d *Decoder) Reset(length int) {
 
 // remains ensures that the buffer contains at least n more bytes
 func (d *Decoder) remains(n int) error {
+	if n < 0 {
+		return errInvalidLength
+	}
 	if remain := d.length - d.offset; remain < n {
 		return io.ErrShortBuffer
 	}
 	return nil
 }
 
-// ArrayLength reads the head of the buffer as an array length (int32)
+// ArrayLength reads the head of the buffer as an array length (int32); -1 is
+// the length of a null array.  As each element takes at least one byte, an array
+// can't have more elements than bytes remain.
 func (d *Decoder) ArrayLength() (int, error) {
 	n, err := d.Int32()
 	if err != nil {
 		return 0, err
 	}
+	if n == -1 {
+		return -1, nil
+	}
+	if err := d.remains(int(n)); err != nil {
+		return 0, err
+	}
 	return int(n), nil
 }
 
@@ -89,8 +101,12 @@ func (d *Decoder) Bytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	length := int(n)
 
+	if n == -1 {
+		return nil, nil
+	}
+
+	length := int(n)
 	if err := d.remains(length); err != nil {
 		return nil, err
 	}
@@ -257,8 +273,12 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	length := int(n)
 
+	if n == -1 {
+		return nil, nil
+	}
+
+	length := int(n)
 	if err := d.remains(length); err != nil {
 		return nil, err
 	}
@@ -271,13 +291,13 @@ func (d *Decoder) VarBytes() ([]byte, error) {
 
 // VarInt returns the buffer head as an int64
 func (d *Decoder) VarInt() (int64, error) {
-	tmp, n := binary.Varint(d.raw[d.offset:])
-	switch n {
-	case 0:
+	tmp, n := binary.Varint(d.raw[d.offset:d.length])
+	switch {
+	case n == 0:
 		d.offset = d.length // no further requests can be made
 		return 0, io.ErrShortBuffer
 
-	case -1:
+	case n < 0:
 		d.offset = d.length // no further requests can be made
 		return 0, errVarIntOverflow
 
@@ -292,8 +312,12 @@ func (d *Decoder) VarString() (string, error) {
 	if err != nil {
 		return "", err
 	}
-	length := int(n)
 
+	if n == -1 {
+		return "", nil
+	}
+
+	length := int(n)
 	if err := d.remains(length); err != nil {
 		return "", err
 	}
-- 
2.43.0


From 423577a48f73da8f51a30f95de5a2a29b1e08d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:35 +0000
Subject: [PATCH 05/11] fix: negotiation failed if the broker supports newer
 versions, or never ended

---
 gen.broker.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index 9603348..ff84cb5 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -1580,10 +1580,12 @@ func negotiateApiVersions(apiKeys []message.ApiVersionsResponseKey18) (apiVersio
 
 // matchVersion determines which version of the api to use
 func matchVersion(apiKey message.ApiVersionsResponseKey18, minVersion, maxVersion int16) (int16, error) {
-	for version := apiKey.MaxVersion; version >= apiKey.MinVersion; version-- {
-		if version := apiKey.MaxVersion; version >= minVersion && version <= maxVersion {
-			return version, nil
-		}
+	version := apiKey.MaxVersion
+	if version > maxVersion {
+		version = maxVersion
+	}
+	if version >= apiKey.MinVersion && version >= minVersion {
+		return version, nil
 	}
 	return 0, fmt.Errorf("unable to negotiate version for api key, %v", apiKey.ApiKey)
 }
-- 
2.43.0


From 5b5917830dc167e440933d155674dd98944facfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:36 +0000
Subject: [PATCH 06/11] fix: a failed write of a length was forgotten by the
 encoder

---
 message/encoder.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/message/encoder.go b/message/encoder.go
index a1d1520..dc7d85d 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -47,10 +47,10 @@ func (e *Encoder) Flush() error {
 	}
 
 	if f, ok := e.target.(flusher); ok {
-		return f.Flush()
+		e.err = f.Flush()
 	}
 
-	return nil
+	return e.err
 }
 
 // PutArrayLength encodes the array length (int32)
@@ -203,7 +203,9 @@ func (e *Encoder) PutVarBytes(data []byte) {
 	}
 
 	e.PutVarInt(int64(len(data)))
-	_, e.err = e.target.Write(data)
+	if e.err == nil {
+		_, e.err = e.target.Write(data)
+	}
 }
 
 // PutVarInt encodes a var int
@@ -223,6 +225,10 @@ func (e *Encoder) PutVarString(s string) {
 	}
 
 	e.PutVarInt(int64(len(s)))
+	if e.err != nil {
+		return
+	}
+
 	for _, i := range s {
 		length := utf8.EncodeRune(e.buf[:], rune(i))
 		_, e.err = e.target.Write(e.buf[0:length])
-- 
2.43.0


From a50e36ed75750da97051342ee4efcf81b651a8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:11 +0000
Subject: [PATCH 07/11] fix: produce without acks waited for a response that
 never comes

---
 gen.broker.go | 14 +++++++++-----
 gen.conn.go   | 13 +++++++++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/gen.broker.go b/gen.broker.go
index ff84cb5..74a6622 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -62,9 +62,16 @@ func (b *Broker) Close() error {
 	return b.conn.Close()
 }
 
-// Produce (apiKey: 0)
+// Produce (apiKey: 0).  Kafka doesn't respond to requests without acks.
 func (b *Broker) Produce(req message.ProduceRequest) (message.ProduceResponse, error) {
 	var resp message.ProduceResponse
+	// decode response
+	decode := func(d *message.Decoder) error {
+		return (&resp).Decode(d, b.apiVersion.Produce)
+	}
+	if req.Acks == 0 {
+		decode = nil
+	}
 	err := b.conn.Do(
 		// encode request
 		func(e *message.Encoder, correlationID int32) {
@@ -79,10 +86,7 @@ func (b *Broker) Produce(req message.ProduceRequest) (message.ProduceResponse, e
 			hdr.Encode(e, 2)
 			req.Encode(e, b.apiVersion.Produce)
 		},
-		// decode response
-		func(d *message.Decoder) error {
-			return (&resp).Decode(d, b.apiVersion.Produce)
-		},
+		decode,
 	)
 	return resp, err
 }
diff --git a/gen.conn.go b/gen.conn.go
index adc8a2a..cc2596e 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -205,6 +205,8 @@ func (c *Conn) failRequests() {
 type EncodeFunc func(e *message.Encoder, correlationID int32)
 type DecodeFunc func(d *message.Decoder) error
 
+// Do sends a request and waits for its response; if decode is nil, no response
+// is expected.
 func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 	correlationID := atomic.AddInt32(&c.id, 1)
 	req := request{
@@ -217,7 +219,9 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 		c.readLock.Unlock()
 		return err
 	}
-	c.requests[correlationID] = req
+	if decode != nil {
+		c.requests[correlationID] = req
+	}
 	c.readLock.Unlock()
 
 	c.writeLock.Lock()
@@ -229,10 +233,15 @@ func (c *Conn) Do(encode EncodeFunc, decode DecodeFunc) error {
 		// part of the request may have been sent, so nothing can follow it
 		c.setErr(fmt.Errorf("connection lost: %w", err))
 		c.raw.Close()
-		<-req.reply
+		if decode != nil {
+			<-req.reply
+		}
 		return err
 	}
 
+	if decode == nil {
+		return nil
+	}
 	return <-req.reply
 }
 
-- 
2.43.0


From e7bc046f2c2fd2ffeb049024d5a30e4f42c2174a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:39 +0000
Subject: [PATCH 08/11] fix: bootstrap connections leaked and a failed query
 was not retried elsewhere

---
 client.go     | 27 +++++++++++++++++++--------
 gen.broker.go |  2 ++
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index 303efdc..873663a 100644
--- a/client.go
+++ b/client.go
@@ -16,6 +16,7 @@ package kafka
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -36,21 +37,31 @@ func NewClient(bootstrap []string, opts ...Option) *Client {
 	}
 }
 
-// dialBootstrap dials one of the initial bootstrap servers
+var errNoBootstrap = errors.New("no bootstrap servers")
+
+// dialBootstrap dials the initial bootstrap servers until the callback succeeds
+// with one of them
 func (c *Client) dialBootstrap(callback func(*Broker) error) error {
-	var broker *Broker
-	var err error
+	err := errNoBootstrap
 	for _, addr := range c.bootstrap {
-		broker, err = NewBroker(addr, c.opts...)
-		if err != nil {
-			continue
+		if err = c.query(addr, callback); err == nil {
+			return nil
 		}
-
-		return callback(broker)
 	}
 	return err
 }
 
+// query dials a broker just for the callback
+func (c *Client) query(addr string, callback func(*Broker) error) error {
+	broker, err := NewBroker(addr, c.opts...)
+	if err != nil {
+		return err
+	}
+	defer broker.Close()
+
+	return callback(broker)
+}
+
 // dial a specific node within the kafka cluster
 func (c *Client) dialNode(meta message.MetadataResponse, nodeID int32) (*Broker, error) {
 	for _, broker := range meta.Brokers {
diff --git a/gen.broker.go b/gen.broker.go
index 74a6622..055622f 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -46,10 +46,12 @@ func NewBroker(addr string, opts ...Option) (*Broker, error) {
 	//
 	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	apiVersion, err := negotiateApiVersions(resp.ApiKeys)
 	if err != nil {
+		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
 	broker.apiVersion = apiVersion
-- 
2.43.0


From 0b685b496a26b4243a8ef69006df30446e7fdffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:39 +0000
Subject: [PATCH 09/11] fix: client operations ignored their context

---
 client.go     | 35 ++++++++++++++++---------
 gen.broker.go | 30 +++++++++++++++++-----
 gen.conn.go   | 71 ++++++++++++++++++++++++++++++++++++++++++++++++---
 3 files changed, 113 insertions(+), 23 deletions(-)

diff --git a/client.go b/client.go
index 873663a..7eaed17 100644
--- a/client.go
+++ b/client.go
@@ -41,33 +41,44 @@ var errNoBootstrap = errors.New("no bootstrap servers")
 
 // dialBootstrap dials the initial bootstrap servers until the callback succeeds
 // with one of them
-func (c *Client) dialBootstrap(callback func(*Broker) error) error {
+func (c *Client) dialBootstrap(ctx context.Context, callback func(*Broker) error) error {
 	err := errNoBootstrap
 	for _, addr := range c.bootstrap {
-		if err = c.query(addr, callback); err == nil {
+		if ctx.Err() != nil {
+			break
+		}
+		if err = c.query(ctx, addr, callback); err == nil {
 			return nil
 		}
 	}
+	if ctx.Err() != nil {
+		return ctx.Err()
+	}
 	return err
 }
 
 // query dials a broker just for the callback
-func (c *Client) query(addr string, callback func(*Broker) error) error {
-	broker, err := NewBroker(addr, c.opts...)
+func (c *Client) query(ctx context.Context, addr string, callback func(*Broker) error) error {
+	broker, err := newBroker(ctx, addr, c.opts...)
 	if err != nil {
 		return err
 	}
 	defer broker.Close()
 
-	return callback(broker)
+	stop := broker.conn.closeOnDone(ctx)
+	err = callback(broker)
+	if e := stop(); e != nil {
+		return e
+	}
+	return err
 }
 
 // dial a specific node within the kafka cluster
-func (c *Client) dialNode(meta message.MetadataResponse, nodeID int32) (*Broker, error) {
+func (c *Client) dialNode(ctx context.Context, meta message.MetadataResponse, nodeID int32) (*Broker, error) {
 	for _, broker := range meta.Brokers {
 		if broker.NodeId == nodeID {
 			addr := broker.Host + ":" + strconv.Itoa(int(broker.Port))
-			return NewBroker(addr, c.opts...)
+			return newBroker(ctx, addr, c.opts...)
 		}
 	}
 	return nil, fmt.Errorf("no such broker node, %v", nodeID)
@@ -83,12 +94,12 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		resp = v
 		return nil
 	}
-	if err := c.dialBootstrap(callback); err != nil {
+	if err := c.dialBootstrap(ctx, callback); err != nil {
 		return nil, err
 	}
 
 	addr := resp.Host + ":" + strconv.Itoa(int(resp.Port))
-	return NewBroker(addr, c.opts...)
+	return newBroker(ctx, addr, c.opts...)
 }
 
 // DialController connects to the cluster controller.
@@ -98,7 +109,7 @@ func (c *Client) DialController(ctx context.Context) (*Broker, error) {
 		return nil, err
 	}
 
-	return c.dialNode(meta, meta.ControllerId)
+	return c.dialNode(ctx, meta, meta.ControllerId)
 }
 
 // DialGroupCoordinator returns the group coordinator for the provided consumer group id
@@ -126,7 +137,7 @@ func (c *Client) DialLeader(ctx context.Context, topic string, partition int32)
 		return nil, fmt.Errorf("unable to dial leader: %w", err)
 	}
 
-	return c.dialNode(meta, p.LeaderId)
+	return c.dialNode(ctx, meta, p.LeaderId)
 }
 
 // Metadata returns cluster metadata with optional topic info
@@ -144,7 +155,7 @@ func (c *Client) Metadata(ctx context.Context, topics ...string) (message.Metada
 		meta = v
 		return nil
 	}
-	if err := c.dialBootstrap(callback); err != nil {
+	if err := c.dialBootstrap(ctx, callback); err != nil {
 		return message.MetadataResponse{}, err
 	}
 	return meta, nil
diff --git a/gen.broker.go b/gen.broker.go
index 055622f..8567705 100644
--- a/gen.broker.go
+++ b/gen.broker.go
@@ -17,6 +17,7 @@
 package kafka
 
 import (
+	"context"
 	"fmt"
 
 	"github.com/savaki/kafka/message"
@@ -31,8 +32,12 @@ type Broker struct {
 
 // NewBroker a new Kafka Broker
 func NewBroker(addr string, opts ...Option) (*Broker, error) {
+	return newBroker(context.Background(), addr, opts...)
+}
+
+func newBroker(ctx context.Context, addr string, opts ...Option) (*Broker, error) {
 	config := buildConfig(opts)
-	conn, err := Connect(addr, opts...)
+	conn, err := connect(ctx, addr, opts...)
 	if err != nil {
 		return nil, err
 	}
@@ -44,21 +49,32 @@ func NewBroker(addr string, opts ...Option) (*Broker, error) {
 
 	// negotiate usable api versions prior to returning broker
 	//
-	resp, err := broker.ApiVersions(message.ApiVersionsRequest{})
-	if err != nil {
-		conn.Close()
-		return nil, fmt.Errorf("unable to create broker: %w", err)
+	stop := conn.closeOnDone(ctx)
+	err = broker.negotiate()
+	if e := stop(); e != nil {
+		err = e
 	}
-	apiVersion, err := negotiateApiVersions(resp.ApiKeys)
 	if err != nil {
 		conn.Close()
 		return nil, fmt.Errorf("unable to create broker: %w", err)
 	}
-	broker.apiVersion = apiVersion
 
 	return broker, nil
 }
 
+func (b *Broker) negotiate() error {
+	resp, err := b.ApiVersions(message.ApiVersionsRequest{})
+	if err != nil {
+		return err
+	}
+	apiVersion, err := negotiateApiVersions(resp.ApiKeys)
+	if err != nil {
+		return err
+	}
+	b.apiVersion = apiVersion
+	return nil
+}
+
 // Close the connection to the broker
 func (b *Broker) Close() error {
 	return b.conn.Close()
diff --git a/gen.conn.go b/gen.conn.go
index cc2596e..259bcf8 100644
--- a/gen.conn.go
+++ b/gen.conn.go
@@ -18,6 +18,7 @@ package kafka
 
 import (
 	"bufio"
+	"context"
 	"crypto/tls"
 	"errors"
 	"fmt"
@@ -56,19 +57,54 @@ type request struct {
 	reply  chan error
 }
 
-func dial(c config, addr string) (net.Conn, error) {
+func dial(ctx context.Context, c config, addr string) (net.Conn, error) {
 	if c.tlsConfig == nil {
-		return c.dialer.Dial("tcp", addr)
+		return c.dialer.DialContext(ctx, "tcp", addr)
+	}
+	return dialTLS(ctx, c, addr)
+}
+
+// dialTLS dials and completes the handshake, or gives up once ctx is done
+func dialTLS(ctx context.Context, c config, addr string) (net.Conn, error) {
+	if ctx.Done() == nil {
+		return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
 	}
 
-	return tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
+	type result struct {
+		conn *tls.Conn
+		err  error
+	}
+	ch := make(chan result, 1)
+	go func() {
+		conn, err := tls.DialWithDialer(c.dialer, "tcp", addr, c.tlsConfig)
+		ch <- result{conn: conn, err: err}
+	}()
+
+	select {
+	case r := <-ch:
+		return r.conn, r.err
+	case <-ctx.Done():
+		go func() {
+			if r := <-ch; r.err == nil {
+				r.conn.Close()
+			}
+		}()
+		return nil, ctx.Err()
+	}
 }
 
 func Connect(addr string, opts ...Option) (*Conn, error) {
+	return connect(context.Background(), addr, opts...)
+}
+
+func connect(ctx context.Context, addr string, opts ...Option) (*Conn, error) {
 	config := buildConfig(opts)
 
-	raw, err := dial(config, addr)
+	raw, err := dial(ctx, config, addr)
 	if err != nil {
+		if ctx.Err() != nil {
+			err = ctx.Err()
+		}
 		return nil, fmt.Errorf("failed to dial broker, %v: %w", addr, err)
 	}
 
@@ -253,3 +289,30 @@ func (c *Conn) Close() error {
 	<-c.doneRead
 	return nil
 }
+
+// closeOnDone closes the connection if ctx ends before stop is called.  stop
+// returns the reason ctx ended or nil.
+func (c *Conn) closeOnDone(ctx context.Context) (stop func() error) {
+	if ctx.Done() == nil {
+		return func() error { return nil }
+	}
+
+	var (
+		quit   = make(chan struct{})
+		exited = make(chan struct{})
+	)
+	go func() {
+		defer close(exited)
+		select {
+		case <-ctx.Done():
+			c.Close()
+		case <-quit:
+		}
+	}()
+
+	return func() error {
+		close(quit)
+		<-exited
+		return ctx.Err()
+	}
+}
-- 
2.43.0


From 31177cd710c62c70b299560e38d5cf5c26334314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:39 +0000
Subject: [PATCH 10/11] fix: dialled a wrong address if no coordinator or
 controller is named, or for IPv6 hosts

---
 client.go | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index 7eaed17..1d19a37 100644
--- a/client.go
+++ b/client.go
@@ -18,6 +18,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"net"
 	"strconv"
 
 	"github.com/savaki/kafka/message"
@@ -77,8 +78,7 @@ func (c *Client) query(ctx context.Context, addr string, callback func(*Broker)
 func (c *Client) dialNode(ctx context.Context, meta message.MetadataResponse, nodeID int32) (*Broker, error) {
 	for _, broker := range meta.Brokers {
 		if broker.NodeId == nodeID {
-			addr := broker.Host + ":" + strconv.Itoa(int(broker.Port))
-			return newBroker(ctx, addr, c.opts...)
+			return newBroker(ctx, joinAddr(broker.Host, broker.Port), c.opts...)
 		}
 	}
 	return nil, fmt.Errorf("no such broker node, %v", nodeID)
@@ -98,16 +98,29 @@ func (c *Client) dialCoordinator(ctx context.Context, req message.FindCoordinato
 		return nil, err
 	}
 
-	addr := resp.Host + ":" + strconv.Itoa(int(resp.Port))
-	return newBroker(ctx, addr, c.opts...)
+	if resp.ErrorCode != 0 {
+		return nil, fmt.Errorf("unable to find coordinator: error code, %v", resp.ErrorCode)
+	}
+	if resp.NodeId < 0 || resp.Host == "" {
+		return nil, errors.New("unable to find coordinator: no coordinator named")
+	}
+
+	return newBroker(ctx, joinAddr(resp.Host, resp.Port), c.opts...)
+}
+
+func joinAddr(host string, port int32) string {
+	return net.JoinHostPort(host, strconv.Itoa(int(port)))
 }
 
 // DialController connects to the cluster controller.
 func (c *Client) DialController(ctx context.Context) (*Broker, error) {
-	meta, err := c.Metadata(ctx)
+	meta, version, err := c.metadata(ctx)
 	if err != nil {
 		return nil, err
 	}
+	if version < 1 {
+		return nil, errors.New("unable to dial controller: the broker does not tell which node it is")
+	}
 
 	return c.dialNode(ctx, meta, meta.ControllerId)
 }
@@ -142,7 +155,14 @@ func (c *Client) DialLeader(ctx context.Context, topic string, partition int32)
 
 // Metadata returns cluster metadata with optional topic info
 func (c *Client) Metadata(ctx context.Context, topics ...string) (message.MetadataResponse, error) {
+	meta, _, err := c.metadata(ctx, topics...)
+	return meta, err
+}
+
+// metadata returns cluster metadata and the version of the response
+func (c *Client) metadata(ctx context.Context, topics ...string) (message.MetadataResponse, int16, error) {
 	var meta message.MetadataResponse
+	var version int16
 	callback := func(b *Broker) error {
 		req := message.MetadataRequest{}
 		for _, topic := range topics {
@@ -152,13 +172,13 @@ func (c *Client) Metadata(ctx context.Context, topics ...string) (message.Metada
 		if err != nil {
 			return err
 		}
-		meta = v
+		meta, version = v, b.apiVersion.Metadata
 		return nil
 	}
 	if err := c.dialBootstrap(ctx, callback); err != nil {
-		return message.MetadataResponse{}, err
+		return message.MetadataResponse{}, 0, err
 	}
-	return meta, nil
+	return meta, version, nil
 }
 
 func findPartition(topic message.MetadataResponseTopic3, partition int32) (message.MetadataResponsePartition3, error) {
-- 
2.43.0


From 710fb91e79d08cbba4a18554e992206272bd5bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:26 +0000
Subject: [PATCH 11/11] fix: variable-length strings keep bytes that are not
 valid UTF-8

---
 message/decoder.go | 16 ++--------------
 message/encoder.go |  9 +--------
 2 files changed, 3 insertions(+), 22 deletions(-)

diff --git a/message/decoder.go b/message/decoder.go
index 3ffc117..eec5531 100644
--- a/message/decoder.go
+++ b/message/decoder.go
@@ -20,7 +20,6 @@ import (
 	"encoding/binary"
 	"errors"
 	"io"
-	"unicode/utf8"
 )
 
 var (
@@ -322,18 +321,7 @@ func (d *Decoder) VarString() (string, error) {
 		return "", err
 	}
 
-	var (
-		eom   = d.offset + length // end of message
-		som   = d.offset          // start of message
-		runes []rune
-	)
-
-	for som < eom {
-		r, size := utf8.DecodeRune(d.raw[som:eom])
-		som += size
-		runes = append(runes, r)
-	}
-
+	s := string(d.raw[d.offset : d.offset+length])
 	d.offset += length
-	return string(runes), nil
+	return s, nil
 }
diff --git a/message/encoder.go b/message/encoder.go
index dc7d85d..c0745e8 100644
--- a/message/encoder.go
+++ b/message/encoder.go
@@ -19,7 +19,6 @@ package message
 import (
 	"encoding/binary"
 	"io"
-	"unicode/utf8"
 )
 
 type flusher interface {
@@ -229,11 +228,5 @@ func (e *Encoder) PutVarString(s string) {
 		return
 	}
 
-	for _, i := range s {
-		length := utf8.EncodeRune(e.buf[:], rune(i))
-		_, e.err = e.target.Write(e.buf[0:length])
-		if e.err != nil {
-			return
-		}
-	}
+	_, e.err = io.WriteString(e.target, s)
 }
-- 
2.43.0


From 67de7141890631375efdc08a69e6a530d342d63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:17 +0000
Subject: [PATCH 01/43] fix: reject truncated metadata properties instead of
 panicking

Property.Write sliced the peer-supplied data with lengths it had not
checked, so that a short or inconsistent READY/INITIATE command from any
peer crashed the process.
---
 protocol.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol.go b/protocol.go
index 82262af..4651a50 100644
--- a/protocol.go
+++ b/protocol.go
@@ -240,9 +240,13 @@ func (prop Property) Read(data []byte) (n int, err error) {
 }
 
 func (prop *Property) Write(data []byte) (n int, err error) {
+	if len(data) == 0 {
+		return n, io.ErrUnexpectedEOF
+	}
+
 	klen := int(data[n])
 	n++
-	if klen > len(data) {
+	if klen+4 > len(data)-n {
 		return n, io.ErrUnexpectedEOF
 	}
 
@@ -256,7 +260,7 @@ func (prop *Property) Write(data []byte) (n int, err error) {
 	}
 
 	vlen := int(v)
-	if n+vlen > len(data) {
+	if vlen > len(data)-n {
 		return n, io.ErrUnexpectedEOF
 	}
 
-- 
2.43.0


From dd17765ff44818f9bcd6cec05ff5c806eb249fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 02/43] fix: encode metadata properties of any length

Metadata.MarshalZMTP went through io.Copy, whose 512-byte reads made
Property.Read panic for longer values, and a name longer than 255 bytes
was written with a truncated length byte.
---
 protocol.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/protocol.go b/protocol.go
index 4651a50..a1f3a29 100644
--- a/protocol.go
+++ b/protocol.go
@@ -24,6 +24,7 @@ var (
 	ErrBadFrame      = errors.New("zmq4: invalid frame")
 	errOverflow      = errors.New("zmq4: overflow")
 	errEmptyAppMDKey = errors.New("zmq4: empty application metadata key")
+	errLongAppMDKey  = errors.New("zmq4: application metadata key too long")
 	errDupAppMDKey   = errors.New("zmq4: duplicate application metadata key")
 	errBoolCnv       = errors.New("zmq4: invalid byte to bool conversion")
 )
@@ -186,11 +187,11 @@ func (md Metadata) MarshalZMTP() ([]byte, error) {
 		keys[key] = struct{}{}
 		switch k {
 		case sysSockID, sysSockType:
-			if _, err := io.Copy(buf, Property{K: k, V: v}); err != nil {
+			if err := (Property{K: k, V: v}).marshalTo(buf); err != nil {
 				return nil, err
 			}
 		default:
-			if _, err := io.Copy(buf, Property{K: "X-" + key, V: v}); err != nil {
+			if err := (Property{K: "X-" + key, V: v}).marshalTo(buf); err != nil {
 				return nil, err
 			}
 		}
@@ -224,6 +225,21 @@ type Property struct {
 	V string
 }
 
+// marshalTo appends the on-wire representation of prop to buf.
+func (prop Property) marshalTo(buf *bytes.Buffer) error {
+	if len(prop.K) > 255 {
+		return errLongAppMDKey
+	}
+
+	raw := make([]byte, 1+len(prop.K)+4+len(prop.V))
+	n, err := prop.Read(raw)
+	if err != nil && err != io.EOF {
+		return err
+	}
+	_, err = buf.Write(raw[:n])
+	return err
+}
+
 func (prop Property) Read(data []byte) (n int, err error) {
 	klen := len(prop.K)
 	vlen := len(prop.V)
-- 
2.43.0


From b0b8431f6bd7e7877fe5c12dca8ed9fe9dfb6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:35 +0000
Subject: [PATCH 03/43] fix: refuse unknown peer socket types instead of
 panicking

The peer's Socket-Type property reaches IsCompatible unchecked during the
handshake, so any peer sending an unknown or no type crashed the process.
---
 socket_types.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/socket_types.go b/socket_types.go
index d149de2..f755a02 100644
--- a/socket_types.go
+++ b/socket_types.go
@@ -86,8 +86,6 @@ func (sck SocketType) IsCompatible(peer SocketType) bool {
 		if peer == Stream {
 			return true
 		}
-	default:
-		panic("unknown socket-type: \"" + string(sck) + "\"")
 	}
 
 	return false
-- 
2.43.0


From d3781610df8e76ec70453917a0d7dbe2ba066692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:17 +0000
Subject: [PATCH 04/43] fix: do not allocate frame bodies on the peer's word

The announced 64-bit frame length was passed to make() before any body byte
had arrived: a 9-byte frame header made the process panic or run out of memory.
---
 conn.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index 0524ae6..ff903a3 100644
--- a/conn.go
+++ b/conn.go
@@ -479,8 +479,8 @@ func (c *Conn) read() Msg {
 			return msg
 		}
 
-		body := make([]byte, size)
-		_, msg.err = io.ReadFull(c.rw, body)
+		var body []byte
+		body, msg.err = readBody(c.rw, size)
 		if msg.err != nil {
 			c.checkIO(msg.err)
 			return msg
@@ -505,6 +505,21 @@ func (c *Conn) read() Msg {
 	return msg
 }
 
+// readBody reads the size bytes of a frame body from r.
+// The size is what the peer announced: memory is only allocated as data arrives.
+func readBody(r io.Reader, size uint64) ([]byte, error) {
+	const chunk = 1 << 20
+	body := make([]byte, min(size, chunk))
+	n, err := io.ReadFull(r, body)
+	for err == nil && uint64(n) < size {
+		body = append(body, make([]byte, min(size-uint64(n), uint64(n)))...)
+		var nn int
+		nn, err = io.ReadFull(r, body[n:])
+		n += nn
+	}
+	return body, err
+}
+
 func (conn *Conn) subscribe(msg Msg) {
 	conn.mu.Lock()
 	v := msg.Frames[0]
-- 
2.43.0


From aa5b17a264b8b037f167fcd548a35cefa5e9bef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 05/43] fix: reconnect in the background, and only what was
 dialed, where it was dialed

The close callback dialed synchronously while the caller held socket, pool
and connection locks (deadlock, e.g. TestConnReaperDeadlock), listeners dialed
themselves when a client left, and every lost connection was re-dialed at the
endpoint of the latest Dial instead of its own, duplicating connections.
Retries now end with the socket's context, and a connection established while
the socket is being closed is closed too.
---
 conn.go   |  1 +
 socket.go | 67 ++++++++++++++++++++++++++++++++++++++++++-------------
 2 files changed, 52 insertions(+), 16 deletions(-)

diff --git a/conn.go b/conn.go
index ff903a3..fcc40e7 100644
--- a/conn.go
+++ b/conn.go
@@ -24,6 +24,7 @@ type Conn struct {
 	typ    SocketType
 	id     SocketIdentity
 	rw     net.Conn
+	ep     string // endpoint this connection was dialed to, if any
 	sec    Security
 	Server bool
 	Meta   Metadata
diff --git a/socket.go b/socket.go
index 338062c..43ece8f 100644
--- a/socket.go
+++ b/socket.go
@@ -247,11 +247,7 @@ func (sck *socket) Listen(endpoint string) error {
 	sck.mu.Unlock()
 
 	go sck.accept()
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
+	sck.startReaper()
 
 	return nil
 }
@@ -293,6 +289,13 @@ func (sck *socket) Dial(endpoint string) error {
 	sck.ep = endpoint
 	sck.mu.Unlock()
 
+	return sck.dial(endpoint, false)
+}
+
+// dial connects the socket to endpoint.
+// A failed handshake is final unless this is an attempt to reconnect:
+// the peer may then still be on its way down, or up.
+func (sck *socket) dial(endpoint string, reconnect bool) error {
 	network, addr, err := splitAddr(endpoint)
 	if err != nil {
 		return err
@@ -310,10 +313,7 @@ func (sck *socket) Dial(endpoint string) error {
 connect:
 	conn, err = trans.Dial(sck.ctx, &sck.dialer, addr)
 	if err != nil {
-		// retry if retry count is lower than maximum retry count and context has not been canceled
-		if (sck.maxRetries == -1 || retries < sck.maxRetries) && sck.ctx.Err() == nil {
-			retries++
-			time.Sleep(sck.retry)
+		if sck.retryDial(&retries) {
 			goto connect
 		}
 		return fmt.Errorf("zmq4: could not dial to %q (retry=%v): %w", endpoint, sck.retry, err)
@@ -325,23 +325,44 @@ connect:
 
 	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, sck.scheduleRmConn)
 	if err != nil {
+		if reconnect && sck.retryDial(&retries) {
+			goto connect
+		}
 		return fmt.Errorf("zmq4: could not open a ZMTP connection: %w", err)
 	}
 	if zconn == nil {
 		return fmt.Errorf("zmq4: got a nil ZMTP connection to %q", endpoint)
 	}
 
-	if !sck.reaperStarted {
-		sck.reaperCond.L.Lock()
-		go sck.connReaper()
-		sck.reaperStarted = true
-	}
+	sck.startReaper()
+	zconn.ep = endpoint
 	sck.addConn(zconn)
 	return nil
 }
 
+// retryDial waits for the next attempt to dial. It returns false if the
+// maximum retry count is reached or the context has been canceled.
+func (sck *socket) retryDial(retries *int) bool {
+	if sck.maxRetries != -1 && *retries >= sck.maxRetries {
+		return false
+	}
+	*retries++
+
+	select {
+	case <-sck.ctx.Done():
+		return false
+	case <-time.After(sck.retry):
+		return true
+	}
+}
+
 func (sck *socket) addConn(c *Conn) {
 	sck.mu.Lock()
+	if sck.isClosed {
+		sck.mu.Unlock()
+		c.Close()
+		return
+	}
 	sck.conns = append(sck.conns, c)
 	if len(c.Peer.Meta[sysSockID]) == 0 {
 		switch c.typ {
@@ -401,8 +422,10 @@ func (sck *socket) scheduleRmConn(c *Conn) {
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
 
-	if sck.autoReconnect {
-		sck.Dial(sck.ep)
+	// Only dialed connections are re-established, each at its own endpoint.
+	// This may be called with locks held, from any operation on c.
+	if sck.autoReconnect && c.ep != "" && sck.ctx.Err() == nil {
+		go sck.dial(c.ep, true)
 	}
 }
 
@@ -440,6 +463,18 @@ func (sck *socket) Timeout() time.Duration {
 	return sck.timeout
 }
 
+// startReaper starts the connReaper goroutine, once per socket.
+func (sck *socket) startReaper() {
+	sck.mu.Lock()
+	defer sck.mu.Unlock()
+	if sck.reaperStarted {
+		return
+	}
+	sck.reaperCond.L.Lock()
+	go sck.connReaper()
+	sck.reaperStarted = true
+}
+
 func (sck *socket) connReaper() {
 	// We are not locking here sck.reaperCond.L.Lock()
 	// as it should be locked prior starting connReaper as goroutine
-- 
2.43.0


From cc6da006570e9c188aa38fcaef354566031a33c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:31 +0000
Subject: [PATCH 06/43] fix: notice every end of a connection

A peer gone in the middle of a frame, an inproc peer that closed and a
connection closed for a protocol violation were not marked closed, so they
stayed in the socket's pools and were never re-established.
---
 conn.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conn.go b/conn.go
index fcc40e7..1e92d0f 100644
--- a/conn.go
+++ b/conn.go
@@ -41,7 +41,9 @@ type Conn struct {
 }
 
 func (c *Conn) Close() error {
-	return c.rw.Close()
+	err := c.rw.Close()
+	c.SetClosed()
+	return err
 }
 
 func (c *Conn) Read(p []byte) (int, error) {
@@ -564,7 +566,7 @@ func (conn *Conn) checkIO(err error) {
 		return
 	}
 
-	if err == io.EOF || errors.Is(err, io.EOF) {
+	if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.ErrClosedPipe) {
 		conn.SetClosed()
 		return
 	}
-- 
2.43.0


From 959da2f0f3693b3ca91a55f216ac2545bfcbd89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:04 +0000
Subject: [PATCH 07/43] fix: notice every end of a connection

A peer gone in the middle of a frame, an inproc peer that closed and a
connection closed for a protocol violation were not marked closed, so they
stayed in the socket's pools and were never re-established.
---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index 43ece8f..59aac11 100644
--- a/socket.go
+++ b/socket.go
@@ -150,7 +150,7 @@ func (sck *socket) Close() error {
 	var err error
 	for _, conn := range sck.conns {
 		e := conn.Close()
-		if e != nil && err == nil {
+		if e != nil && err == nil && !errors.Is(e, net.ErrClosed) {
 			err = e
 		}
 	}
-- 
2.43.0


From 99eaf07a05e3b70e022147c51619c61fe37f94b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:05 +0000
Subject: [PATCH 08/43] fix: close connections whose handshake failed or
 outlives the socket

The descriptor of every connection refused in the handshake leaked, and
closing a socket left connections in the handshake (and the goroutine
serving them) behind.
---
 socket.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/socket.go b/socket.go
index 59aac11..3b8c7a0 100644
--- a/socket.go
+++ b/socket.go
@@ -267,7 +267,7 @@ func (sck *socket) accept() {
 				continue
 			}
 
-			zconn, err := Open(conn, sck.sec, sck.typ, sck.id, true, sck.scheduleRmConn)
+			zconn, err := sck.open(conn, true)
 			if err != nil {
 				// FIXME(sbinet): maybe bubble up this error to application code?
 				sck.log.Printf("could not open a ZMTP connection with %q: %+v", sck.ep, err)
@@ -279,6 +279,20 @@ func (sck *socket) accept() {
 	}
 }
 
+// open performs the ZMTP handshake over conn. The connection is closed if the
+// handshake fails, or if the socket is closed while it is under way.
+func (sck *socket) open(conn net.Conn, server bool) (*Conn, error) {
+	stop := context.AfterFunc(sck.ctx, func() { conn.Close() })
+	defer stop()
+
+	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, server, sck.scheduleRmConn)
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
+	return zconn, nil
+}
+
 // Dial connects a remote endpoint to the Socket.
 func (sck *socket) Dial(endpoint string) error {
 	sck.mu.Lock()
@@ -323,7 +337,7 @@ connect:
 		return fmt.Errorf("zmq4: got a nil dial-conn to %q", endpoint)
 	}
 
-	zconn, err := Open(conn, sck.sec, sck.typ, sck.id, false, sck.scheduleRmConn)
+	zconn, err := sck.open(conn, false)
 	if err != nil {
 		if reconnect && sck.retryDial(&retries) {
 			goto connect
-- 
2.43.0


From bcbaadb3599544c2176770403a9cb7417b3d8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:19 +0000
Subject: [PATCH 09/43] fix: make an inproc connection a byte stream

Bytes beyond the reader's buffer were thrown away (io.ErrShortBuffer), which
broke every frame longer than 255 bytes over inproc; Write kept the caller's
slice; a blocked Read ignored both ends closing; and data written before the
remote end closed was lost.
---
 internal/inproc/conn.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/internal/inproc/conn.go b/internal/inproc/conn.go
index 52a1aa0..20f248d 100644
--- a/internal/inproc/conn.go
+++ b/internal/inproc/conn.go
@@ -20,6 +20,9 @@ type conn struct {
 	r    <-chan []byte
 	w    chan<- []byte
 
+	rmu  sync.Mutex // Serialises reads and guards rest
+	rest []byte     // Received by an earlier read, but not yet returned
+
 	once       sync.Once // Protects closing localDone
 	localDone  chan struct{}
 	remoteDone <-chan struct{}
@@ -44,11 +47,13 @@ func (c *conn) write(data []byte) (int, error) {
 		return 0, io.ErrClosedPipe
 	case isClosedChan(c.wdeadline.wait()):
 		return 0, timeoutError{}
+	case len(data) == 0:
+		return 0, nil
 	}
 
 	var n int
 	select {
-	case c.w <- data:
+	case c.w <- append([]byte(nil), data...): // data is the caller's to reuse
 		n = len(data)
 		return n, nil
 	case <-c.localDone:
@@ -69,25 +74,36 @@ func (c *conn) Read(data []byte) (int, error) {
 }
 
 func (c *conn) read(data []byte) (int, error) {
+	c.rmu.Lock()
+	defer c.rmu.Unlock()
+
 	switch {
 	case isClosedChan(c.localDone):
 		return 0, io.ErrClosedPipe
-	case isClosedChan(c.remoteDone):
-		return 0, io.EOF
 	case isClosedChan(c.rdeadline.wait()):
 		return 0, timeoutError{}
 	}
 
-	select {
-	case bw := <-c.r:
-		nr := copy(data, bw)
-		if len(data) < len(bw) {
-			return nr, io.ErrShortBuffer
+	if len(c.rest) == 0 {
+		select {
+		case c.rest = <-c.r:
+		case <-c.localDone:
+			return 0, io.ErrClosedPipe
+		case <-c.remoteDone:
+			// what was written before the remote end closed comes first
+			select {
+			case c.rest = <-c.r:
+			default:
+				return 0, io.EOF
+			}
+		case <-c.rdeadline.wait():
+			return 0, timeoutError{}
 		}
-		return nr, nil
-	case <-c.rdeadline.wait():
-		return 0, timeoutError{}
 	}
+
+	n := copy(data, c.rest)
+	c.rest = c.rest[n:]
+	return n, nil
 }
 
 func (c *conn) LocalAddr() net.Addr  { return c.addr }
-- 
2.43.0


From 862f805f0eb4864bd08e501cbc47b9ec21927d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 10/43] fix: let inproc Accept wait for a dialer, and Dial not
 wait for Accept

Accept returned half-open connections nobody had dialed, and a Dial between
two Accepts was never woken up when the listener closed.
---
 internal/inproc/inproc.go | 43 ++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/internal/inproc/inproc.go b/internal/inproc/inproc.go
index 8b0d6eb..7812b3c 100644
--- a/internal/inproc/inproc.go
+++ b/internal/inproc/inproc.go
@@ -41,7 +41,7 @@ type contextType struct {
 type Listener struct {
 	addr Addr
 
-	pipes  []*pipe
+	pipes  []*pipe // dialed, but not yet accepted
 	closed bool
 }
 
@@ -130,47 +130,44 @@ func (l *Listener) Close() error {
 			err = e
 		}
 	}
+	l.pipes = nil
 	l.closed = true
 	delete(mgr.db, string(l.addr))
+	mgr.cv.Broadcast()
 	return err
 }
 
 // Accept waits for and returns the next connection to the listener.
 func (l *Listener) Accept() (net.Conn, error) {
 	mgr.mu.Lock()
-	p := newPipe(l.addr)
-	l.pipes = append(l.pipes, p)
-	closed := l.closed
-	mgr.cv.Broadcast()
-	mgr.mu.Unlock()
+	defer mgr.mu.Unlock()
 
-	if closed {
+	for len(l.pipes) == 0 && !l.closed {
+		mgr.cv.Wait()
+	}
+	if l.closed {
 		return nil, ErrClosed
 	}
+
+	p := l.pipes[0]
+	l.pipes = l.pipes[1:]
 	return p.p1, nil
 }
 
 // Dial connects to the given address.
 func Dial(addr string) (net.Conn, error) {
 	mgr.mu.Lock()
+	defer mgr.mu.Unlock()
 
-	for {
-		var (
-			l  *Listener
-			ok bool
-		)
-		if l, ok = mgr.db[addr]; !ok || l == nil {
-			mgr.mu.Unlock()
-			return nil, ErrConnRefused
-		}
-		if n := len(l.pipes); n != 0 {
-			p := l.pipes[n-1]
-			l.pipes = l.pipes[:n-1]
-			mgr.mu.Unlock()
-			return p.p2, nil
-		}
-		mgr.cv.Wait()
+	l, ok := mgr.db[addr]
+	if !ok || l == nil {
+		return nil, ErrConnRefused
 	}
+
+	p := newPipe(l.addr)
+	l.pipes = append(l.pipes, p)
+	mgr.cv.Broadcast()
+	return p.p2, nil
 }
 
 // Addr represents an in-process "network" end-point address.
-- 
2.43.0


From caa1c65ad3bdc847994d27fd4d19e84ad982d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 11/43] fix: do not let a peer stalled in its handshake block
 all later ones

---
 socket.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/socket.go b/socket.go
index 3b8c7a0..bfe57e1 100644
--- a/socket.go
+++ b/socket.go
@@ -267,14 +267,17 @@ func (sck *socket) accept() {
 				continue
 			}
 
-			zconn, err := sck.open(conn, true)
-			if err != nil {
-				// FIXME(sbinet): maybe bubble up this error to application code?
-				sck.log.Printf("could not open a ZMTP connection with %q: %+v", sck.ep, err)
-				continue
-			}
-
-			sck.addConn(zconn)
+			// one peer's handshake must not hold up the others
+			go func() {
+				zconn, err := sck.open(conn, true)
+				if err != nil {
+					// FIXME(sbinet): maybe bubble up this error to application code?
+					sck.log.Printf("could not open a ZMTP connection with %q: %+v", sck.ep, err)
+					return
+				}
+
+				sck.addConn(zconn)
+			}()
 		}
 	}
 }
-- 
2.43.0


From 529f87d1d1268fa5893a3de4fa9967bb4c522ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 12/43] fix: do not send subscriptions with the socket locked

SetOption sent to the network while holding a read lock that Send takes
again: any writer in between (a connection coming or going) deadlocked the
socket. A new connection was sent the subscriptions after it had become
visible to SetOption, so an unsubscription could be overtaken, and the old
connections were sent all of them once more.
---
 socket.go | 22 ++++++++++++++--------
 sub.go    |  8 ++++++--
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/socket.go b/socket.go
index bfe57e1..d3f4b08 100644
--- a/socket.go
+++ b/socket.go
@@ -42,6 +42,7 @@ type socket struct {
 	sec           Security
 	log           *log.Logger
 	subTopics     func() []string
+	subMu         sync.Mutex // orders subscription changes and new connections
 	autoReconnect bool
 	timeout       time.Duration
 
@@ -374,6 +375,16 @@ func (sck *socket) retryDial(retries *int) bool {
 }
 
 func (sck *socket) addConn(c *Conn) {
+	// A new connection gets all current subscriptions (if there are any),
+	// and after that every change to them.
+	if sck.subTopics != nil {
+		sck.subMu.Lock()
+		defer sck.subMu.Unlock()
+		for _, topic := range sck.subTopics() {
+			_ = c.SendMsg(NewMsg(append([]byte{1}, topic...)))
+		}
+	}
+
 	sck.mu.Lock()
 	if sck.isClosed {
 		sck.mu.Unlock()
@@ -395,16 +406,11 @@ func (sck *socket) addConn(c *Conn) {
 	if sck.r != nil {
 		sck.r.addConn(c)
 	}
-	// Get topics to resend while holding the lock
-	var topics []string
-	if sck.subTopics != nil {
-		topics = sck.subTopics()
-	}
 	sck.mu.Unlock()
 
-	// resend subscriptions for topics if there are any (without holding the lock)
-	for _, topic := range topics {
-		_ = sck.Send(NewMsg(append([]byte{1}, topic...)))
+	if c.Closed() {
+		// lost before it was added: the connReaper may not have found it
+		sck.rmConn(c)
 	}
 }
 
diff --git a/sub.go b/sub.go
index 008d6b1..b386f58 100644
--- a/sub.go
+++ b/sub.go
@@ -89,6 +89,9 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 		return err
 	}
 
+	sub.sck.subMu.Lock()
+	defer sub.sck.subMu.Unlock()
+
 	var (
 		topic []byte
 	)
@@ -109,10 +112,11 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 	}
 
 	sub.sck.mu.RLock()
-	if len(sub.sck.conns) > 0 {
+	connected := len(sub.sck.conns) > 0
+	sub.sck.mu.RUnlock()
+	if connected {
 		err = sub.Send(NewMsg(topic))
 	}
-	sub.sck.mu.RUnlock()
 	return err
 }
 
-- 
2.43.0


From 9b3fe1e874018c637edca01656f93252ec77597f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 13/43] fix: write one message at a time on a connection,
 without holding the pool

A Send that timed out goes on writing in the background; the next message,
a reply to PING or another goroutine's SendMsg was then written in between
its frames and corrupted the stream. Holding the pool's lock while writing to
a stalled peer blocked every other user of the socket, the reaper and Close;
ROUTER ignored the send deadline altogether.
---
 conn.go   | 39 +++++++++++++++++++++++++++++++++++++++
 msgio.go  |  5 ++---
 router.go |  9 ++++-----
 3 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/conn.go b/conn.go
index 1e92d0f..9ef35c5 100644
--- a/conn.go
+++ b/conn.go
@@ -6,6 +6,7 @@ package zmq4
 
 import (
 	"bytes"
+	"context"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -36,10 +37,33 @@ type Conn struct {
 	mu     sync.RWMutex
 	topics map[string]struct{} // set of subscribed topics
 
+	winit sync.Once
+	wlock chan struct{} // filled while a message or command is being written
+
 	closed         int32
 	onCloseErrorCB func(c *Conn)
 }
 
+// lockWrite waits for its turn to write a message or command to c.
+// It gives up when ctx is done.
+func (c *Conn) lockWrite(ctx context.Context) error {
+	c.winit.Do(func() { c.wlock = make(chan struct{}, 1) })
+	select {
+	case c.wlock <- struct{}{}:
+	case <-ctx.Done():
+		return ctx.Err()
+	}
+	if err := ctx.Err(); err != nil {
+		c.unlockWrite()
+		return err
+	}
+	return nil
+}
+
+func (c *Conn) unlockWrite() {
+	<-c.wlock
+}
+
 func (c *Conn) Close() error {
 	err := c.rw.Close()
 	c.SetClosed()
@@ -179,11 +203,26 @@ func (c *Conn) SendCmd(name string, body []byte) error {
 	if err != nil {
 		return err
 	}
+	if err := c.lockWrite(context.Background()); err != nil {
+		return err
+	}
+	defer c.unlockWrite()
 	return c.send(true, buf, 0)
 }
 
 // SendMsg sends a ZMTP message over the wire.
 func (c *Conn) SendMsg(msg Msg) error {
+	return c.sendMsg(context.Background(), msg)
+}
+
+// sendMsg sends a ZMTP message over the wire, unless ctx is done before it is
+// its turn. Once begun, a message is always written to its end.
+func (c *Conn) sendMsg(ctx context.Context, msg Msg) error {
+	if err := c.lockWrite(ctx); err != nil {
+		return err
+	}
+	defer c.unlockWrite()
+
 	if c.Closed() {
 		return ErrClosedConn
 	}
diff --git a/msgio.go b/msgio.go
index 41abc20..e8a733b 100644
--- a/msgio.go
+++ b/msgio.go
@@ -173,12 +173,11 @@ func (w *mwriter) write(ctx context.Context, msg Msg) error {
 	for i := range w.ws {
 		ww := w.ws[i]
 		grp.Go(func() error {
-			return ww.SendMsg(msg)
+			return ww.sendMsg(ctx, msg)
 		})
 	}
-	err := grp.Wait()
 	w.mu.Unlock()
-	return err
+	return grp.Wait()
 }
 
 type semaphore struct {
diff --git a/router.go b/router.go
index aebb14a..6c3570d 100644
--- a/router.go
+++ b/router.go
@@ -10,7 +10,7 @@ import (
 	"net"
 	"sync"
 
-	"golang.org/x/sync/errgroup"
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewRouter returns a new ROUTER ZeroMQ socket.
@@ -225,7 +225,7 @@ func (mw *routerMWriter) rmConn(w *Conn) {
 
 func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
 	w.sem.lock(ctx)
-	grp, _ := errgroup.WithContext(ctx)
+	grp, _ := errgrp.WithContext(ctx)
 	w.mu.Lock()
 	id := msg.Frames[0]
 	dmsg := NewMsgFrom(msg.Frames[1:]...)
@@ -236,12 +236,11 @@ func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
 			continue
 		}
 		grp.Go(func() error {
-			return ww.SendMsg(dmsg)
+			return ww.sendMsg(ctx, dmsg)
 		})
 	}
-	err := grp.Wait()
 	w.mu.Unlock()
-	return err
+	return grp.Wait()
 }
 
 var (
-- 
2.43.0


From 3f5ee4428d2aac77dfe34911626e0b8b882c9282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 14/43] fix: keep a REQ socket's rotation within its
 connections

Operator precedence made the index run past the last connection and panic
as soon as a connection other than the first one failed.
---
 req.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/req.go b/req.go
index 2b99aed..b918438 100644
--- a/req.go
+++ b/req.go
@@ -110,11 +110,11 @@ func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	defer r.mu.Unlock()
 	var err error
 	for i := 0; i < len(r.conns); i++ {
-		cur := i + r.nextConn%len(r.conns)
+		cur := (i + r.nextConn) % len(r.conns)
 		conn := r.conns[cur]
 		err = conn.SendMsg(msg)
 		if err == nil {
-			r.nextConn = cur + 1%len(r.conns)
+			r.nextConn = (cur + 1) % len(r.conns)
 			r.state.Set(conn)
 			return nil
 		}
-- 
2.43.0


From e121a240ddcc625af788c24d29c74757d93fc5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 15/43] fix: honour the send deadline in REQ sockets

Send wrote to a stalled replier without regard to its deadline, holding the
lock the connection reaper (and so Close) needs.
---
 req.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/req.go b/req.go
index b918438..0c959b4 100644
--- a/req.go
+++ b/req.go
@@ -9,6 +9,8 @@ import (
 	"fmt"
 	"net"
 	"sync"
+
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewReq returns a new REQ ZeroMQ socket.
@@ -107,14 +109,24 @@ func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	msg.Frames = append([][]byte{nil}, msg.Frames...)
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
+	conns := append([]*Conn(nil), r.conns...)
+	next := r.nextConn
+	r.mu.Unlock()
+
 	var err error
-	for i := 0; i < len(r.conns); i++ {
-		cur := (i + r.nextConn) % len(r.conns)
-		conn := r.conns[cur]
-		err = conn.SendMsg(msg)
+	for i := range conns {
+		cur := (i + next) % len(conns)
+		conn := conns[cur]
+		grp, _ := errgrp.WithContext(ctx)
+		grp.Go(func() error {
+			return conn.sendMsg(ctx, msg)
+		})
+		err = grp.Wait()
+
+		r.mu.Lock()
+		r.nextConn = (cur + 1) % len(conns)
+		r.mu.Unlock()
 		if err == nil {
-			r.nextConn = (cur + 1) % len(r.conns)
 			r.state.Set(conn)
 			return nil
 		}
-- 
2.43.0


From bcd4be53f0c66aef82266daec1d89a0f540d002f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 16/43] fix: end the envelope of a request at its first empty
 frame

Empty frames in the body of a request were taken for the delimiter: the body
up to the last of them was swallowed, and came back as part of the reply.
---
 rep.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rep.go b/rep.go
index d9a1a78..0512ae8 100644
--- a/rep.go
+++ b/rep.go
@@ -196,6 +196,8 @@ func splitReq(envelope Msg) (preamble [][]byte, msg Msg) {
 		if i+1 < len(envelope.Frames) {
 			msg = NewMsgFrom(envelope.Frames[i+1:]...)
 		}
+		// the first empty frame is the delimiter, later ones belong to the body
+		return
 	}
 	return
 }
-- 
2.43.0


From f00e72a5f29b9039e0d45c4296c00d0bf8422b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 17/43] fix: write a reply within REP's Send, not in a shared
 goroutine

One requester that had stopped reading blocked the goroutine writing all
replies with the writer's lock held: nobody else was served any more, the
reaper and Close got stuck, and Send reported success for replies that went
nowhere, even without any request to reply to.
---
 rep.go | 63 ++++++++++++++++++++++++++--------------------------------
 1 file changed, 28 insertions(+), 35 deletions(-)

diff --git a/rep.go b/rep.go
index 0512ae8..0644ba9 100644
--- a/rep.go
+++ b/rep.go
@@ -9,6 +9,8 @@ import (
 	"fmt"
 	"net"
 	"sync"
+
+	errgrp "github.com/luxfi/zmq/v4/internal/errgroup"
 )
 
 // NewRep returns a new REP ZeroMQ socket.
@@ -214,8 +216,6 @@ type repWriter struct {
 
 	mu    sync.Mutex
 	conns []*Conn
-
-	sendCh chan repSendPayload
 }
 
 func (r repSendPayload) buildReplyMsg() Msg {
@@ -226,13 +226,10 @@ func (r repSendPayload) buildReplyMsg() Msg {
 }
 
 func newRepWriter(ctx context.Context, state *repState) *repWriter {
-	r := &repWriter{
-		ctx:    ctx,
-		state:  state,
-		sendCh: make(chan repSendPayload),
+	return &repWriter{
+		ctx:   ctx,
+		state: state,
 	}
-	go r.run()
-	return r
 }
 
 func (r *repWriter) addConn(w *Conn) {
@@ -258,46 +255,42 @@ func (r *repWriter) rmConn(conn *Conn) {
 }
 
 func (r *repWriter) write(ctx context.Context, msg Msg) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	conn, preamble := r.state.Get()
-	select {
-	case <-ctx.Done():
-		return ctx.Err()
-	case <-r.ctx.Done(): // repWriter.run() terminates on this, sendCh <- will not complete
-		return r.ctx.Err()
-	case r.sendCh <- repSendPayload{conn, preamble, msg}:
-		return nil
+	if conn == nil {
+		return fmt.Errorf("zmq4: no request to reply to")
+	}
+	if !r.connected(conn) {
+		return nil // nobody is left to get the reply
 	}
-}
 
-func (r *repWriter) run() {
-	for {
-		select {
-		case <-r.ctx.Done():
-			return
-		case payload, ok := <-r.sendCh:
-			if !ok {
-				return
-			}
-			r.sendPayload(payload)
-		}
+	reply := repSendPayload{conn, preamble, msg}.buildReplyMsg()
+	grp, _ := errgrp.WithContext(ctx)
+	grp.Go(func() error {
+		return conn.sendMsg(ctx, reply)
+	})
+	err := grp.Wait()
+	if err != nil && ctx.Err() == nil && conn.Closed() {
+		return nil // as above
 	}
+	return err
 }
 
-func (r *repWriter) sendPayload(payload repSendPayload) {
+func (r *repWriter) connected(conn *Conn) bool {
 	r.mu.Lock()
 	defer r.mu.Unlock()
-	for _, conn := range r.conns {
-		if conn == payload.conn {
-			reply := payload.buildReplyMsg()
-			// not much we can do at this point. Perhaps log the error?
-			_ = conn.SendMsg(reply)
-			return
+	for i := range r.conns {
+		if r.conns[i] == conn {
+			return true
 		}
 	}
+	return false
 }
 
 func (r *repWriter) Close() error {
-	close(r.sendCh)
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-- 
2.43.0


From b99441b6542b009918ab868419d7897a96972585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 18/43] fix: report an ended context from Send and Recv

Sending on an unconnected or closed socket returned nil at the deadline
though the message went nowhere, and Recv on XPUB returned an empty message
without error when the socket was closed.
---
 msgio.go  | 3 +++
 pub.go    | 5 +++++
 router.go | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/msgio.go b/msgio.go
index e8a733b..bddcb5a 100644
--- a/msgio.go
+++ b/msgio.go
@@ -168,6 +168,9 @@ func (mw *mwriter) rmConn(w *Conn) {
 
 func (w *mwriter) write(ctx context.Context, msg Msg) error {
 	w.sem.lock(ctx)
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	grp, _ := errgrp.WithContext(ctx)
 	w.mu.Lock()
 	for i := range w.ws {
diff --git a/pub.go b/pub.go
index 7dffb59..5148fd6 100644
--- a/pub.go
+++ b/pub.go
@@ -179,6 +179,7 @@ func (q *pubQReader) read(ctx context.Context, msg *Msg) error {
 	q.sem.lock(ctx)
 	select {
 	case <-ctx.Done():
+		return ctx.Err()
 	case *msg = <-q.c:
 	}
 	return msg.err
@@ -280,6 +281,10 @@ func (mw *pubMWriter) rmConn(w *Conn) {
 }
 
 func (w *pubMWriter) write(ctx context.Context, msg Msg) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+
 	w.mu.RLock()
 	defer w.mu.RUnlock()
 
diff --git a/router.go b/router.go
index 6c3570d..26e27e4 100644
--- a/router.go
+++ b/router.go
@@ -225,6 +225,9 @@ func (mw *routerMWriter) rmConn(w *Conn) {
 
 func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
 	w.sem.lock(ctx)
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	grp, _ := errgrp.WithContext(ctx)
 	w.mu.Lock()
 	id := msg.Frames[0]
-- 
2.43.0


From 7c3a88fde79d822723bbf9f752e71df6c1f373d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:51 +0000
Subject: [PATCH 19/43] fix: refuse to publish or route a message without any
 frame

It panicked, in PUB's writer goroutine and in ROUTER with its lock held.
---
 pub.go    | 3 +++
 router.go | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pub.go b/pub.go
index 5148fd6..15a3948 100644
--- a/pub.go
+++ b/pub.go
@@ -284,6 +284,9 @@ func (w *pubMWriter) write(ctx context.Context, msg Msg) error {
 	if err := ctx.Err(); err != nil {
 		return err
 	}
+	if len(msg.Frames) == 0 {
+		return fmt.Errorf("zmq4: message without a topic frame")
+	}
 
 	w.mu.RLock()
 	defer w.mu.RUnlock()
diff --git a/router.go b/router.go
index 26e27e4..e8e3f78 100644
--- a/router.go
+++ b/router.go
@@ -7,6 +7,7 @@ package zmq4
 import (
 	"bytes"
 	"context"
+	"fmt"
 	"net"
 	"sync"
 
@@ -224,6 +225,9 @@ func (mw *routerMWriter) rmConn(w *Conn) {
 }
 
 func (w *routerMWriter) write(ctx context.Context, msg Msg) error {
+	if len(msg.Frames) == 0 {
+		return fmt.Errorf("zmq4: message without an address frame")
+	}
 	w.sem.lock(ctx)
 	if err := ctx.Err(); err != nil {
 		return err
-- 
2.43.0


From 47b29237a478ca5d630349c1841eac9552a35dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 20/43] fix: PUSH, DEALER and PAIR send each message to one
 peer

They broadcast every message to all peers, so that with several workers each
task was done by all of them. Messages now go to the connected peers in turn;
with no peer left, Send waits for one until its deadline instead of
reporting success.
---
 conn.go   |   6 +++
 dealer.go |   1 +
 msgio.go  | 107 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 pair.go   |   1 +
 push.go   |   1 +
 5 files changed, 116 insertions(+)

diff --git a/conn.go b/conn.go
index 9ef35c5..a6f9cf6 100644
--- a/conn.go
+++ b/conn.go
@@ -64,6 +64,12 @@ func (c *Conn) unlockWrite() {
 	<-c.wlock
 }
 
+// writing reports whether a message or command is being written to c.
+func (c *Conn) writing() bool {
+	c.winit.Do(func() { c.wlock = make(chan struct{}, 1) })
+	return len(c.wlock) > 0
+}
+
 func (c *Conn) Close() error {
 	err := c.rw.Close()
 	c.SetClosed()
diff --git a/dealer.go b/dealer.go
index 67ade32..c9476d9 100644
--- a/dealer.go
+++ b/dealer.go
@@ -13,6 +13,7 @@ import (
 // The returned socket value is initially unbound.
 func NewDealer(ctx context.Context, opts ...Option) Socket {
 	dealer := &dealerSocket{newSocket(ctx, Dealer, opts...)}
+	dealer.sck.w = newLBWriter(dealer.sck.ctx)
 	return dealer
 }
 
diff --git a/msgio.go b/msgio.go
index bddcb5a..72f4f70 100644
--- a/msgio.go
+++ b/msgio.go
@@ -183,6 +183,112 @@ func (w *mwriter) write(ctx context.Context, msg Msg) error {
 	return grp.Wait()
 }
 
+// lbwriter writes each message to one of a pool of connections, in turn.
+type lbwriter struct {
+	ctx   context.Context
+	mu    sync.Mutex
+	ws    []*Conn
+	next  int
+	ready chan struct{} // closed when there is a connection
+}
+
+func newLBWriter(ctx context.Context) *lbwriter {
+	return &lbwriter{
+		ctx:   ctx,
+		ready: make(chan struct{}),
+	}
+}
+
+func (w *lbwriter) Close() error {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	var err error
+	for _, ww := range w.ws {
+		e := ww.Close()
+		if e != nil && err == nil {
+			err = e
+		}
+	}
+	w.ws = nil
+	return err
+}
+
+func (w *lbwriter) addConn(c *Conn) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	if len(w.ws) == 0 {
+		close(w.ready)
+	}
+	w.ws = append(w.ws, c)
+}
+
+func (w *lbwriter) rmConn(c *Conn) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	for i := range w.ws {
+		if w.ws[i] != c {
+			continue
+		}
+		w.ws = append(w.ws[:i:i], w.ws[i+1:]...)
+		if i < w.next {
+			w.next--
+		}
+		if len(w.ws) == 0 {
+			w.ready = make(chan struct{})
+		}
+		return
+	}
+}
+
+// pick returns the connection whose turn it is, passing over connections
+// that are busy with an earlier message if there is one that is not.
+// It returns a nil connection and what to wait for if there is none at all.
+func (w *lbwriter) pick() (*Conn, <-chan struct{}) {
+	w.mu.Lock()
+	defer w.mu.Unlock()
+	n := len(w.ws)
+	if n == 0 {
+		return nil, w.ready
+	}
+	cur := w.next % n
+	for i := 0; i < n; i++ {
+		if j := (w.next + i) % n; !w.ws[j].writing() {
+			cur = j
+			break
+		}
+	}
+	w.next = (cur + 1) % n
+	return w.ws[cur], nil
+}
+
+func (w *lbwriter) write(ctx context.Context, msg Msg) error {
+	for {
+		if err := ctx.Err(); err != nil {
+			return err
+		}
+
+		conn, ready := w.pick()
+		if conn == nil {
+			select {
+			case <-ctx.Done():
+			case <-ready:
+			}
+			continue
+		}
+
+		grp, _ := errgrp.WithContext(ctx)
+		grp.Go(func() error {
+			return conn.sendMsg(ctx, msg)
+		})
+		err := grp.Wait()
+		if err == nil || ctx.Err() != nil || !conn.Closed() {
+			return err
+		}
+		// the peer is gone: it is the next one's turn
+		w.rmConn(conn)
+	}
+}
+
 type semaphore struct {
 	ready chan struct{}
 }
@@ -212,4 +318,5 @@ func (sem *semaphore) lock(ctx context.Context) {
 var (
 	_ rpool = (*qreader)(nil)
 	_ wpool = (*mwriter)(nil)
+	_ wpool = (*lbwriter)(nil)
 )
diff --git a/pair.go b/pair.go
index cfd691d..03d5747 100644
--- a/pair.go
+++ b/pair.go
@@ -13,6 +13,7 @@ import (
 // The returned socket value is initially unbound.
 func NewPair(ctx context.Context, opts ...Option) Socket {
 	pair := &pairSocket{newSocket(ctx, Pair, opts...)}
+	pair.sck.w = newLBWriter(pair.sck.ctx)
 	return pair
 }
 
diff --git a/push.go b/push.go
index 08a346a..49f3df6 100644
--- a/push.go
+++ b/push.go
@@ -15,6 +15,7 @@ import (
 func NewPush(ctx context.Context, opts ...Option) Socket {
 	push := &pushSocket{newSocket(ctx, Push, opts...)}
 	push.sck.r = nil
+	push.sck.w = newLBWriter(push.sck.ctx)
 	return push
 }
 
-- 
2.43.0


From 96c261420849874d407d2e34d5d9d0cf13e39c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:04 +0000
Subject: [PATCH 21/43] fix: end all of a socket's goroutines when it is closed

Readers blocked on a full queue and the writer of every subscriber of a PUB
or XPUB socket stayed forever.
---
 msgio.go  |  3 +--
 pub.go    | 18 ++++++++++++++----
 rep.go    |  9 ++++-----
 router.go | 11 +++++------
 4 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/msgio.go b/msgio.go
index 72f4f70..f4ed7c6 100644
--- a/msgio.go
+++ b/msgio.go
@@ -106,8 +106,7 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			q.c <- msg
+		case q.c <- msg:
 			if msg.err != nil {
 				return
 			}
diff --git a/pub.go b/pub.go
index 15a3948..d769158 100644
--- a/pub.go
+++ b/pub.go
@@ -202,7 +202,11 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 			case q.topic(msg):
 				r.subscribe(msg)
 			default:
-				q.c <- msg
+				select {
+				case <-ctx.Done():
+					return
+				case q.c <- msg:
+				}
 			}
 		}
 	}
@@ -257,9 +261,15 @@ func (mw *pubMWriter) addConn(w *Conn) {
 	mw.subscribers[w] = c
 	go func() {
 		for {
-			msg, ok := <-c
-			if !ok {
-				break
+			var msg Msg
+			select {
+			case <-mw.ctx.Done():
+				return
+			case m, ok := <-c:
+				if !ok {
+					return
+				}
+				msg = m
 			}
 			topic := string(msg.Frames[0])
 			if w.subscribed(topic) {
diff --git a/rep.go b/rep.go
index 0644ba9..48abd77 100644
--- a/rep.go
+++ b/rep.go
@@ -162,14 +162,13 @@ func (r *repReader) listen(ctx context.Context, conn *Conn) {
 
 	for {
 		msg := conn.read()
+		if msg.err != nil {
+			return
+		}
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			if msg.err != nil {
-				return
-			}
-			r.msgCh <- repMsg{conn, msg}
+		case r.msgCh <- repMsg{conn, msg}:
 		}
 	}
 }
diff --git a/router.go b/router.go
index e8e3f78..d5bbf84 100644
--- a/router.go
+++ b/router.go
@@ -160,15 +160,14 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 	id := []byte(r.Peer.Meta[sysSockID])
 	for {
 		msg := r.read()
+		if msg.err != nil {
+			return
+		}
+		msg.Frames = append([][]byte{id}, msg.Frames...)
 		select {
 		case <-ctx.Done():
 			return
-		default:
-			if msg.err != nil {
-				return
-			}
-			msg.Frames = append([][]byte{id}, msg.Frames...)
-			q.c <- msg
+		case q.c <- msg:
 		}
 	}
 }
-- 
2.43.0


From 52a41ad9fc907992123b565e3170eb4ee15cda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 22/43] fix: keep protocol commands out of the application's
 messages

Sockets handed PING and other commands of a peer to Recv (or took them for
subscriptions and requests) and never answered PING.
---
 conn.go   | 32 +++++++++++++++++++++++++++++++-
 msgio.go  |  2 +-
 pub.go    |  2 +-
 rep.go    |  2 +-
 req.go    |  2 +-
 router.go |  2 +-
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/conn.go b/conn.go
index a6f9cf6..afc90ba 100644
--- a/conn.go
+++ b/conn.go
@@ -305,7 +305,7 @@ func (c *Conn) RecvMsg() (Msg, error) {
 	switch cmd.Name {
 	case CmdPing:
 		// send back a PONG immediately.
-		msg.err = c.SendCmd(CmdPong, nil)
+		msg.err = c.sendPong(cmd)
 		if msg.err != nil {
 			return msg, msg.err
 		}
@@ -321,6 +321,36 @@ func (c *Conn) RecvMsg() (Msg, error) {
 	return msg, nil
 }
 
+// recvUsr receives the next user message from the wire: commands among the
+// traffic are dealt with, and not shown to the application.
+func (c *Conn) recvUsr() Msg {
+	for {
+		msg := c.read()
+		if msg.err != nil || !msg.isCmd() {
+			return msg
+		}
+
+		if len(msg.Frames) != 1 {
+			return Msg{err: ErrBadFrame}
+		}
+		var cmd Cmd
+		err := cmd.unmarshalZMTP(msg.Frames[0])
+		if err == nil && cmd.Name == CmdPing {
+			err = c.sendPong(cmd)
+		}
+		if err != nil {
+			return Msg{err: err}
+		}
+	}
+}
+
+// sendPong answers a PING: its body is a 16-bit time-to-live and a context,
+// and the latter goes into the answer.
+func (c *Conn) sendPong(ping Cmd) error {
+	const ttl = 2
+	return c.SendCmd(CmdPong, ping.Body[min(ttl, len(ping.Body)):])
+}
+
 func (c *Conn) RecvCmd() (Cmd, error) {
 	var cmd Cmd
 
diff --git a/msgio.go b/msgio.go
index f4ed7c6..2f9ba96 100644
--- a/msgio.go
+++ b/msgio.go
@@ -102,7 +102,7 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 	defer r.Close()
 
 	for {
-		msg := r.read()
+		msg := r.recvUsr()
 		select {
 		case <-ctx.Done():
 			return
diff --git a/pub.go b/pub.go
index d769158..098bccb 100644
--- a/pub.go
+++ b/pub.go
@@ -190,7 +190,7 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 	defer r.Close()
 
 	for {
-		msg := r.read()
+		msg := r.recvUsr()
 		select {
 		case <-ctx.Done():
 			return
diff --git a/rep.go b/rep.go
index 48abd77..eefa747 100644
--- a/rep.go
+++ b/rep.go
@@ -161,7 +161,7 @@ func (r *repReader) listen(ctx context.Context, conn *Conn) {
 	defer conn.Close()
 
 	for {
-		msg := conn.read()
+		msg := conn.recvUsr()
 		if msg.err != nil {
 			return
 		}
diff --git a/req.go b/req.go
index 0c959b4..b68b733 100644
--- a/req.go
+++ b/req.go
@@ -195,7 +195,7 @@ func (r *reqReader) read(ctx context.Context, msg *Msg) error {
 	if curConn == nil {
 		return fmt.Errorf("zmq4: no connections available")
 	}
-	*msg = curConn.read()
+	*msg = curConn.recvUsr()
 	if msg.err != nil {
 		return msg.err
 	}
diff --git a/router.go b/router.go
index d5bbf84..b429a06 100644
--- a/router.go
+++ b/router.go
@@ -159,7 +159,7 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 
 	id := []byte(r.Peer.Meta[sysSockID])
 	for {
-		msg := r.read()
+		msg := r.recvUsr()
 		if msg.err != nil {
 			return
 		}
-- 
2.43.0


From c908b665db440f6ac091280053bd03ecd0b76ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:39 +0000
Subject: [PATCH 23/43] fix: let REQ notice a lost replier, and its own end, at
 once

REQ read from a connection only inside Recv: a replier gone in the meantime
was sent the next request nonetheless (which was lost), PING went unanswered,
and a Recv did not return when the socket's context ended.
---
 conn.go | 10 ++++++++++
 req.go  | 62 +++++++++++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 62 insertions(+), 10 deletions(-)

diff --git a/conn.go b/conn.go
index afc90ba..5ccaa88 100644
--- a/conn.go
+++ b/conn.go
@@ -41,6 +41,8 @@ type Conn struct {
 	wlock chan struct{} // filled while a message or command is being written
 
 	closed         int32
+	linit          sync.Once
+	lchan          chan struct{} // closed when the connection is
 	onCloseErrorCB func(c *Conn)
 }
 
@@ -628,6 +630,8 @@ func (conn *Conn) subscribed(topic string) bool {
 
 func (conn *Conn) SetClosed() {
 	if wasClosed := atomic.CompareAndSwapInt32(&conn.closed, 0, 1); wasClosed {
+		_ = conn.lost()
+		close(conn.lchan)
 		conn.notifyOnCloseError()
 	}
 }
@@ -636,6 +640,12 @@ func (conn *Conn) Closed() bool {
 	return atomic.LoadInt32(&conn.closed) == 1
 }
 
+// lost returns a channel that is closed when conn is.
+func (conn *Conn) lost() <-chan struct{} {
+	conn.linit.Do(func() { conn.lchan = make(chan struct{}) })
+	return conn.lchan
+}
+
 func (conn *Conn) checkIO(err error) {
 	if err == nil {
 		return
diff --git a/req.go b/req.go
index b68b733..b68125a 100644
--- a/req.go
+++ b/req.go
@@ -117,6 +117,7 @@ func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 	for i := range conns {
 		cur := (i + next) % len(conns)
 		conn := conns[cur]
+		r.state.Set(conn)
 		grp, _ := errgrp.WithContext(ctx)
 		grp.Go(func() error {
 			return conn.sendMsg(ctx, msg)
@@ -127,9 +128,9 @@ func (r *reqWriter) write(ctx context.Context, msg Msg) error {
 		r.nextConn = (cur + 1) % len(conns)
 		r.mu.Unlock()
 		if err == nil {
-			r.state.Set(conn)
 			return nil
 		}
+		r.state.Reset(conn)
 	}
 	return fmt.Errorf("zmq4: no connections available: %w", err)
 }
@@ -174,35 +175,76 @@ func (r *reqWriter) Close() error {
 }
 
 type reqReader struct {
+	ctx   context.Context
 	state *reqState
+
+	c chan reqMsg
+}
+
+type reqMsg struct {
+	conn *Conn
+	msg  Msg
 }
 
 func newReqReader(ctx context.Context, state *reqState) *reqReader {
 	return &reqReader{
+		ctx:   ctx,
 		state: state,
+		c:     make(chan reqMsg),
 	}
 }
 
-func (r *reqReader) addConn(c *Conn) {}
-func (r *reqReader) rmConn(c *Conn)  {}
+func (r *reqReader) addConn(c *Conn) {
+	go r.listen(c)
+}
+
+func (r *reqReader) rmConn(c *Conn) {}
 
 func (r *reqReader) Close() error {
 	return nil
 }
 
+func (r *reqReader) listen(c *Conn) {
+	defer c.Close()
+
+	for {
+		msg := c.recvUsr()
+		if msg.err != nil {
+			return
+		}
+		select {
+		case <-r.ctx.Done():
+			return
+		case <-c.lost():
+			return
+		case r.c <- reqMsg{c, msg}:
+		}
+	}
+}
+
 func (r *reqReader) read(ctx context.Context, msg *Msg) error {
 	curConn := r.state.Get()
 	if curConn == nil {
 		return fmt.Errorf("zmq4: no connections available")
 	}
-	*msg = curConn.recvUsr()
-	if msg.err != nil {
-		return msg.err
-	}
-	if len(msg.Frames) > 1 {
-		msg.Frames = msg.Frames[1:]
+	for {
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case <-curConn.lost():
+			return fmt.Errorf("zmq4: lost the connection to the replier: %w", ErrClosedConn)
+		case reply := <-r.c:
+			if reply.conn != curConn {
+				// not from the peer that got the last request
+				continue
+			}
+			*msg = reply.msg
+		}
+		if len(msg.Frames) > 1 {
+			msg.Frames = msg.Frames[1:]
+		}
+		return nil
 	}
-	return nil
 }
 
 type reqState struct {
-- 
2.43.0


From 4220d25b74bdc6ed30ab992edb98e50d7c6d060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 24/43] fix: read from the peers of PUSH and PUB sockets

A PUSH socket never noticed that a peer was gone or sent a heartbeat, and a
peer sending anything but subscriptions to a PUB socket blocked its reader.
---
 msgio.go | 25 +++++++++++++++++++++++++
 pub.go   |  6 +++++-
 push.go  |  2 +-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/msgio.go b/msgio.go
index 2f9ba96..7f09daa 100644
--- a/msgio.go
+++ b/msgio.go
@@ -114,6 +114,30 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 	}
 }
 
+// dreader reads from connections whose messages nobody receives: it notices
+// when they end, and lets heartbeats be answered.
+type dreader struct{}
+
+func (dreader) Close() error { return nil }
+
+func (dreader) addConn(r *Conn) {
+	go func() {
+		defer r.Close()
+		for {
+			if msg := r.recvUsr(); msg.err != nil {
+				return
+			}
+		}
+	}()
+}
+
+func (dreader) rmConn(r *Conn) {}
+
+func (dreader) read(ctx context.Context, msg *Msg) error {
+	<-ctx.Done()
+	return ctx.Err()
+}
+
 type mwriter struct {
 	ctx context.Context
 	mu  sync.Mutex
@@ -316,6 +340,7 @@ func (sem *semaphore) lock(ctx context.Context) {
 
 var (
 	_ rpool = (*qreader)(nil)
+	_ rpool = dreader{}
 	_ wpool = (*mwriter)(nil)
 	_ wpool = (*lbwriter)(nil)
 )
diff --git a/pub.go b/pub.go
index 098bccb..7d53eb0 100644
--- a/pub.go
+++ b/pub.go
@@ -27,7 +27,9 @@ type Topics interface {
 func NewPub(ctx context.Context, opts ...Option) Socket {
 	pub := &pubSocket{sck: newSocket(ctx, Pub, opts...)}
 	pub.sck.w = newPubMWriter(pub.sck.ctx)
-	pub.sck.r = newPubQReader(pub.sck.ctx)
+	r := newPubQReader(pub.sck.ctx)
+	r.c = nil // PUB sockets can't recv messages
+	pub.sck.r = r
 	return pub
 }
 
@@ -201,6 +203,8 @@ func (q *pubQReader) listen(ctx context.Context, r *Conn) {
 			switch {
 			case q.topic(msg):
 				r.subscribe(msg)
+			case q.c == nil:
+				// nobody receives it
 			default:
 				select {
 				case <-ctx.Done():
diff --git a/push.go b/push.go
index 49f3df6..961cedc 100644
--- a/push.go
+++ b/push.go
@@ -14,7 +14,7 @@ import (
 // The returned socket value is initially unbound.
 func NewPush(ctx context.Context, opts ...Option) Socket {
 	push := &pushSocket{newSocket(ctx, Push, opts...)}
-	push.sck.r = nil
+	push.sck.r = dreader{}
 	push.sck.w = newLBWriter(push.sck.ctx)
 	return push
 }
-- 
2.43.0


From f88cd0fdf46ecf4cbcf4168e9cb32e861e1862f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 25/43] fix: release a lost connection although nobody receives
 its error

---
 msgio.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/msgio.go b/msgio.go
index 7f09daa..c865c56 100644
--- a/msgio.go
+++ b/msgio.go
@@ -103,13 +103,19 @@ func (q *qreader) listen(ctx context.Context, r *Conn) {
 
 	for {
 		msg := r.recvUsr()
+		if msg.err != nil {
+			// the connection is not kept until somebody asks about it
+			r.Close()
+			select {
+			case q.c <- msg:
+			default:
+			}
+			return
+		}
 		select {
 		case <-ctx.Done():
 			return
 		case q.c <- msg:
-			if msg.err != nil {
-				return
-			}
 		}
 	}
 }
-- 
2.43.0


From 8b2a042a13f9bd20a5ced54544b7a5666e2263d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 26/43] fix: refuse bad socket options before they take effect

A negative high-water mark or a subscription that is not a string panicked,
refused values were stored, and concurrent option calls crashed.
---
 pub.go    | 12 ++++++------
 socket.go |  4 ++++
 sub.go    | 10 +++++-----
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/pub.go b/pub.go
index 7d53eb0..717a92c 100644
--- a/pub.go
+++ b/pub.go
@@ -95,20 +95,20 @@ func (pub *pubSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (pub *pubSocket) SetOption(name string, value interface{}) error {
-	err := pub.sck.SetOption(name, value)
-	if err != nil {
-		return err
-	}
-
 	if name != OptionHWM {
 		return ErrBadProperty
 	}
 
 	hwm, ok := value.(int)
-	if !ok {
+	if !ok || hwm < 0 {
 		return ErrBadProperty
 	}
 
+	err := pub.sck.SetOption(name, value)
+	if err != nil {
+		return err
+	}
+
 	w := pub.sck.w.(*pubMWriter)
 	w.hwm.Store(int64(hwm))
 	return nil
diff --git a/socket.go b/socket.go
index d3f4b08..f1b2bbc 100644
--- a/socket.go
+++ b/socket.go
@@ -468,7 +468,9 @@ func (sck *socket) Addr() net.Addr {
 
 // GetOption is used to retrieve an option for a socket.
 func (sck *socket) GetOption(name string) (interface{}, error) {
+	sck.mu.RLock()
 	v, ok := sck.props[name]
+	sck.mu.RUnlock()
 	if !ok {
 		return nil, ErrBadProperty
 	}
@@ -478,7 +480,9 @@ func (sck *socket) GetOption(name string) (interface{}, error) {
 // SetOption is used to set an option for a socket.
 func (sck *socket) SetOption(name string, value interface{}) error {
 	// FIXME(sbinet) different socket types support different options.
+	sck.mu.Lock()
 	sck.props[name] = value
+	sck.mu.Unlock()
 	return nil
 }
 
diff --git a/sub.go b/sub.go
index b386f58..608af7d 100644
--- a/sub.go
+++ b/sub.go
@@ -84,6 +84,11 @@ func (sub *subSocket) GetOption(name string) (interface{}, error) {
 
 // SetOption is used to set an option for a socket.
 func (sub *subSocket) SetOption(name string, value interface{}) error {
+	k, ok := value.(string)
+	if !ok || (name != OptionSubscribe && name != OptionUnsubscribe) {
+		return ErrBadProperty
+	}
+
 	err := sub.sck.SetOption(name, value)
 	if err != nil {
 		return err
@@ -98,17 +103,12 @@ func (sub *subSocket) SetOption(name string, value interface{}) error {
 
 	switch name {
 	case OptionSubscribe:
-		k := value.(string)
 		sub.subscribe(k, 1)
 		topic = append([]byte{1}, k...)
 
 	case OptionUnsubscribe:
-		k := value.(string)
 		topic = append([]byte{0}, k...)
 		sub.subscribe(k, 0)
-
-	default:
-		return ErrBadProperty
 	}
 
 	sub.sck.mu.RLock()
-- 
2.43.0


From a96e06f0890c1be7a031645e59f53957605d60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 27/43] fix: remove only the socket's own unix socket file at
 Close

Close removed the file of the endpoint used last, be it listened or dialed to.
A Listen under way while the socket was closed left its listener open.
---
 socket.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/socket.go b/socket.go
index f1b2bbc..d6f2da4 100644
--- a/socket.go
+++ b/socket.go
@@ -12,7 +12,6 @@ import (
 	"net"
 	"os"
 	"sort"
-	"strings"
 	"sync"
 	"time"
 )
@@ -143,11 +142,11 @@ func (sck *socket) Close() error {
 	sck.reaperCond.Signal()
 	sck.reaperCond.L.Unlock()
 
+	sck.mu.RLock()
 	if sck.listener != nil {
+		// this also removes the file of a unix socket
 		defer sck.listener.Close()
 	}
-
-	sck.mu.RLock()
 	var err error
 	for _, conn := range sck.conns {
 		e := conn.Close()
@@ -156,14 +155,8 @@ func (sck *socket) Close() error {
 		}
 	}
 
-	// Remove the unix socket file if created by net.Listen
-	ep := sck.ep
 	sck.mu.RUnlock()
 
-	if sck.listener != nil && strings.HasPrefix(ep, "ipc://") {
-		os.Remove(ep[len("ipc://"):])
-	}
-
 	return err
 }
 
@@ -244,6 +237,12 @@ func (sck *socket) Listen(endpoint string) error {
 	}
 
 	sck.mu.Lock()
+	if sck.isClosed || sck.listener != nil {
+		// closed, or listening elsewhere, in the meantime
+		sck.mu.Unlock()
+		l.Close()
+		return fmt.Errorf("zmq4: could not listen to %q: socket is closed or already listening", endpoint)
+	}
 	sck.listener = l
 	sck.mu.Unlock()
 
-- 
2.43.0


From 4b6f640d89799ef23b690798962037c5ee70d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 28/43] fix: keep the type of a cloned message

---
 msg.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msg.go b/msg.go
index a908b95..3cbef94 100644
--- a/msg.go
+++ b/msg.go
@@ -84,7 +84,8 @@ func (msg Msg) String() string {
 }
 
 func (msg Msg) Clone() Msg {
-	o := Msg{Frames: make([][]byte, len(msg.Frames))}
+	o := msg
+	o.Frames = make([][]byte, len(msg.Frames))
 	for i, frame := range msg.Frames {
 		o.Frames[i] = make([]byte, len(frame))
 		copy(o.Frames[i], frame)
-- 
2.43.0


From 9ba2a8cd56d0bc825de50cf93d928c4d257225ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 29/43] fix: frame what the security mechanism encrypted

The frame header announced the length of the clear text, and an encryption
error left a partial message on the wire.
---
 conn.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/conn.go b/conn.go
index 5ccaa88..5d036a4 100644
--- a/conn.go
+++ b/conn.go
@@ -240,7 +240,8 @@ func (c *Conn) sendMsg(ctx context.Context, msg Msg) error {
 		return c.sendStream(msg)
 	}
 
-	if msg.multipart {
+	// A message is encrypted as a whole before any of it is sent.
+	if msg.multipart || c.sec.Type() != NullSecurity {
 		return c.sendMulti(msg)
 	}
 
@@ -398,6 +399,14 @@ func (c *Conn) sendMulti(msg Msg) error {
 			flag ^= hasMoreBitFlag
 		}
 
+		if c.sec.Type() != NullSecurity {
+			var secBuf bytes.Buffer
+			if _, err := c.sec.Encrypt(&secBuf, frame); err != nil {
+				return err
+			}
+			frame = secBuf.Bytes()
+		}
+
 		size := len(frame)
 		isLong := size > 255
 		if isLong {
@@ -416,16 +425,7 @@ func (c *Conn) sendMulti(msg Msg) error {
 			hdr[1] = uint8(size)
 		}
 
-		switch c.sec.Type() {
-		case NullSecurity:
-			buffers = append(buffers, hdr[:hsz], frame)
-		default:
-			var secBuf bytes.Buffer
-			if _, err := c.sec.Encrypt(&secBuf, frame); err != nil {
-				return err
-			}
-			buffers = append(buffers, hdr[:hsz], secBuf.Bytes())
-		}
+		buffers = append(buffers, hdr[:hsz], frame)
 	}
 
 	if _, err := buffers.WriteTo(c.rw); err != nil {
@@ -437,6 +437,15 @@ func (c *Conn) sendMulti(msg Msg) error {
 }
 
 func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
+	// The header announces the length of what is sent
+	if c.sec.Type() != NullSecurity {
+		var secBuf bytes.Buffer
+		if _, err := c.sec.Encrypt(&secBuf, body); err != nil {
+			return err
+		}
+		body = secBuf.Bytes()
+	}
+
 	// Long flag
 	size := len(body)
 	isLong := size > 255
@@ -466,7 +475,7 @@ func (c *Conn) send(isCommand bool, body []byte, flag byte) error {
 		return err
 	}
 
-	if _, err := c.sec.Encrypt(c.rw, body); err != nil {
+	if _, err := c.rw.Write(body); err != nil {
 		c.checkIO(err)
 		return err
 	}
-- 
2.43.0


From b7d9008f44bf90912f3878a6f5d49d9e77127595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:52 +0000
Subject: [PATCH 30/43] fix: disconnect a networking peer, and stop a
 transport, completely

A disconnected peer's broadcasts kept arriving, and twice after reconnecting;
a failed connect left sockets behind. DisconnectPeer without peers, a second
Stop, and a broadcast before Start panicked.
---
 networking/transport.go | 85 ++++++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 23 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 6dad206..a58e571 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -22,11 +22,13 @@ type Transport struct {
 	ctx     context.Context
 	cancel  context.CancelFunc
 	pub     zmq4.Socket
-	sub     zmq4.Socket
 	router  zmq4.Socket
-	dealers map[string]zmq4.Socket
+	subs    map[string]zmq4.Socket // by peer
+	dealers map[string]zmq4.Socket // by peer
 	config  Config
 
+	connMu sync.Mutex // held while peers are connected or disconnected
+
 	mu       sync.RWMutex
 	handlers map[string]MessageHandler
 	peers    []string
@@ -36,8 +38,9 @@ type Transport struct {
 	msgReceived atomic.Uint64
 	msgDropped  atomic.Uint64
 
-	stopCh chan struct{}
-	wg     sync.WaitGroup
+	stopOnce sync.Once
+	stopCh   chan struct{}
+	wg       sync.WaitGroup
 }
 
 // Config holds transport configuration
@@ -100,6 +103,7 @@ func New(ctx context.Context, config Config) *Transport {
 		cancel:   cancel,
 		config:   config,
 		handlers: make(map[string]MessageHandler),
+		subs:     make(map[string]zmq4.Socket),
 		dealers:  make(map[string]zmq4.Socket),
 		stopCh:   make(chan struct{}),
 	}
@@ -114,10 +118,6 @@ func (t *Transport) Start() error {
 		return fmt.Errorf("failed to bind pub socket on %s: %w", pubAddr, err)
 	}
 
-	// SUB socket for receiving broadcasts
-	t.sub = zmq4.NewSub(t.ctx)
-	t.sub.SetOption(zmq4.OptionSubscribe, "")
-
 	// ROUTER socket for direct messages
 	t.router = zmq4.NewRouter(t.ctx)
 	routerAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort+1000)
@@ -125,8 +125,7 @@ func (t *Transport) Start() error {
 		return fmt.Errorf("failed to bind router socket on %s: %w", routerAddr, err)
 	}
 
-	t.wg.Add(2)
-	go t.subLoop()
+	t.wg.Add(1)
 	go t.routerLoop()
 
 	return nil
@@ -134,23 +133,31 @@ func (t *Transport) Start() error {
 
 // Stop gracefully shuts down the transport
 func (t *Transport) Stop() {
+	t.stopOnce.Do(t.stop)
+}
+
+func (t *Transport) stop() {
 	close(t.stopCh)
 	t.cancel()
+
+	// No peer is connected from now on
+	t.connMu.Lock()
+	defer t.connMu.Unlock()
 	t.wg.Wait()
 
 	// Close sockets
 	if t.pub != nil {
 		t.pub.Close()
 	}
-	if t.sub != nil {
-		t.sub.Close()
-	}
 	if t.router != nil {
 		t.router.Close()
 	}
 
-	// Close dealer sockets
+	// Close peer sockets
 	t.mu.Lock()
+	for _, sub := range t.subs {
+		sub.Close()
+	}
 	for _, dealer := range t.dealers {
 		dealer.Close()
 	}
@@ -164,19 +171,27 @@ func (t *Transport) ConnectPeer(peerID string, port int) error {
 
 // ConnectPeerWithAddress establishes a connection to a peer at a specific address
 func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) error {
-	t.mu.Lock()
-	defer t.mu.Unlock()
+	t.connMu.Lock()
+	defer t.connMu.Unlock()
+
+	if err := t.ctx.Err(); err != nil {
+		return fmt.Errorf("failed to connect to %s: %w", peerID, err)
+	}
 
 	// Check if already connected
-	for _, p := range t.peers {
+	for _, p := range t.GetPeers() {
 		if p == peerID {
 			return nil // Already connected
 		}
 	}
 
 	// Subscribe to peer's broadcasts
+	sub := zmq4.NewSub(t.ctx)
+	sub.SetOption(zmq4.OptionSubscribe, "")
+
 	subAddr := fmt.Sprintf("tcp://%s:%d", address, port)
-	if err := t.sub.Dial(subAddr); err != nil {
+	if err := sub.Dial(subAddr); err != nil {
+		sub.Close()
 		return fmt.Errorf("failed to connect sub to %s at %s: %w", peerID, subAddr, err)
 	}
 
@@ -185,28 +200,42 @@ func (t *Transport) ConnectPeerWithAddress(peerID, address string, port int) err
 
 	routerAddr := fmt.Sprintf("tcp://%s:%d", address, port+1000)
 	if err := dealer.Dial(routerAddr); err != nil {
+		sub.Close()
+		dealer.Close()
 		return fmt.Errorf("failed to connect dealer to %s at %s: %w", peerID, routerAddr, err)
 	}
 
+	t.mu.Lock()
+	t.subs[peerID] = sub
 	t.dealers[peerID] = dealer
 	t.peers = append(t.peers, peerID)
+	t.mu.Unlock()
+
+	t.wg.Add(1)
+	go t.subLoop(peerID, sub)
 
 	return nil
 }
 
 // DisconnectPeer removes a peer connection
 func (t *Transport) DisconnectPeer(peerID string) {
+	t.connMu.Lock()
+	defer t.connMu.Unlock()
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
-	// Close and remove dealer
+	// Close and remove sockets
+	if sub, ok := t.subs[peerID]; ok {
+		sub.Close()
+		delete(t.subs, peerID)
+	}
 	if dealer, ok := t.dealers[peerID]; ok {
 		dealer.Close()
 		delete(t.dealers, peerID)
 	}
 
 	// Remove from peers list
-	newPeers := make([]string, 0, len(t.peers)-1)
+	newPeers := make([]string, 0, len(t.peers))
 	for _, p := range t.peers {
 		if p != peerID {
 			newPeers = append(newPeers, p)
@@ -217,6 +246,10 @@ func (t *Transport) DisconnectPeer(peerID string) {
 
 // Broadcast sends a message to all connected peers
 func (t *Transport) Broadcast(msg *Message) error {
+	if t.pub == nil {
+		return fmt.Errorf("transport not started")
+	}
+
 	msg.From = t.nodeID
 	msg.Timestamp = time.Now().UnixNano()
 
@@ -321,8 +354,8 @@ func (t *Transport) GetMetrics() (sent, received, dropped uint64) {
 	return t.msgSent.Load(), t.msgReceived.Load(), t.msgDropped.Load()
 }
 
-// subLoop processes broadcast messages
-func (t *Transport) subLoop() {
+// subLoop processes broadcast messages of a peer, until it is disconnected
+func (t *Transport) subLoop(peerID string, sub zmq4.Socket) {
 	defer t.wg.Done()
 
 	for {
@@ -332,11 +365,17 @@ func (t *Transport) subLoop() {
 		case <-t.ctx.Done():
 			return
 		default:
-			msg, err := t.sub.Recv()
+			msg, err := sub.Recv()
 			if err != nil {
 				if err == context.Canceled || err == context.DeadlineExceeded {
 					return
 				}
+				t.mu.RLock()
+				connected := t.subs[peerID] == sub
+				t.mu.RUnlock()
+				if !connected {
+					return
+				}
 				// Transient error, continue
 				continue
 			}
-- 
2.43.0


From 7bdffceba14fcc30f113b47026503d253a6273c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:36 +0000
Subject: [PATCH 31/43] fix: derive the CURVE public key from the secret key

The public key was the secret key itself.
---
 auth.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/auth.go b/auth.go
index 236029e..2b55119 100644
--- a/auth.go
+++ b/auth.go
@@ -5,6 +5,7 @@
 package zmq4
 
 import (
+	"crypto/ecdh"
 	"crypto/rand"
 	"encoding/hex"
 	"fmt"
@@ -14,27 +15,27 @@ import (
 
 // NewCurveKeypair generates a new CURVE keypair
 func NewCurveKeypair() (publicKey, secretKey string, err error) {
-	// Simple random key generation - real implementation would use luxfi/crypto
-	secret := make([]byte, 32)
-	if _, err = rand.Read(secret); err != nil {
+	secret, err := ecdh.X25519().GenerateKey(rand.Reader)
+	if err != nil {
 		return "", "", err
 	}
-	public := make([]byte, 32)
-	copy(public, secret)
 
-	publicKey = hex.EncodeToString(public)
-	secretKey = hex.EncodeToString(secret)
+	publicKey = hex.EncodeToString(secret.PublicKey().Bytes())
+	secretKey = hex.EncodeToString(secret.Bytes())
 	return publicKey, secretKey, nil
 }
 
 // AuthCurvePublic derives the public key from a secret key
 func AuthCurvePublic(secretKey string) (string, error) {
-	// Simplified - real implementation would use luxfi/crypto
-	_, err := hex.DecodeString(secretKey)
+	raw, err := hex.DecodeString(secretKey)
+	if err != nil {
+		return "", err
+	}
+	secret, err := ecdh.X25519().NewPrivateKey(raw)
 	if err != nil {
 		return "", err
 	}
-	return secretKey, nil
+	return hex.EncodeToString(secret.PublicKey().Bytes()), nil
 }
 
 // Z85encode encodes binary data to Z85 text format
-- 
2.43.0


From 4756c6cd24eb73caac913087f891592a82e8b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 32/43] fix: keep PLAIN credentials, and check what a PLAIN
 client sends

The credentials were forgotten after the first connection, and cut at 255
bytes; the form of HELLO and the name of INITIATE were not looked at.
---
 security/plain/plain.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/security/plain/plain.go b/security/plain/plain.go
index 6a8d87d..72340d0 100644
--- a/security/plain/plain.go
+++ b/security/plain/plain.go
@@ -64,6 +64,9 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		if err != nil {
 			return fmt.Errorf("security/plain: could not receive INITIATE from client: %w", err)
 		}
+		if cmd.Name != zmq4.CmdInitiate {
+			return fmt.Errorf("security/plain: expected INITIATE command")
+		}
 
 		err = conn.Peer.Meta.UnmarshalZMTP(cmd.Body)
 		if err != nil {
@@ -82,6 +85,9 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		}
 
 	case !server:
+		if len(sec.user) > 255 || len(sec.pass) > 255 {
+			return fmt.Errorf("security/plain: user or password too long")
+		}
 		hello := make([]byte, 0, len(sec.user)+len(sec.pass)+2)
 		hello = append(hello, byte(len(sec.user)))
 		hello = append(hello, sec.user...)
@@ -126,9 +132,6 @@ func (sec *security) Handshake(conn *zmq4.Conn, server bool) error {
 		if err != nil {
 			return fmt.Errorf("security/plain: could not unmarshal peer metadata: %w", err)
 		}
-
-		sec.user = nil
-		sec.pass = nil
 	}
 	return nil
 }
@@ -143,15 +146,17 @@ func (security) Decrypt(w io.Writer, data []byte) (int, error) {
 	return w.Write(data)
 }
 
-// validateHello validates the user/passwd credentials.
+// validateHello validates the form of the user/passwd credentials.
 func validateHello(body []byte) error {
-	//	n := int(body[0])
-	//	user := body[1 : 1+n]
-	//	body = body[1+n:]
-	//	n = int(body[0])
-	//	pass := body[1 : 1+n]
-	//	body = body[1+n:]
-	//	log.Printf("user=%q, pass=%q, body=%q", user, pass, body)
+	for _, name := range []string{"user", "password"} {
+		if len(body) == 0 || len(body)-1 < int(body[0]) {
+			return fmt.Errorf("security/plain: truncated %s", name)
+		}
+		body = body[1+int(body[0]):]
+	}
+	if len(body) != 0 {
+		return fmt.Errorf("security/plain: data after the password")
+	}
 	return nil
 }
 
-- 
2.43.0


From 4ecf440db296a733bf8ff3fbf5503c22cb5e8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 33/43] fix: let Proxy forward one way between PULL or SUB and
 PUSH or PUB

It returned at once, because such sockets cannot receive or send.
---
 proxy.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/proxy.go b/proxy.go
index 097f85f..68b302d 100644
--- a/proxy.go
+++ b/proxy.go
@@ -15,11 +15,17 @@ func Proxy(frontend, backend Socket) error {
 		return fmt.Errorf("frontend and backend sockets are required")
 	}
 
+	forth := canRecv(frontend) && canSend(backend)
+	back := canRecv(backend) && canSend(frontend)
+	if !forth && !back {
+		return fmt.Errorf("no messages can be forwarded between %s and %s", frontend.Type(), backend.Type())
+	}
+
 	errChan := make(chan error, 2)
 
 	// Frontend to backend
 	go func() {
-		for {
+		for forth {
 			msg, err := frontend.Recv()
 			if err != nil {
 				errChan <- err
@@ -34,7 +40,7 @@ func Proxy(frontend, backend Socket) error {
 
 	// Backend to frontend
 	go func() {
-		for {
+		for back {
 			msg, err := backend.Recv()
 			if err != nil {
 				errChan <- err
@@ -50,3 +56,13 @@ func Proxy(frontend, backend Socket) error {
 	// Wait for first error
 	return <-errChan
 }
+
+// canRecv returns whether messages can be received from the socket.
+func canRecv(s Socket) bool {
+	return s.Type() != Push && s.Type() != Pub
+}
+
+// canSend returns whether messages can be sent to the socket.
+func canSend(s Socket) bool {
+	return s.Type() != Pull
+}
-- 
2.43.0


From 85becf5ad6e31222832b00f59fc0b5d8d5a3591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 34/43] fix: Recv of a closed REP or REQ could still return a
 queued message

---
 rep.go | 3 +++
 req.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rep.go b/rep.go
index eefa747..aa786c6 100644
--- a/rep.go
+++ b/rep.go
@@ -139,6 +139,9 @@ func (r *repReader) rmConn(conn *Conn) {
 }
 
 func (r *repReader) read(ctx context.Context, msg *Msg) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	select {
 	case <-ctx.Done():
 		return ctx.Err()
diff --git a/req.go b/req.go
index b68125a..343952e 100644
--- a/req.go
+++ b/req.go
@@ -223,6 +223,9 @@ func (r *reqReader) listen(c *Conn) {
 }
 
 func (r *reqReader) read(ctx context.Context, msg *Msg) error {
+	if err := ctx.Err(); err != nil {
+		return err
+	}
 	curConn := r.state.Get()
 	if curConn == nil {
 		return fmt.Errorf("zmq4: no connections available")
-- 
2.43.0


From 80d46f6186cf71f0fc693e4baa0a1585384debae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 35/43] fix: after a failed decryption the rest of the message
 was received as another

---
 conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn.go b/conn.go
index 5d036a4..b308db3 100644
--- a/conn.go
+++ b/conn.go
@@ -584,6 +584,8 @@ func (c *Conn) read() Msg {
 
 		buf := new(bytes.Buffer)
 		if _, msg.err = c.sec.Decrypt(buf, body); msg.err != nil {
+			// what is left of the message must not be taken for another
+			c.SetClosed()
 			return msg
 		}
 		msg.Frames = append(msg.Frames, buf.Bytes())
-- 
2.43.0


From 39cc15254303d3151577e53fd8c994bb24f98a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 36/43] fix: the body of an oversized frame was received as
 messages

---
 conn.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conn.go b/conn.go
index b308db3..c9e7652 100644
--- a/conn.go
+++ b/conn.go
@@ -564,7 +564,9 @@ func (c *Conn) read() Msg {
 		}
 
 		if size > uint64(maxInt64) {
+			// the frame cannot be skipped
 			msg.err = errOverflow
+			c.SetClosed()
 			return msg
 		}
 
-- 
2.43.0


From 6154c94bb5ad2d0bc41b72613663aa4371350346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:44 +0000
Subject: [PATCH 37/43] fix: a message sent to a peer and then broadcast passed
 for a direct message

---
 networking/transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/networking/transport.go b/networking/transport.go
index a58e571..7a53414 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -251,6 +251,7 @@ func (t *Transport) Broadcast(msg *Message) error {
 	}
 
 	msg.From = t.nodeID
+	msg.To = "" // msg may have been sent to a peer before
 	msg.Timestamp = time.Now().UnixNano()
 
 	data, err := json.Marshal(msg)
-- 
2.43.0


From 4c165fc89b363e906376904b8112a7b7169ac15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 38/43] fix: a second or failed Start of a transport left its
 sockets behind

---
 networking/transport.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/networking/transport.go b/networking/transport.go
index 7a53414..2af8d17 100644
--- a/networking/transport.go
+++ b/networking/transport.go
@@ -111,20 +111,34 @@ func New(ctx context.Context, config Config) *Transport {
 
 // Start initializes the transport
 func (t *Transport) Start() error {
+	t.connMu.Lock()
+	defer t.connMu.Unlock()
+
+	if err := t.ctx.Err(); err != nil {
+		return fmt.Errorf("failed to start: %w", err)
+	}
+	if t.pub != nil {
+		return fmt.Errorf("transport already started")
+	}
+
 	// PUB socket for broadcasting
-	t.pub = zmq4.NewPub(t.ctx)
+	pub := zmq4.NewPub(t.ctx)
 	pubAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort)
-	if err := t.pub.Listen(pubAddr); err != nil {
+	if err := pub.Listen(pubAddr); err != nil {
+		pub.Close()
 		return fmt.Errorf("failed to bind pub socket on %s: %w", pubAddr, err)
 	}
 
 	// ROUTER socket for direct messages
-	t.router = zmq4.NewRouter(t.ctx)
+	router := zmq4.NewRouter(t.ctx)
 	routerAddr := fmt.Sprintf("tcp://%s:%d", t.config.BindAddress, t.config.BasePort+1000)
-	if err := t.router.Listen(routerAddr); err != nil {
+	if err := router.Listen(routerAddr); err != nil {
+		pub.Close()
+		router.Close()
 		return fmt.Errorf("failed to bind router socket on %s: %w", routerAddr, err)
 	}
 
+	t.pub, t.router = pub, router
 	t.wg.Add(1)
 	go t.routerLoop()
 
-- 
2.43.0


From 9ffbd9bf7960974dc40d050d01bab20279af50e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 39/43] fix: a message with a heartbeat between its frames was
 lost

---
 conn.go | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/conn.go b/conn.go
index c9e7652..7f71fc2 100644
--- a/conn.go
+++ b/conn.go
@@ -336,17 +336,22 @@ func (c *Conn) recvUsr() Msg {
 		if len(msg.Frames) != 1 {
 			return Msg{err: ErrBadFrame}
 		}
-		var cmd Cmd
-		err := cmd.unmarshalZMTP(msg.Frames[0])
-		if err == nil && cmd.Name == CmdPing {
-			err = c.sendPong(cmd)
-		}
-		if err != nil {
+		if err := c.traffic(msg.Frames[0]); err != nil {
 			return Msg{err: err}
 		}
 	}
 }
 
+// traffic deals with a command among the traffic.
+func (c *Conn) traffic(body []byte) error {
+	var cmd Cmd
+	err := cmd.unmarshalZMTP(body)
+	if err == nil && cmd.Name == CmdPing {
+		err = c.sendPong(cmd)
+	}
+	return err
+}
+
 // sendPong answers a PING: its body is a 16-bit time-to-live and a context,
 // and the latter goes into the answer.
 func (c *Conn) sendPong(ping Cmd) error {
@@ -543,8 +548,10 @@ func (c *Conn) read() Msg {
 
 		fl := flag(header[0])
 
-		hasMore = fl.hasMore()
-		isCmd = isCmd || fl.isCommand()
+		// libzmq sends its heartbeats also between the frames of a message
+		isInner := fl.isCommand() && !fl.hasMore() && len(msg.Frames) > 0 && !isCmd
+		hasMore = fl.hasMore() || isInner
+		isCmd = isCmd || fl.isCommand() && !isInner
 
 		// Determine the actual length of the body
 		size := uint64(header[1])
@@ -580,17 +587,24 @@ func (c *Conn) read() Msg {
 		// fast path for NULL security: we bypass the bytes.Buffer allocation.
 		switch c.sec.Type() {
 		case NullSecurity: // FIXME(sbinet): also do that for non-encrypted PLAIN?
-			msg.Frames = append(msg.Frames, body)
-			continue
+		default:
+			buf := new(bytes.Buffer)
+			if _, msg.err = c.sec.Decrypt(buf, body); msg.err != nil {
+				// what is left of the message must not be taken for another
+				c.SetClosed()
+				return msg
+			}
+			body = buf.Bytes()
 		}
 
-		buf := new(bytes.Buffer)
-		if _, msg.err = c.sec.Decrypt(buf, body); msg.err != nil {
-			// what is left of the message must not be taken for another
-			c.SetClosed()
-			return msg
+		if isInner {
+			if msg.err = c.traffic(body); msg.err != nil {
+				c.SetClosed()
+				return msg
+			}
+			continue
 		}
-		msg.Frames = append(msg.Frames, buf.Bytes())
+		msg.Frames = append(msg.Frames, body)
 	}
 	if isCmd {
 		msg.Type = CmdMsg
-- 
2.43.0


From 2837e0c7ac645053bfff7f6a45eee3e28eefbe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:47 +0000
Subject: [PATCH 40/43] fix: a publisher that did not read its subscriptions
 blocked a SUB socket for all others

Subscriptions were written to each connection in turn, with the lock that orders
them held and without a deadline: a peer that finished its handshake and then did
not read kept every later peer from being added and SetOption from returning.
---
 socket.go |  10 +----
 sub.go    | 108 +++++++++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 109 insertions(+), 9 deletions(-)

diff --git a/socket.go b/socket.go
index d6f2da4..a6eca03 100644
--- a/socket.go
+++ b/socket.go
@@ -40,7 +40,6 @@ type socket struct {
 	maxRetries    int
 	sec           Security
 	log           *log.Logger
-	subTopics     func() []string
 	subMu         sync.Mutex // orders subscription changes and new connections
 	autoReconnect bool
 	timeout       time.Duration
@@ -376,13 +375,8 @@ func (sck *socket) retryDial(retries *int) bool {
 func (sck *socket) addConn(c *Conn) {
 	// A new connection gets all current subscriptions (if there are any),
 	// and after that every change to them.
-	if sck.subTopics != nil {
-		sck.subMu.Lock()
-		defer sck.subMu.Unlock()
-		for _, topic := range sck.subTopics() {
-			_ = c.SendMsg(NewMsg(append([]byte{1}, topic...)))
-		}
-	}
+	sck.subMu.Lock()
+	defer sck.subMu.Unlock()
 
 	sck.mu.Lock()
 	if sck.isClosed {
diff --git a/sub.go b/sub.go
index 608af7d..61152ee 100644
--- a/sub.go
+++ b/sub.go
@@ -16,7 +16,7 @@ import (
 func NewSub(ctx context.Context, opts ...Option) Socket {
 	sub := &subSocket{sck: newSocket(ctx, Sub, opts...)}
 	sub.sck.r = newQReader(sub.sck.ctx)
-	sub.sck.subTopics = sub.Topics
+	sub.sck.w = newSubMWriter(sub.sck.ctx, sub.Topics)
 	sub.topics = make(map[string]struct{})
 	return sub
 }
@@ -143,7 +143,113 @@ func (sub *subSocket) subscribe(topic string, v int) {
 	sub.mu.Unlock()
 }
 
+// subMWriter writes subscriptions to a pool of connections.
+// Each connection gets them in order, but none waits for another one.
+type subMWriter struct {
+	ctx    context.Context
+	topics func() []string // current subscriptions
+	mu     sync.Mutex
+	ws     map[*Conn]*subQueue
+	sem    *semaphore
+}
+
+// subQueue holds what is to be written to a connection.
+type subQueue struct {
+	msgs []Msg
+	wake chan struct{} // filled when there are messages, closed at the end
+}
+
+func newSubMWriter(ctx context.Context, topics func() []string) *subMWriter {
+	return &subMWriter{
+		ctx:    ctx,
+		topics: topics,
+		ws:     make(map[*Conn]*subQueue),
+		sem:    newSemaphore(),
+	}
+}
+
+func (mw *subMWriter) Close() error {
+	mw.mu.Lock()
+	defer mw.mu.Unlock()
+	var err error
+	for c, q := range mw.ws {
+		e := c.Close()
+		if e != nil && err == nil {
+			err = e
+		}
+		close(q.wake)
+	}
+	mw.ws = make(map[*Conn]*subQueue)
+	return err
+}
+
+func (mw *subMWriter) addConn(c *Conn) {
+	q := &subQueue{wake: make(chan struct{}, 1)}
+	for _, topic := range mw.topics() {
+		q.put(NewMsg(append([]byte{1}, topic...)))
+	}
+	mw.mu.Lock()
+	mw.sem.enable()
+	mw.ws[c] = q
+	mw.mu.Unlock()
+	go mw.drain(c, q)
+}
+
+func (mw *subMWriter) rmConn(c *Conn) {
+	mw.mu.Lock()
+	defer mw.mu.Unlock()
+	if q, ok := mw.ws[c]; ok {
+		close(q.wake)
+		delete(mw.ws, c)
+	}
+}
+
+// drain writes what is queued for c until the end of c, or of the socket.
+func (mw *subMWriter) drain(c *Conn, q *subQueue) {
+	for {
+		select {
+		case <-mw.ctx.Done():
+			return
+		case _, ok := <-q.wake:
+			if !ok {
+				return
+			}
+		}
+		mw.mu.Lock()
+		msgs := q.msgs
+		q.msgs = nil
+		mw.mu.Unlock()
+		for _, msg := range msgs {
+			if c.SendMsg(msg) != nil && c.Closed() {
+				return
+			}
+		}
+	}
+}
+
+func (q *subQueue) put(msg Msg) {
+	q.msgs = append(q.msgs, msg)
+	select {
+	case q.wake <- struct{}{}:
+	default:
+	}
+}
+
+func (mw *subMWriter) write(ctx context.Context, msg Msg) error {
+	mw.sem.lock(ctx)
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+	mw.mu.Lock()
+	defer mw.mu.Unlock()
+	for _, q := range mw.ws {
+		q.put(msg)
+	}
+	return nil
+}
+
 var (
+	_ wpool  = (*subMWriter)(nil)
 	_ Socket = (*subSocket)(nil)
 	_ Topics = (*subSocket)(nil)
 )
-- 
2.43.0


From d3e370702d1083ad22d818759dc030ab5fbe623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:21 +0000
Subject: [PATCH 41/43] fix: connections that were gone stayed in the reaper's
 list

---
 socket.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/socket.go b/socket.go
index a6eca03..c9c21e6 100644
--- a/socket.go
+++ b/socket.go
@@ -512,11 +512,11 @@ func (sck *socket) connReaper() {
 			return
 		}
 
-		// Clone the known closed connections to avoid data race
+		// Take the known closed connections to avoid data race
 		// and remove those under reaper unlocked.
 		// That should fix the deadlock reported in #149.
-		cc := append([]*Conn{}, sck.closedConns...) // clone
-		sck.closedConns = sck.closedConns[:0]
+		cc := sck.closedConns
+		sck.closedConns = nil // must not keep them either
 		sck.reaperCond.L.Unlock()
 		for _, c := range cc {
 			sck.rmConn(c)
-- 
2.43.0


From 68ca5961ea22fabea8b9a313fa1e1d83e78d9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:03 +0000
Subject: [PATCH 42/43] fix: PUB and XPUB must not keep the caller's frames
 after Send

The message is queued per subscriber and written later; a caller that reused
its buffers in between changed what subscribers received.
---
 pub.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pub.go b/pub.go
index 717a92c..15f9ce0 100644
--- a/pub.go
+++ b/pub.go
@@ -305,6 +305,10 @@ func (w *pubMWriter) write(ctx context.Context, msg Msg) error {
 	w.mu.RLock()
 	defer w.mu.RUnlock()
 
+	if len(w.subscribers) > 0 {
+		// The message is sent later: until then the caller may have reused its frames.
+		msg = msg.Clone()
+	}
 	for _, channel := range w.subscribers {
 		select {
 		case <-ctx.Done():
-- 
2.43.0


From 75f18283882211d7c889512db2c307956ef916ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:03 +0000
Subject: [PATCH 43/43] fix: ROUTER must give every message its own identity
 frame

All messages of a peer shared the memory of one: an application that wrote to
it changed the label of the messages it received later.
---
 router.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/router.go b/router.go
index b429a06..f990a68 100644
--- a/router.go
+++ b/router.go
@@ -157,13 +157,13 @@ func (q *routerQReader) listen(ctx context.Context, r *Conn) {
 	defer q.rmConn(r)
 	defer r.Close()
 
-	id := []byte(r.Peer.Meta[sysSockID])
+	id := r.Peer.Meta[sysSockID]
 	for {
 		msg := r.recvUsr()
 		if msg.err != nil {
 			return
 		}
-		msg.Frames = append([][]byte{id}, msg.Frames...)
+		msg.Frames = append([][]byte{[]byte(id)}, msg.Frames...)
 		select {
 		case <-ctx.Done():
 			return
-- 
2.43.0


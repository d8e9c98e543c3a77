From 75b42cdb8061b876929f8a0c4708df031d5e0885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 01/36] fix: decode polling payloads exactly and refuse
 malformed ones

Packet data is read in full instead of with one Read, binary data of text
payloads is limited to its packet and stripped of base64 padding, and
truncated, negative, overflowing or unmet lengths are errors instead of
panics, large allocations or silently accepted packets.
---
 engine/payload.go | 72 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 17 deletions(-)

diff --git a/engine/payload.go b/engine/payload.go
index b75aeee..ae8ad97 100644
--- a/engine/payload.go
+++ b/engine/payload.go
@@ -2,9 +2,11 @@ package engine
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"errors"
 	"io"
+	"math"
 	"strconv"
 )
 
@@ -143,24 +145,50 @@ func (p *Packet) decode(pr byteReader) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	var rd io.Reader = pr
-	n += l
-	if p.msgType == MessageTypeBinary {
-		rd = base64.NewDecoder(base64.StdEncoding, pr /*io.LimitReader(pr, int64(l))*/)
-		l = base64.StdEncoding.DecodedLen(l)
+	buf, err := readFull(pr, l)
+	n += len(buf)
+	if err != nil {
+		return n, err
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
+	p.data = buf
+	if p.msgType == MessageTypeBinary {
+		p.data = make([]byte, base64.StdEncoding.DecodedLen(l))
+		l, err = base64.StdEncoding.Decode(p.data, buf)
+		p.data = p.data[:l]
 	}
-	_, err = rd.Read(p.data)
 	return n, err
 }
 
+// readFull reads exactly l bytes from r; it allocates as data arrives, whatever l is.
+func readFull(r io.Reader, l int) ([]byte, error) {
+	buf := bytes.NewBuffer([]byte{})
+	_, err := io.CopyN(buf, r, int64(l))
+	return buf.Bytes(), unexpectedEOF(err)
+}
+
+// unexpectedEOF is applied to errors in the midst of a packet.
+func unexpectedEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
+
+// addDigit appends digit d to length, which stays within 31 bits.
+func addDigit(length int, d byte) (int, error) {
+	if length > (math.MaxInt32-int(d))/10 {
+		return 0, ErrInvalidPayload
+	}
+	return length*10 + int(d), nil
+}
+
 func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	for {
 		b, err := r.ReadByte()
 		if err != nil {
+			if n > 0 {
+				err = unexpectedEOF(err)
+			}
 			return n, 0, err
 		}
 		n++
@@ -170,10 +198,13 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		if b < '0' || b > '9' {
 			return n, 0, ErrInvalidPayload
 		}
-		length = length*10 + int(b-'0')
+		if length, err = addDigit(length, b-'0'); err != nil {
+			return n, 0, err
+		}
 	}
 	b, err := r.ReadByte()
 	if err != nil {
+		err = unexpectedEOF(err)
 		return
 	}
 	n++
@@ -181,6 +212,7 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		length--
 		b, err = r.ReadByte()
 		if err != nil {
+			err = unexpectedEOF(err)
 			return
 		}
 		n++
@@ -189,6 +221,9 @@ func (p *Packet) decodeHead(r io.ByteReader) (n int, length int, err error) {
 		p.msgType = MessageTypeString
 	}
 	length--
+	if length < 0 {
+		err = ErrInvalidPayload
+	}
 	p.pktType = PacketType(b - '0')
 	return
 }
@@ -243,6 +278,7 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	for {
 		b, err = r.ReadByte()
 		if err != nil {
+			err = unexpectedEOF(err)
 			return
 		}
 		n++
@@ -253,10 +289,13 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 			err = ErrInvalidPayload
 			return
 		}
-		length = length*10 + int(b)
+		if length, err = addDigit(length, b); err != nil {
+			return
+		}
 	}
 	b, err = r.ReadByte()
 	if err != nil {
+		err = unexpectedEOF(err)
 		return
 	}
 	n++
@@ -265,6 +304,9 @@ func (p *packet2) decodeHead(r io.ByteReader) (n int, length int, err error) {
 	}
 	p.pktType = PacketType(b)
 	length--
+	if length < 0 {
+		err = ErrInvalidPayload
+	}
 	return
 }
 
@@ -273,10 +315,6 @@ func (p *packet2) decode(pr byteReader) (int, error) {
 	if err != nil {
 		return n, err
 	}
-	p.data = make([]byte, l)
-	if l == 0 {
-		return n, nil
-	}
-	nn, err := pr.Read(p.data)
-	return n + nn, err
+	p.data, err = readFull(pr, l)
+	return n + len(p.data), err
 }
-- 
2.43.0


From 9b832caca997e63df0e9dc1f1b4ed125d31b4f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 02/36] fix: send the content type and a valid JSONP call in
 poll responses

The content type was set after WriteHeader and never reached the client, and
the JSONP argument was quoted twice, which is not JavaScript.
---
 engine/polling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index b753e32..03d2648 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -211,7 +211,6 @@ func (p *pollingConn) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusNotFound)
 			return
 		}
-		w.WriteHeader(http.StatusOK)
 		q := r.URL.Query()
 		b64 := q.Get(queryBase64)
 		if jsonp := q.Get(queryJSONP); jsonp != "" {
@@ -310,7 +309,8 @@ func writeJSONP(w http.ResponseWriter, jsonp string, wt io.WriterTo) error {
 	if err != nil {
 		return err
 	}
-	_, err = fmt.Fprintf(w, `___eio[%s]("%s");`, jsonp, buf.String())
+	// the encoder has quoted and escaped the payload, and added a newline
+	_, err = fmt.Fprintf(w, `___eio[%s](%s);`, jsonp, bytes.TrimSpace(buf.Bytes()))
 	return err
 }
 
-- 
2.43.0


From f4af7928857cd25a7b9e631f3c3798c95c2725a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 03/36] fix: lose no outgoing packet to an upgrade

A packet the emitter was writing while the polling connection was paused,
closed and flushed for an upgrade was dropped. The emitter now writes it again
after the upgrade, and the upgrade waits for the write in flight before it
flushes and replaces the connection.
---
 engine/emitter.go | 23 ++++++++++++-----------
 engine/server.go  |  5 +++--
 engine/socket.go  | 13 +++++++++++++
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/engine/emitter.go b/engine/emitter.go
index 618b2c8..2116945 100644
--- a/engine/emitter.go
+++ b/engine/emitter.go
@@ -3,7 +3,6 @@ package engine
 import (
 	"errors"
 	"sync"
-	"time"
 )
 
 var (
@@ -59,11 +58,7 @@ func (e *emitter) loop() {
 		case <-e.done:
 			return
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
 		}
 	}
 }
@@ -72,13 +67,19 @@ func (e *emitter) flush() {
 	for {
 		select {
 		case p := <-e.packets:
-			e.so.barrier.Wait()
-			e.so.RLock()
-			e.so.SetWriteDeadline(time.Now().Add(e.so.writeTimeout))
-			e.so.WritePacket(p)
-			e.so.RUnlock()
+			e.write(p)
 		default:
 			return
 		}
 	}
 }
+
+// write writes p to the connection of the day; it does so again when an upgrade got in between.
+func (e *emitter) write(p *Packet) {
+	for {
+		e.so.barrier.Wait()
+		if err := e.so.writePacket(p); err != ErrPollingConnPaused {
+			return
+		}
+	}
+}
diff --git a/engine/server.go b/engine/server.go
index 63485de..0b64839 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -210,14 +210,15 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
-	conn.Close()
-
+	ß.writing.Lock() // the packet being written is either in conn by now or will be in newConn
+	defer ß.writing.Unlock()
 	for _, packet := range conn.FlushOut() {
 		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))
 		newConn.WritePacket(packet)
 	}
 
 	ß.Lock()
+	conn.Close()
 	ß.Conn = newConn
 	ß.transportName = transportName
 	ß.Conn.copyHeaderFrom(conn)
diff --git a/engine/socket.go b/engine/socket.go
index d8ac152..8852956 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -17,6 +17,7 @@ type Socket struct {
 	barrier       Barrier
 	emitter       *emitter
 	once          sync.Once
+	writing       sync.Mutex // held while a packet is written, and while Conn is replaced
 	sync.RWMutex
 }
 
@@ -43,6 +44,18 @@ func (s *Socket) Read() (p *Packet, err error) {
 	return
 }
 
+func (s *Socket) writePacket(p *Packet) (err error) {
+	s.writing.Lock()
+	defer s.writing.Unlock()
+	s.RLock()
+	conn := s.Conn
+	s.RUnlock()
+	if err = conn.SetWriteDeadline(time.Now().Add(s.writeTimeout)); err != nil {
+		return
+	}
+	return conn.WritePacket(p)
+}
+
 // Close closes underlying connection and background emitter
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
-- 
2.43.0


From 2e2a82ecc664f1df1d2c2ca7aef49c470f154eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:00 +0000
Subject: [PATCH 04/36] fix: keep the session and its incoming order through an
 upgrade

The reader could find the polling connection closed by the upgrade and end the
session. Packets received before the upgrade were handled by the upgrade itself,
beside and ahead of the one being handled by the reader, and, like the upgrade
callback, with the barrier held, so that emitting from there could block for
good. The reader now reads them, and the callback runs after the barrier.
---
 engine/server.go | 14 ++++++++++----
 engine/socket.go |  8 ++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 0b64839..2214627 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -168,6 +168,12 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 }
 
 func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
+	var upgraded *Packet
+	defer func() { // the callback may emit: not before the barrier is resumed
+		if upgraded != nil {
+			s.fire(ß, EventUpgrade, upgraded.msgType, upgraded.data)
+		}
+	}()
 	ß.barrier.Pause()
 	defer ß.barrier.Resume()
 
@@ -217,6 +223,8 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		newConn.WritePacket(packet)
 	}
 
+	ß.reading.Lock() // the reader finds conn paused, and then newConn
+	defer ß.reading.Unlock()
 	ß.Lock()
 	conn.Close()
 	ß.Conn = newConn
@@ -224,8 +232,6 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	ß.Conn.copyHeaderFrom(conn)
 	ß.Unlock()
 
-	for _, packet := range conn.FlushIn() {
-		s.handle(ß, packet)
-	}
-	s.fire(ß, EventUpgrade, p.msgType, p.data)
+	ß.pending = append(ß.pending, conn.FlushIn()...)
+	upgraded = p
 }
diff --git a/engine/socket.go b/engine/socket.go
index 8852956..4365a1f 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -18,6 +18,8 @@ type Socket struct {
 	emitter       *emitter
 	once          sync.Once
 	writing       sync.Mutex // held while a packet is written, and while Conn is replaced
+	reading       sync.Mutex // held while a packet is read, and while Conn is replaced
+	pending       []*Packet  // received before Conn was replaced, to be read first
 	sync.RWMutex
 }
 
@@ -34,6 +36,12 @@ func newSocket(conn Conn, readTimeout, writeTimeout time.Duration, id string) *S
 
 // Read returns a Packet upon success or error on failure
 func (s *Socket) Read() (p *Packet, err error) {
+	s.reading.Lock()
+	defer s.reading.Unlock()
+	if len(s.pending) > 0 {
+		p, s.pending = s.pending[0], s.pending[1:]
+		return
+	}
 	s.RLock()
 	conn := s.Conn
 	s.RUnlock()
-- 
2.43.0


From 1a5f60664b2b3386f23f66cf967ff0ef51882ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 05/36] fix: serve no upgrade request as a poll and refuse what
 is no upgrade

After an upgrade attempt, failed or not, its request was served as a poll of the
session on a hijacked connection, which swallowed a message. A poll of an
upgraded session started an upgrade back to polling that held up the session,
and a websocket request naming a websocket session was answered 200.
---
 engine/server.go | 16 ++++++++++++++--
 engine/socket.go |  7 ++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/engine/server.go b/engine/server.go
index 2214627..c81777e 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -143,25 +143,37 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			return
 		}
 		ß := s.NewSession(conn, s.pingTimeout+s.pingInterval, s.pingTimeout)
+		ß.Lock()
 		ß.transportName = transport.Name()
+		ß.Unlock()
 		select {
 		case <-s.done:
 			return
 		case s.ßchan <- ß:
 		}
-		ß.ServeHTTP(w, r)
+		if _, ok := conn.(http.Handler); ok {
+			ß.ServeHTTP(w, r)
+		}
 	} else {
 		ß, exists := s.sessionManager.Get(sid)
 		if !exists {
 			http.Error(w, "invalid session", http.StatusBadRequest)
 			return
 		}
-		if transportName := transport.Name(); ß.transportName != transportName {
+		ß.RLock()
+		current := ß.transportName
+		ß.RUnlock()
+		if transportName := transport.Name(); current != transportName {
+			if transportName != transportWebsocket {
+				http.Error(w, "invalid transport", http.StatusBadRequest)
+				return
+			}
 			conn, err := transport.Accept(w, r)
 			if err != nil {
 				return
 			}
 			s.upgrade(ß, transportName, conn)
+			return // r belongs to conn, it is not a poll
 		}
 		ß.ServeHTTP(w, r)
 	}
diff --git a/engine/socket.go b/engine/socket.go
index 4365a1f..098f108 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -114,9 +114,14 @@ func (s *Socket) Send(args interface{}) (err error) {
 
 // ServeHTTP implements http.Handler
 func (s *Socket) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	if handler, ok := s.Conn.(http.Handler); ok {
+	s.RLock()
+	conn := s.Conn
+	s.RUnlock()
+	if handler, ok := conn.(http.Handler); ok {
 		handler.ServeHTTP(w, r)
+		return
 	}
+	http.Error(w, "invalid transport", http.StatusBadRequest)
 }
 
 // Sid returns socket session id, assigned by server.
-- 
2.43.0


From dc78886e7601380951c25a16dad70812503b5c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 06/36] fix: end an upgrade in progress when the session is
 closed

Closing a session waited for the whole read timeout of an upgrade in progress,
or left the new connection open, unknown to anyone, when it closed the old one
just before it was replaced.
---
 engine/server.go | 22 ++++++++++++++++++++++
 engine/socket.go |  5 ++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index c81777e..4232369 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -189,6 +189,20 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	ß.barrier.Pause()
 	defer ß.barrier.Resume()
 
+	ended := make(chan struct{})
+	defer close(ended)
+	go func() {
+		select {
+		case <-ß.emitter.done: // the session is closing
+			ß.RLock()
+			if ß.Conn != newConn {
+				newConn.Close()
+			}
+			ß.RUnlock()
+		case <-ended:
+		}
+	}()
+
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
 	p, err := newConn.ReadPacket()
 	if err != nil {
@@ -238,6 +252,14 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	ß.reading.Lock() // the reader finds conn paused, and then newConn
 	defer ß.reading.Unlock()
 	ß.Lock()
+	select {
+	case <-ß.emitter.done: // too late, the session is closing
+		newConn.Close()
+		conn.Resume()
+		ß.Unlock()
+		return
+	default:
+	}
 	conn.Close()
 	ß.Conn = newConn
 	ß.transportName = transportName
diff --git a/engine/socket.go b/engine/socket.go
index 098f108..551a623 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -68,7 +68,10 @@ func (s *Socket) writePacket(p *Packet) (err error) {
 func (s *Socket) Close() (err error) {
 	s.once.Do(func() {
 		s.emitter.close()
-		err = s.Conn.Close()
+		s.RLock()
+		conn := s.Conn
+		s.RUnlock()
+		err = conn.Close()
 	})
 	return
 }
-- 
2.43.0


From ca6738998632655758f3069985ea174dbae4fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 07/36] fix: fire EventClose exactly once for each socket

A CLOSE packet fired it, and the read error that follows fired it again; the
engine client did not fire it at all when the connection was lost.
---
 engine/client.go | 3 ++-
 engine/handle.go | 8 ++++++++
 engine/server.go | 4 ++--
 engine/socket.go | 1 +
 4 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/engine/client.go b/engine/client.go
index 4fab733..cd2836f 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -61,6 +61,7 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 	}()
 	go func() {
 		defer ß.Close()
+		defer c.fireClose(ß, MessageTypeString, nil)
 		var p *Packet
 		var err error
 		for {
@@ -86,7 +87,7 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 	switch p.pktType {
 	case PacketTypeOpen:
 	case PacketTypeClose:
-		c.fire(ß, EventClose, p.msgType, p.data)
+		c.fireClose(ß, p.msgType, p.data)
 		return ß.Close()
 	case PacketTypePing:
 	case PacketTypePong:
diff --git a/engine/handle.go b/engine/handle.go
index 50e0aae..6fdf3c2 100644
--- a/engine/handle.go
+++ b/engine/handle.go
@@ -61,3 +61,11 @@ func (e *eventHandlers) fire(so *Socket, event event, typ MessageType, data []by
 		callable.Call(so, typ, data)
 	}
 }
+
+// fireClose fires EventClose, once for each socket; it is for the reader to call.
+func (e *eventHandlers) fireClose(so *Socket, typ MessageType, data []byte) {
+	if !so.closeFired {
+		so.closeFired = true
+		e.fire(so, EventClose, typ, data)
+	}
+}
diff --git a/engine/server.go b/engine/server.go
index 4232369..7340d57 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -68,7 +68,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 								continue
 							}
 							log.Println("handle:", err.Error())
-							s.fire(ß, EventClose, MessageTypeString, nil)
+							s.fireClose(ß, MessageTypeString, nil)
 							return
 						}
 						if err = s.handle(ß, p); err != nil {
@@ -88,7 +88,7 @@ func (s *Server) handle(ß *Socket, p *Packet) (err error) {
 	switch p.pktType {
 	case PacketTypeOpen:
 	case PacketTypeClose:
-		s.fire(ß, EventClose, p.msgType, p.data)
+		s.fireClose(ß, p.msgType, p.data)
 		return ß.Close()
 	case PacketTypePing:
 		err = ß.Emit(EventPong, p.msgType, p.data)
diff --git a/engine/socket.go b/engine/socket.go
index 551a623..b7a8d22 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -17,6 +17,7 @@ type Socket struct {
 	barrier       Barrier
 	emitter       *emitter
 	once          sync.Once
+	closeFired    bool       // used by the reader only
 	writing       sync.Mutex // held while a packet is written, and while Conn is replaced
 	reading       sync.Mutex // held while a packet is read, and while Conn is replaced
 	pending       []*Packet  // received before Conn was replaced, to be read first
-- 
2.43.0


From 7168e73871c93b02b90deae2c68bf2e77445b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:34 +0000
Subject: [PATCH 08/36] fix: lose nothing that arrives right after the
 handshake

The server started reading a session before the open callback, and the engine
client before the socket.io client had registered its handlers, so that early
packets, the CONNECT of the root namespace among them, were dropped, and a
session that ended early stayed in the server's table for good.
---
 client.go        | 11 ++++++-----
 engine/client.go |  6 +++++-
 engine/server.go |  3 +--
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/client.go b/client.go
index 440f251..c28ab7c 100644
--- a/client.go
+++ b/client.go
@@ -21,10 +21,12 @@ func NewClient() (c *Client) {
 
 // Dial connects to a socket.io server represented by `rawurl` and create Client instance on success.
 func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Dialer, parser Parser) (err error) {
-	e, err := engine.Dial(rawurl, requestHeader, dialer)
-	if err != nil {
-		return
-	}
+	_, err = engine.Dial(rawurl, requestHeader, dialer, func(e *engine.Client) { c.open(e, parser) })
+	return
+}
+
+// open sets c up on e, before e reads anything
+func (c *Client) open(e *engine.Client, parser Parser) {
 	socket := newSocket(e.Socket, parser)
 	c.engine = e
 	c.socket = socket
@@ -49,7 +51,6 @@ func (c *Client) Dial(rawurl string, requestHeader http.Header, dialer engine.Di
 		socket.Close()
 		detachall(c, socket)
 	}))
-	return
 }
 
 // Emit send event messages to namespace `nsp`
diff --git a/engine/client.go b/engine/client.go
index cd2836f..0ae8c86 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -17,7 +17,8 @@ type Client struct {
 }
 
 // Dial connects to a engine.io server represented by `rawurl` and create Client instance on success.
-func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, err error) {
+// Each onOpen is called before anything is read, and is the place to register event handlers.
+func Dial(rawurl string, requestHeader http.Header, dialer Dialer, onOpen ...func(*Client)) (c *Client, err error) {
 	conn, err := dialer.Dial(rawurl, requestHeader)
 	if err != nil {
 		return
@@ -44,6 +45,9 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer) (c *Client, e
 		eventHandlers: newEventHandlers(),
 		closeChan:     closeChan,
 	}
+	for _, fn := range onOpen {
+		fn(c)
+	}
 
 	go func() {
 		var err error
diff --git a/engine/server.go b/engine/server.go
index 7340d57..b898cc6 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -56,6 +56,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 					PingInterval: int(interval / time.Millisecond),
 					PingTimeout:  int(timeout / time.Millisecond),
 				})
+				onOpen(ß) // before anything is read that it has to be ready for
 				go func() {
 					defer ß.Close()
 					defer s.sessionManager.Remove(ß.id)
@@ -76,8 +77,6 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 						}
 					}
 				}()
-
-				onOpen(ß)
 			}
 		}
 	}()
-- 
2.43.0


From 83b935da52dc47b500e68e7703050b4e7227dc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 09/36] fix: refuse handshakes once the server is closed

A handshake after Close, or under way during it, was answered 200 without a
body or hung on a session that no worker would ever serve, and left the session
and its emitter behind.
---
 engine/server.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index b898cc6..59c5fd2 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -26,7 +26,7 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 	s := &Server{
 		pingInterval:   interval,
 		pingTimeout:    timeout,
-		ßchan:          make(chan *Socket, 1),
+		ßchan:          make(chan *Socket),
 		done:           done,
 		sessionManager: newSessionManager(),
 		eventHandlers:  newEventHandlers(),
@@ -137,6 +137,12 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	}
 
 	if sid := query.Get(querySession); sid == "" {
+		select {
+		case <-s.done:
+			http.Error(w, "server closed", http.StatusServiceUnavailable)
+			return
+		default:
+		}
 		conn, err := transport.Accept(w, r)
 		if err != nil {
 			return
@@ -147,6 +153,11 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 		ß.Unlock()
 		select {
 		case <-s.done:
+			s.sessionManager.Remove(ß.id)
+			ß.Close()
+			if _, ok := conn.(http.Handler); ok {
+				http.Error(w, "server closed", http.StatusServiceUnavailable)
+			}
 			return
 		case s.ßchan <- ß:
 		}
-- 
2.43.0


From f01f9fdeb8c2bab5c78dc963b24464dc537000cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 10/36] fix: flush what was emitted when the engine client is
 closed

Client.Close closed the connection under the emitter and dropped what was
queued, unlike Socket.Close.
---
 engine/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/client.go b/engine/client.go
index 0ae8c86..99d05d7 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -109,7 +109,7 @@ func (c *Client) handle(ß *Socket, p *Packet) (err error) {
 func (c *Client) Close() (err error) {
 	c.once.Do(func() {
 		close(c.closeChan)
-		err = c.Conn.Close()
+		err = c.Socket.Close()
 	})
 	return
 }
-- 
2.43.0


From 1fb60d0360f695a0cb6f9d168256e67061543a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:55 +0000
Subject: [PATCH 11/36] fix: read a socket's addresses without racing its
 upgrade

---
 engine/socket.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/engine/socket.go b/engine/socket.go
index b7a8d22..46cbd1c 100644
--- a/engine/socket.go
+++ b/engine/socket.go
@@ -2,6 +2,7 @@ package engine
 
 import (
 	"encoding/json"
+	"net"
 	"net/http"
 	"sync"
 	"time"
@@ -133,6 +134,20 @@ func (s *Socket) Sid() string {
 	return s.id
 }
 
+// LocalAddr returns the local network address.
+func (s *Socket) LocalAddr() net.Addr {
+	s.RLock()
+	defer s.RUnlock()
+	return s.Conn.LocalAddr()
+}
+
+// RemoteAddr returns the remote network address.
+func (s *Socket) RemoteAddr() net.Addr {
+	s.RLock()
+	defer s.RUnlock()
+	return s.Conn.RemoteAddr()
+}
+
 // GetHeader returns the value in http header from client request specified by `key`
 func (s *Socket) GetHeader(key string) (val string) {
 	s.RLock()
-- 
2.43.0


From 76cf86d1900dddcfaadc4b3da6cb92c47e4195de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 12/36] fix: encode the same packet to the same frames every
 time

---
 parser_default.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 09349ad..653183e 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -26,27 +26,33 @@ type defaultEncoder struct{}
 
 func (d defaultEncoder) Encode(p *Packet) ([]byte, [][]byte, error) {
 	var buf bytes.Buffer
-	if err := d.encodeTo(&buf, p); err != nil {
+	q := *p // encoding leaves the caller's packet as it is
+	if err := d.encodeTo(&buf, &q); err != nil {
 		return nil, nil, err
 	}
-	return buf.Bytes(), p.buffer, nil
+	return buf.Bytes(), q.buffer, nil
 }
 
-func (defaultEncoder) preprocess(p *Packet) {
+func (defaultEncoder) preprocess(p *Packet) (err error) {
 	if p.Namespace != "" && p.Namespace[0] != '/' {
 		p.Namespace = "/" + p.Namespace
 	}
 	p.attachments = 0
-	if d, ok := p.Data.([]interface{}); ok {
-		p.buffer = make([][]byte, 0, len(d))
+	p.buffer = nil
+	if args, ok := p.Data.([]interface{}); ok {
+		d := append([]interface{}{}, args...)
 		for i := range d {
 			if b, ok := d[i].(encoding.BinaryMarshaler); ok {
+				bb, err := b.MarshalBinary()
+				if err != nil {
+					return err
+				}
 				d[i] = &placeholder{num: p.attachments}
 				p.attachments++
-				bb, _ := b.MarshalBinary()
 				p.buffer = append(p.buffer, bb)
 			}
 		}
+		p.Data = d
 	}
 	if p.attachments > 0 {
 		switch p.Type {
@@ -56,10 +62,13 @@ func (defaultEncoder) preprocess(p *Packet) {
 			p.Type = PacketTypeBinaryAck
 		}
 	}
+	return nil
 }
 
 func (d defaultEncoder) encodeTo(w üWriter, p *Packet) (err error) {
-	d.preprocess(p)
+	if err = d.preprocess(p); err != nil {
+		return
+	}
 
 	if err = w.WriteByte(byte(p.Type) + '0'); err != nil {
 		return
-- 
2.43.0


From 351fde667405a2f451982305aa85cc2a1e7625c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 13/36] fix: give binary packets their attachment count even
 when it is zero

---
 parser_default.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_default.go b/parser_default.go
index 653183e..6f4bba6 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -73,7 +73,7 @@ func (d defaultEncoder) encodeTo(w üWriter, p *Packet) (err error) {
 	if err = w.WriteByte(byte(p.Type) + '0'); err != nil {
 		return
 	}
-	if p.attachments > 0 {
+	if p.attachments > 0 || p.Type == PacketTypeBinaryEvent || p.Type == PacketTypeBinaryAck {
 		if _, err = io.WriteString(w, strconv.Itoa(p.attachments)); err != nil {
 			return
 		}
-- 
2.43.0


From 3bdf812b9cb13c1a2f3ee1b8079ddcab9e85ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 14/36] fix: decode namespaces as they are, whatever characters
 they contain

---
 parser_default.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 6f4bba6..d442f75 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -6,10 +6,10 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
-	"net/url"
 	"reflect"
 	"regexp"
 	"strconv"
+	"strings"
 )
 
 type defaultParser struct{}
@@ -249,11 +249,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			}
 		}
 		p.Namespace = string(s[i:j])
-		u, err := url.Parse(p.Namespace)
-		if err != nil {
-			return nil, fmt.Errorf("failed to parse namespace from %q", p.Namespace)
+		if k := strings.IndexByte(p.Namespace, '?'); k >= 0 {
+			p.Namespace = p.Namespace[:k] // strip query
 		}
-		p.Namespace = u.Path
 
 		i = j + 1
 		if i >= len(s) {
-- 
2.43.0


From d19f73ad2e46959053085c8841f732d0a60ccace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 15/36] fix: refuse packets whose id or attachment count
 overflows

---
 parser_default.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index d442f75..521cab5 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -233,6 +233,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			if s[j] < '0' || s[j] > '9' {
 				return nil, ErrUnknownPacket
 			}
+			if p.attachments > len(s) { // more than there can be placeholders
+				return nil, ErrUnknownPacket
+			}
 			p.attachments = p.attachments*10 + int(s[j]-'0')
 		}
 		i = j + 1
@@ -261,13 +264,12 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 
 	if s[i] >= '0' && s[i] <= '9' { // decode id
 		j := i + 1
-		var id = uint64(s[i] - '0')
-		for ; j < len(s); j++ {
-			if s[j] >= '0' && s[j] <= '9' {
-				id = id*10 + uint64(s[j]-'0')
-			} else {
-				break
-			}
+		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
+			j++
+		}
+		id, err := strconv.ParseUint(string(s[i:j]), 10, 64)
+		if err != nil {
+			return nil, ErrUnknownPacket
 		}
 		p.ID = newid(id)
 		i = j
-- 
2.43.0


From ba0f62e77476d96b434b5e0b596e99da63ac1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:01 +0000
Subject: [PATCH 16/36] fix: read event names as the JSON strings they are

---
 parser_default.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/parser_default.go b/parser_default.go
index 521cab5..c7b1ef5 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -306,12 +306,26 @@ func newid(id uint64) *uint64 {
 }
 
 func extractEvent(b []byte) (event string, left []byte, match bool) {
-	if sub := eventExp.FindSubmatch(b); sub != nil {
-		event = string(sub[1])
-		left = eventExp.ReplaceAll(b, []byte{'['})
-		match = true
+	var args []json.RawMessage
+	if json.Unmarshal(b, &args) != nil || len(args) < 1 || args[0][0] != '"' {
+		return
 	}
-	return
+	if json.Unmarshal(args[0], &event) != nil || event == "" {
+		return
+	}
+	return event, joinList(args[1:]), true
+}
+
+// joinList is the JSON list of args
+func joinList(args []json.RawMessage) []byte {
+	b := []byte{'['}
+	for i := range args {
+		if i > 0 {
+			b = append(b, ',')
+		}
+		b = append(b, args[i]...)
+	}
+	return append(b, ']')
 }
 
 func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
@@ -323,7 +337,6 @@ func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
 }
 
 var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
-var eventExp = regexp.MustCompile(`^\[\s*"(?P<event>[^"]+)"\s*,?`)
 
 type placeholder struct {
 	num int
-- 
2.43.0


From b2035414e996967f7ca2fc0310bf78ab5ff1f5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 17/36] fix: find attachment placeholders wherever they are and
 match them by number

---
 packet.go         |  1 +
 parser_default.go | 57 ++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/packet.go b/packet.go
index 858cb0d..e9fe14d 100644
--- a/packet.go
+++ b/packet.go
@@ -15,6 +15,7 @@ type Packet struct {
 
 	attachments int
 	buffer      [][]byte
+	nums        []int // attachment numbers of the placeholders in Data, in order
 }
 
 // DecodeMsg implements msgp.Decodable
diff --git a/parser_default.go b/parser_default.go
index c7b1ef5..c6ee13a 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -203,6 +203,13 @@ func (d *defaultDecoder) Add(msgType MessageType, data []byte) error {
 }
 
 func (d *defaultDecoder) emit() {
+	if p := d.lastp; p.nums != nil { // put the attachments in the order of their placeholders
+		buffer := make([][]byte, len(p.nums))
+		for i, num := range p.nums {
+			buffer[i] = p.buffer[num]
+		}
+		p.buffer = buffer
+	}
 	select {
 	case d.packets <- d.lastp:
 		d.lastp = nil
@@ -290,8 +297,16 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			err = fmt.Errorf("data should be a list of arguments but got %c", s[i])
 			return
 		}
-		p.Data = s[i:]
-		p.buffer, p.Data = extractAttachments(s[i:])
+		if !json.Valid(s[i:]) {
+			return nil, ErrUnknownPacket
+		}
+		p.nums, p.Data = extractPlaceholders(s[i:])
+		for _, num := range p.nums {
+			if num < 0 || num >= p.attachments {
+				return nil, ErrUnknownPacket
+			}
+		}
+		p.buffer = make([][]byte, len(p.nums))
 	default:
 		err = json.Unmarshal(s[i:], &p.Data)
 	}
@@ -328,15 +343,45 @@ func joinList(args []json.RawMessage) []byte {
 	return append(b, ']')
 }
 
+// extractAttachments takes the placeholders out of b and makes room for the attachments they stand for
 func extractAttachments(b []byte) (buffer [][]byte, left []byte) {
-	if m := placeholderExp.FindAllSubmatch(b, -1); m != nil {
-		buffer = make([][]byte, len(m))
+	nums, left := extractPlaceholders(b)
+	if nums != nil {
+		buffer = make([][]byte, len(nums))
 	}
-	left = placeholderExp.ReplaceAllLiteral(b, nil)
 	return
 }
 
-var placeholderExp = regexp.MustCompile(`\s*,\s*\{\s*"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*\d*?\s*\}\s*`)
+// extractPlaceholders takes the placeholders out of b, which is valid JSON; nums are their numbers, in order
+func extractPlaceholders(b []byte) (nums []int, left []byte) {
+	for {
+		m := placeholderExp.FindSubmatchIndex(b)
+		if m == nil {
+			return nums, append(left, b...)
+		}
+		num := m[2:4]
+		if num[0] < 0 {
+			num = m[4:6]
+		}
+		n, err := strconv.Atoi(string(b[num[0]:num[1]]))
+		if err != nil {
+			n = -1
+		}
+		nums = append(nums, n)
+		left = bytes.TrimRight(append(left, b[:m[0]]...), " \t\r\n")
+		b = bytes.TrimLeft(b[m[1]:], " \t\r\n")
+		switch {
+		case bytes.HasSuffix(left, []byte{':'}): // value of an object's member
+			left = append(left, "null"...)
+		case bytes.HasSuffix(left, []byte{','}):
+			left = left[:len(left)-1]
+		default:
+			b = bytes.TrimPrefix(b, []byte{','})
+		}
+	}
+}
+
+var placeholderExp = regexp.MustCompile(`\{\s*(?:"_placeholder"\s*:\s*true\s*,\s*"num"\s*:\s*(\d+)|"num"\s*:\s*(\d+)\s*,\s*"_placeholder"\s*:\s*true)\s*\}`)
 
 type placeholder struct {
 	num int
-- 
2.43.0


From 215b524bee964f6570e835b4f826eb42480bcb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:59 +0000
Subject: [PATCH 18/36] fix: attach no binary frame to a packet before a
 malformed frame

---
 parser_default.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser_default.go b/parser_default.go
index c6ee13a..ef9be8b 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -185,6 +185,7 @@ func (d *defaultDecoder) Add(msgType MessageType, data []byte) error {
 		d.lastp.buffer[i] = data
 		d.lastp.attachments--
 	} else {
+		d.lastp = nil // whatever is incomplete stays so
 		p, err := d.decode(data)
 		if err != nil {
 			return err
-- 
2.43.0


From de8ec85d67eb7854fc36737269281e2bec65e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 19/36] fix: refuse events and acks whose data is no JSON

---
 parser_default.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser_default.go b/parser_default.go
index ef9be8b..6d5958d 100644
--- a/parser_default.go
+++ b/parser_default.go
@@ -292,6 +292,9 @@ func (defaultDecoder) decode(s []byte) (p *Packet, err error) {
 			err = fmt.Errorf("data should be a list of arguments but got %c", s[i])
 			return
 		}
+		if !json.Valid(s[i:]) {
+			return nil, ErrUnknownPacket
+		}
 		p.Data = s[i:]
 	case PacketTypeBinaryAck, PacketTypeBinaryEvent:
 		if s[i] != '[' {
-- 
2.43.0


From e02c33d5abb9a8eb32da9d3fefd7fb2379f519ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 20/36] fix: keep the frames of a packet together when several
 are emitted at once

---
 socket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/socket.go b/socket.go
index 0cdf2e5..7569694 100644
--- a/socket.go
+++ b/socket.go
@@ -52,6 +52,7 @@ type socket struct {
 	decoder Decoder
 	acks    map[string]*ackHandle
 	mutex   sync.RWMutex
+	emitMu  sync.Mutex // held while the frames of a packet are emitted
 }
 
 func newSocket(ß *engine.Socket, parser Parser) *socket {
@@ -155,6 +156,8 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	if err != nil {
 		return
 	}
+	s.emitMu.Lock()
+	defer s.emitMu.Unlock()
 	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
 		return
 	}
-- 
2.43.0


From 0a337ca74feed64730a7e986776db5c731eed432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 21/36] fix: send no empty text frame before a msgpack packet

---
 socket.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/socket.go b/socket.go
index 7569694..2010448 100644
--- a/socket.go
+++ b/socket.go
@@ -158,8 +158,10 @@ func (s *socket) emitPacket(p *Packet) (err error) {
 	}
 	s.emitMu.Lock()
 	defer s.emitMu.Unlock()
-	if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
-		return
+	if b != nil { // a msgpack packet may be but a binary frame
+		if err = s.ß.Emit(engine.EventMessage, MessageTypeString, b); err != nil {
+			return
+		}
 	}
 	for _, d := range bin {
 		if err = s.ß.Emit(engine.EventMessage, MessageTypeBinary, d); err != nil {
-- 
2.43.0


From a0e24bd76c1f6e38f097dfef91c9897596ce9997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 22/36] fix: emit nil arguments

---
 socket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index 2010448..7b76246 100644
--- a/socket.go
+++ b/socket.go
@@ -127,7 +127,7 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	data := []interface{}{event}
 	p := &Packet{Type: PacketTypeEvent, Namespace: nsp}
 	for i := range args {
-		if t := reflect.TypeOf(args[i]); t.Kind() == reflect.Func {
+		if t := reflect.TypeOf(args[i]); t != nil && t.Kind() == reflect.Func {
 			p.ID = newid(ack.onAck(args[i]))
 		} else {
 			data = append(data, args[i])
-- 
2.43.0


From 31097905b7dc4d5fa09e19a61bf051044614c8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 23/36] fix: let disconnect callbacks use their socket

---
 socket.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/socket.go b/socket.go
index 7b76246..a45ee58 100644
--- a/socket.go
+++ b/socket.go
@@ -85,15 +85,19 @@ type nspStore interface {
 
 func detachall(s nspStore, sock *socket) {
 	sock.mutex.Lock()
+	names := make([]string, 0, len(sock.acks))
 	for k := range sock.acks {
+		names = append(names, k)
 		delete(sock.acks, k)
+	}
+	sock.mutex.Unlock()
+	for _, k := range names {
 		if nsp, ok := s.getnsp(k); ok {
 			if nsp.onDisconnect != nil {
 				nsp.onDisconnect(&nspSock{socket: sock, name: k})
 			}
 		}
 	}
-	sock.mutex.Unlock()
 }
 
 func (s *socket) fireAck(nsp string, id uint64, data []byte, buffer [][]byte, au ArgsUnmarshaler) (err error) {
-- 
2.43.0


From 0777a085d44303c53a3fff1f9245556a7c504721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 24/36] fix: acknowledge with an empty list when the handler
 returns nothing

---
 client.go | 11 ++++-------
 server.go | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/client.go b/client.go
index c28ab7c..d4b1e9c 100644
--- a/client.go
+++ b/client.go
@@ -124,14 +124,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
+			p.Data = d
 			if err = sock.ack(p); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
diff --git a/server.go b/server.go
index 2d4fa96..ec01135 100644
--- a/server.go
+++ b/server.go
@@ -153,14 +153,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 			return
 		}
 		if p.ID != nil {
-			p.Data = nil
-			if v != nil {
-				d := make([]interface{}, len(v))
-				for i := range d {
-					d[i] = v[i].Interface()
-				}
-				p.Data = d
+			d := make([]interface{}, len(v))
+			for i := range d {
+				d[i] = v[i].Interface()
 			}
+			p.Data = d
 			if err = sock.ack(p); err != nil {
 				if nsp.onError != nil {
 					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
-- 
2.43.0


From e381a2b31b8bdc4ed4d84ad3e0ebfddfd040a4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 25/36] fix: report acks whose arguments do not fit their
 callback

---
 client.go | 6 +++++-
 server.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index d4b1e9c..8a89b1d 100644
--- a/client.go
+++ b/client.go
@@ -144,7 +144,11 @@ func (c *Client) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder); err != nil {
+				if nsp.onError != nil {
+					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+				}
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
diff --git a/server.go b/server.go
index ec01135..3083e5f 100644
--- a/server.go
+++ b/server.go
@@ -173,7 +173,11 @@ func (s *Server) process(sock *socket, p *Packet) {
 				}
 				return
 			}
-			sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder)
+			if err = sock.fireAck(p.Namespace, *p.ID, data, bin, sock.decoder); err != nil {
+				if nsp.onError != nil {
+					nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)
+				}
+			}
 		}
 	case PacketTypeError:
 		if nsp.onError != nil {
-- 
2.43.0


From 093c110343a72221b901fdc53f272bd2f377374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 26/36] fix: pair connects and disconnects of a namespace

---
 client.go |  8 ++++++--
 server.go |  8 ++++++--
 socket.go | 26 +++++++++++++++++++-------
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/client.go b/client.go
index 8a89b1d..0041d99 100644
--- a/client.go
+++ b/client.go
@@ -96,12 +96,16 @@ func (c *Client) process(sock *socket, p *Packet) {
 
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
+		if !sock.attachnsp(p.Namespace) {
+			return
+		}
 		if nsp.onConnect != nil {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
+		if !sock.detachnsp(p.Namespace) {
+			return
+		}
 		if nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
diff --git a/server.go b/server.go
index 3083e5f..aeb17fb 100644
--- a/server.go
+++ b/server.go
@@ -117,7 +117,9 @@ func (s *Server) process(sock *socket, p *Packet) {
 	}
 	switch p.Type {
 	case PacketTypeConnect:
-		sock.attachnsp(p.Namespace)
+		if !sock.attachnsp(p.Namespace) {
+			return
+		}
 		if err := sock.emitPacket(&Packet{
 			Type:      PacketTypeConnect,
 			Namespace: p.Namespace,
@@ -130,7 +132,9 @@ func (s *Server) process(sock *socket, p *Packet) {
 			nsp.onConnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeDisconnect:
-		sock.detachnsp(p.Namespace)
+		if !sock.detachnsp(p.Namespace) {
+			return
+		}
 		if nsp.onDisconnect != nil {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
diff --git a/socket.go b/socket.go
index a45ee58..27ad1ab 100644
--- a/socket.go
+++ b/socket.go
@@ -64,19 +64,31 @@ func newSocket(ß *engine.Socket, parser Parser) *socket {
 	}
 }
 
-func (s *socket) attachnsp(nsp string) {
+// attachnsp returns false if nsp is attached already
+func (s *socket) attachnsp(nsp string) bool {
 	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if _, ok := s.acks[nsp]; ok {
+		return false
+	}
 	s.acks[nsp] = &ackHandle{ackmap: make(map[uint64]*callback)}
-	s.mutex.Unlock()
+	return true
 }
 
-func (s *socket) detachnsp(nsp string) {
+// detachnsp returns false if nsp is not attached
+func (s *socket) detachnsp(nsp string) bool {
 	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	_, ok := s.acks[nsp]
-	if ok {
-		delete(s.acks, nsp)
-	}
-	s.mutex.Unlock()
+	delete(s.acks, nsp)
+	return ok
+}
+
+func (s *socket) attached(nsp string) (ok bool) {
+	s.mutex.RLock()
+	_, ok = s.acks[nsp]
+	s.mutex.RUnlock()
+	return
 }
 
 type nspStore interface {
-- 
2.43.0


From 89ca2886901f27799115c9cc5df2db20f38f15d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 27/36] fix: run no event handler in a namespace that is not
 connected

---
 client.go | 3 +++
 server.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/client.go b/client.go
index 0041d99..963614d 100644
--- a/client.go
+++ b/client.go
@@ -110,6 +110,9 @@ func (c *Client) process(sock *socket, p *Packet) {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
+		if !sock.attached(p.Namespace) {
+			return
+		}
 		event, data, bin, err := sock.decoder.ParseData(p)
 		if err != nil {
 			if nsp.onError != nil {
diff --git a/server.go b/server.go
index aeb17fb..b434b29 100644
--- a/server.go
+++ b/server.go
@@ -139,6 +139,9 @@ func (s *Server) process(sock *socket, p *Packet) {
 			nsp.onDisconnect(&nspSock{socket: sock, name: p.Namespace})
 		}
 	case PacketTypeEvent, PacketTypeBinaryEvent:
+		if !sock.attached(p.Namespace) {
+			return
+		}
 		event, data, bin, err := sock.decoder.ParseData(p)
 		if err != nil {
 			if nsp.onError != nil {
-- 
2.43.0


From 019520b8554d0ebd849324c79365ccd937ef3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 28/36] fix: decode msgpack maps whose keys have a named string
 type

---
 parser_msgp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 407d9ca..154881b 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -205,7 +205,7 @@ func msgpReadMap(b []byte, mapType reflect.Type) (v reflect.Value, o []byte, err
 		if err != nil {
 			return
 		}
-		v.SetMapIndex(reflect.ValueOf(string(key)), val.Elem())
+		v.SetMapIndex(reflect.ValueOf(string(key)).Convert(mapType.Key()), val.Elem())
 	}
 	return
 }
-- 
2.43.0


From ac8dea4928ea10ac575f37bd8449c75395314d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:34 +0000
Subject: [PATCH 29/36] fix: refuse msgpack packets nested too deep to be read

Their recursive decoding overflowed the stack, which ends the process.
---
 parser_msgp.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 154881b..10d4217 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -286,13 +286,47 @@ func (msgpackDecoder) ParseData(p *Packet) (event string, data []byte, bin [][]b
 	return
 }
 
+const msgpMaxDepth = 10000 // as encoding/json has it
+
+// msgpCheckDepth refuses objects nested too deep to be skipped or read recursively
+func msgpCheckDepth(b []byte) (err error) {
+	for left := []uint64{1}; len(left) > 0; { // objects left to read at each depth
+		top := len(left) - 1
+		if left[top] == 0 {
+			left = left[:top]
+			continue
+		}
+		left[top]--
+		var sz uint32
+		switch msgp.NextType(b) {
+		case msgp.ArrayType:
+			sz, b, err = msgp.ReadArrayHeaderBytes(b)
+			left = append(left, uint64(sz))
+		case msgp.MapType:
+			sz, b, err = msgp.ReadMapHeaderBytes(b)
+			left = append(left, 2*uint64(sz))
+		default:
+			b, err = msgp.Skip(b)
+		}
+		if err != nil {
+			return err
+		}
+		if len(left) > msgpMaxDepth {
+			return fmt.Errorf("data exceeds depth %d", msgpMaxDepth)
+		}
+	}
+	return nil
+}
+
 func (m *msgpackDecoder) Add(msgType MessageType, data []byte) (err error) {
 	var p Packet
 	switch msgType {
 	case MessageTypeString:
 		err = json.Unmarshal(data, &p)
 	case MessageTypeBinary:
-		_, err = p.UnmarshalMsg(data)
+		if err = msgpCheckDepth(data); err == nil {
+			_, err = p.UnmarshalMsg(data)
+		}
 	}
 	if err != nil {
 		return err
-- 
2.43.0


From 3be7afdefa1dd24191475c76d823b2a56ddc3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 30/36] fix: give no request the id of an earlier one of its
 connection

An acknowledgement that arrived after its namespace had been left and joined
again ran the callback of another request.
---
 handle.go | 6 +-----
 socket.go | 5 ++++-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/handle.go b/handle.go
index 491bd76..295aead 100644
--- a/handle.go
+++ b/handle.go
@@ -3,7 +3,6 @@ package socketio
 import (
 	"reflect"
 	"sync"
-	"sync/atomic"
 )
 
 type namespace struct {
@@ -53,7 +52,6 @@ func (e *namespace) fireEvent(so Socket, event string, args []byte, buffer [][]b
 }
 
 type ackHandle struct {
-	id     uint64
 	ackmap map[uint64]*callback
 	mutex  sync.RWMutex
 }
@@ -71,10 +69,8 @@ func (a *ackHandle) fireAck(so Socket, id uint64, data []byte, buffer [][]byte,
 	return
 }
 
-func (a *ackHandle) onAck(callback interface{}) uint64 {
-	id := atomic.AddUint64(&a.id, 1)
+func (a *ackHandle) onAck(id uint64, callback interface{}) {
 	a.mutex.Lock()
 	a.ackmap[id] = newCallback(callback)
 	a.mutex.Unlock()
-	return id
 }
diff --git a/socket.go b/socket.go
index 27ad1ab..0f90deb 100644
--- a/socket.go
+++ b/socket.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"reflect"
 	"sync"
+	"sync/atomic"
 
 	"github.com/zyxar/socketio/engine"
 )
@@ -47,6 +48,7 @@ func (n *nspSock) EmitError(arg interface{}) (err error) {
 }
 
 type socket struct {
+	ackid   uint64 // of the last request, in whatever namespace: a namespace left and joined again reuses none
 	ß       *engine.Socket
 	encoder Encoder
 	decoder Decoder
@@ -144,7 +146,8 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 	p := &Packet{Type: PacketTypeEvent, Namespace: nsp}
 	for i := range args {
 		if t := reflect.TypeOf(args[i]); t != nil && t.Kind() == reflect.Func {
-			p.ID = newid(ack.onAck(args[i]))
+			p.ID = newid(atomic.AddUint64(&s.ackid, 1))
+			ack.onAck(*p.ID, args[i])
 		} else {
 			data = append(data, args[i])
 		}
-- 
2.43.0


From 14297f09479889a5acc59586c5710f74a8731316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 31/36] fix: take in what is posted during an upgrade

The reader is stopped while the server waits for the UPGRADE packet, so that a
POST of more packets than the session buffers was not answered until that wait
timed out. A client that waits for its requests before it completes the upgrade
waited as long, and the upgrade failed.
---
 engine/polling.go   | 11 +++++++++++
 engine/server.go    | 29 +++++++++++++++++++++++++----
 engine/transport.go |  1 +
 engine/websocket.go |  2 ++
 4 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/engine/polling.go b/engine/polling.go
index 03d2648..625fdfd 100644
--- a/engine/polling.go
+++ b/engine/polling.go
@@ -127,6 +127,17 @@ func (p *pollingConn) FlushIn() (packets []*Packet) {
 	}
 }
 
+func (p *pollingConn) collectIn(stop <-chan struct{}) (packets []*Packet) {
+	for {
+		select {
+		case pkt := <-p.in:
+			packets = append(packets, pkt)
+		case <-stop:
+			return
+		}
+	}
+}
+
 func (p *pollingConn) ReadPacketOut(ctx context.Context) (*Packet, error) {
 	if p.isClosed() {
 		return nil, ErrPollingConnClosed
diff --git a/engine/server.go b/engine/server.go
index 59c5fd2..dced3f0 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -239,16 +239,25 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 		return
 	}
 
+	ß.reading.Lock() // the reader leaves conn alone from now on, until it is resumed
+	ß.reading.Unlock()
+	received := collectIn(conn) // the client may have to get rid of it before it goes on
+	resume := func() {
+		newConn.Close()
+		ß.reading.Lock()
+		ß.pending = append(ß.pending, received()...)
+		conn.Resume()
+		ß.reading.Unlock()
+	}
+
 	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
 	p, err = newConn.ReadPacket()
 	if err != nil {
-		newConn.Close()
-		conn.Resume()
+		resume()
 		return
 	}
 	if p.pktType != PacketTypeUpgrade {
-		newConn.Close()
-		conn.Resume()
+		resume()
 		return
 	}
 
@@ -262,6 +271,7 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	ß.reading.Lock() // the reader finds conn paused, and then newConn
 	defer ß.reading.Unlock()
 	ß.Lock()
+	ß.pending = append(ß.pending, received()...)
 	select {
 	case <-ß.emitter.done: // too late, the session is closing
 		newConn.Close()
@@ -279,3 +289,14 @@ func (s *Server) upgrade(ß *Socket, transportName string, newConn Conn) {
 	ß.pending = append(ß.pending, conn.FlushIn()...)
 	upgraded = p
 }
+
+// collectIn takes in what conn receives while nobody reads it; the func it returns
+// stops that, and returns what there is.
+func collectIn(conn Conn) func() []*Packet {
+	stop, done := make(chan struct{}), make(chan []*Packet, 1)
+	go func() { done <- conn.collectIn(stop) }()
+	return func() []*Packet {
+		close(stop)
+		return <-done
+	}
+}
diff --git a/engine/transport.go b/engine/transport.go
index 5711544..00996c7 100644
--- a/engine/transport.go
+++ b/engine/transport.go
@@ -49,6 +49,7 @@ type Conn interface {
 	// private
 	httpHeader() http.Header
 	copyHeaderFrom(conn Conn)
+	collectIn(stop <-chan struct{}) []*Packet // what is received until stop is closed
 }
 
 // PacketReader reads data from remote and outputs a Packet when appropriate
diff --git a/engine/websocket.go b/engine/websocket.go
index 34081aa..54b385c 100644
--- a/engine/websocket.go
+++ b/engine/websocket.go
@@ -109,3 +109,5 @@ func (*websocketConn) Pause() error        { return ErrPauseNotSupported }
 func (*websocketConn) Resume() error       { return nil }
 func (*websocketConn) FlushOut() []*Packet { return nil }
 func (*websocketConn) FlushIn() []*Packet  { return nil }
+
+func (*websocketConn) collectIn(stop <-chan struct{}) []*Packet { return nil }
-- 
2.43.0


From 45bd22ef4fb6601032d52831ef4d3b0940c8e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 32/36] fix: a session's open callback that takes its time held
 up all handshakes

---
 engine/server.go | 2 +-
 server.go        | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/server.go b/engine/server.go
index dced3f0..418bf5e 100644
--- a/engine/server.go
+++ b/engine/server.go
@@ -56,10 +56,10 @@ func NewServer(interval, timeout time.Duration, onOpen func(*Socket), oc ...Orig
 					PingInterval: int(interval / time.Millisecond),
 					PingTimeout:  int(timeout / time.Millisecond),
 				})
-				onOpen(ß) // before anything is read that it has to be ready for
 				go func() {
 					defer ß.Close()
 					defer s.sessionManager.Remove(ß.id)
+					onOpen(ß) // before anything is read that it has to be ready for
 					var p *Packet
 					var err error
 					for {
diff --git a/server.go b/server.go
index b434b29..c4f3fd2 100644
--- a/server.go
+++ b/server.go
@@ -42,6 +42,7 @@ func NewServer(interval, timeout time.Duration, parser Parser, oc ...engine.Orig
 		return
 	}
 	server = &Server{engine: e, sockets: make(map[*engine.Socket]*socket), nsps: make(map[string]*namespace)}
+	server.creatensp("/") // not by sessions opening at the same time
 
 	e.On(engine.EventMessage, engine.Callback(func(ß *engine.Socket, msgType engine.MessageType, data []byte) {
 		server.sockLock.RLock()
-- 
2.43.0


From 50b771fd6178ecae1921937118ba78ae0127de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:01 +0000
Subject: [PATCH 33/36] fix: a Dial that failed left its connection open

---
 engine/client.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/client.go b/engine/client.go
index 99d05d7..47a4d62 100644
--- a/engine/client.go
+++ b/engine/client.go
@@ -23,6 +23,11 @@ func Dial(rawurl string, requestHeader http.Header, dialer Dialer, onOpen ...fun
 	if err != nil {
 		return
 	}
+	defer func() {
+		if err != nil {
+			conn.Close()
+		}
+	}()
 	p, err := conn.ReadPacket()
 	if err != nil {
 		return
-- 
2.43.0


From c5adea71987bea128c403ff5e8e8012eb214985f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 01:30:44 +0000
Subject: [PATCH 34/36] fix: an Emit that fails forgets its acknowledgement
 callback

---
 handle.go | 6 ++++++
 socket.go | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/handle.go b/handle.go
index 295aead..c6fca29 100644
--- a/handle.go
+++ b/handle.go
@@ -74,3 +74,9 @@ func (a *ackHandle) onAck(id uint64, callback interface{}) {
 	a.ackmap[id] = newCallback(callback)
 	a.mutex.Unlock()
 }
+
+func (a *ackHandle) forget(id uint64) {
+	a.mutex.Lock()
+	delete(a.ackmap, id)
+	a.mutex.Unlock()
+}
diff --git a/socket.go b/socket.go
index 0f90deb..2a5ddb3 100644
--- a/socket.go
+++ b/socket.go
@@ -153,7 +153,10 @@ func (s *socket) emit(nsp string, event string, args ...interface{}) (err error)
 		}
 	}
 	p.Data = data
-	return s.emitPacket(p)
+	if err = s.emitPacket(p); err != nil && p.ID != nil {
+		ack.forget(*p.ID) // nobody will acknowledge it
+	}
+	return
 }
 
 func (s *socket) emitError(nsp string, arg interface{}) (err error) {
-- 
2.43.0


From c17ddc3c2e1616192fc8e8b087667809bf8d5ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:04 +0000
Subject: [PATCH 35/36] fix: decode a msgpack nil into pointers

---
 parser_msgp.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser_msgp.go b/parser_msgp.go
index 10d4217..995c6f8 100644
--- a/parser_msgp.go
+++ b/parser_msgp.go
@@ -111,6 +111,10 @@ func msgpUnmashalArg(i reflect.Value, data []byte) ([]byte, error) {
 	ie := i.Elem()
 	switch ie.Kind() {
 	case reflect.Ptr:
+		if msgp.IsNil(data) {
+			ie.Set(reflect.Zero(ie.Type()))
+			return msgp.ReadNilBytes(data)
+		}
 		vv := reflect.New(ie.Type().Elem())
 		data, err = msgpUnmashalArg(vv, data)
 		if err == nil {
@@ -230,7 +234,11 @@ func (msgpackDecoder) UnmarshalArgs(args []reflect.Type, data []byte, _ [][]byte
 			typ = typ.Elem()
 		}
 		in[i] = reflect.New(typ)
-		data, err = msgpUnmashalArg(in[i], data)
+		if args[i].Kind() == reflect.Ptr && msgp.IsNil(data) { // stays zero, as under the default parser
+			data, err = msgp.ReadNilBytes(data)
+		} else {
+			data, err = msgpUnmashalArg(in[i], data)
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From a67d9d36580cb44e01dca4130e9f90c583ea9c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:59 +0000
Subject: [PATCH 36/36] fix: take the root namespace's CONNECT in on clients
 without callbacks

---
 client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 963614d..272c434 100644
--- a/client.go
+++ b/client.go
@@ -16,7 +16,9 @@ type Client struct {
 
 // NewClient creates a Client instance; use Dial to initialize underlying network
 func NewClient() (c *Client) {
-	return &Client{nsps: make(map[string]*namespace)}
+	c = &Client{nsps: make(map[string]*namespace)}
+	c.creatensp("/") // every server connects it, even if no callback is registered
+	return
 }
 
 // Dial connects to a socket.io server represented by `rawurl` and create Client instance on success.
-- 
2.43.0


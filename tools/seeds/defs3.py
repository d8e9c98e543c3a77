bug("c16-ten-attachments", "C16", "a packet with ten binary arguments or more", "Only the last digit of the number of attachments is read: such a packet is refused or cut short.",
 [("parser_default.go", "			p.attachments = p.attachments*10 + int(s[j]-'0')\n", "			p.attachments = int(s[j] - '0')\n")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	for _, n := range []int{1, 9, 10, 12} {
		s, url := newServer(t, socketio.DefaultParser)
		var nt notes
		s.Namespace("/").OnEvent("e", func(a, b, c *socketio.Bytes) { nt.add("%s%s%s", a.Data, b.Data, c.Data) })
		c := socketio.NewClient()
		up := make(chan bool, 1)
		c.Namespace("/").OnConnect(func(socketio.Socket) { up <- true })
		if err := c.Dial(url+"/?EIO=3&transport=websocket", nil, socketio.WebsocketTransport, socketio.DefaultParser); err != nil {
			t.Fatal(err)
		}
		<-up
		var args []interface{}
		for i := 0; i < n; i++ {
			args = append(args, &socketio.Bytes{Data: []byte{byte('a' + i)}})
		}
		c.Emit("/", "e", args...)
		want := "a"
		if n > 1 {
			want = "abc"
		}
		if !wait(2*time.Second, func() bool { return nt.count(want) == 1 }) {
			t.Fatalf("%d attachments: got %q", n, nt.all())
		}
		c.Close()
	}
}
''')
bug("c22-id-zero", "C22", "a request whose acknowledgement id is 0, the first one of a JavaScript client", "Requests with id 0 are taken for events that want no acknowledgement.",
 [("server.go", "		if p.ID != nil {\n			d := make", "		if p.ID != nil && *p.ID > 0 {\n			d := make")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	s.Namespace("/").OnEvent("e", func(a int) int { return a + 1 })
	p := dial(t, url)
	p.recv()
	p.send(`420["e",1]`)
	if g := p.recv(); g != "430[2]" {
		t.Fatalf("got %q", g)
	}
}
''')
bug("c25-ack-outside", "C25", "an acknowledgement with attachments sent while another goroutine emits", "Acknowledgements do not wait for the packet being emitted: their frames get among those of another packet.",
 [("socket.go", "	p.Type = PacketTypeAck\n	return s.emitPacket(p)\n}", '''	p.Type = PacketTypeAck
	b, bin, err := s.encoder.Encode(p)
	if err != nil {
		return
	}
	if b != nil {
		err = s.ß.Emit(engine.EventMessage, MessageTypeString, b)
	}
	for i := 0; i < len(bin) && err == nil; i++ {
		err = s.ß.Emit(engine.EventMessage, MessageTypeBinary, bin[i])
	}
	return
}''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	stop := make(chan bool)
	s.Namespace("/").OnEvent("ask", func() (a, b socketio.Bytes) {
		return socketio.Bytes{Data: []byte("A1")}, socketio.Bytes{Data: []byte("A2")}
	}).OnConnect(func(so socketio.Socket) {
		go func() {
			for {
				select {
				case <-stop:
					return
				default:
				}
				if so.Emit("ev", &socketio.Bytes{Data: []byte("E1")}, &socketio.Bytes{Data: []byte("E2")}) != nil {
					return
				}
			}
		}()
	})
	defer close(stop)
	p := dial(t, url)
	p.recv()
	go func() {
		for i := 0; i < 3000; i++ {
			p.send(`421["ask"]`)
		}
	}()
	for n, i := 0, 0; i < 3000 && n < 400000; n++ {
		h := p.recv()
		a, b := p.recv(), p.recv()
		want := "E"
		if strings.HasPrefix(h, "462-1") {
			want = "A"
			i++
		} else if !strings.HasPrefix(h, "452-") {
			t.Fatalf("header expected: %q", h)
		}
		if a != "\\x04"+want+"1" || b != "\\x04"+want+"2" {
			t.Fatalf("%q followed by %q and %q", h, a, b)
		}
	}
}
''')
bug("c27-background-binary", "C27", "an event with attachments sent to a Go client", "The client hands binary messages over in the background, so that attachments get out of order.",
 [("engine/client.go", "		c.fire(ß, EventMessage, p.msgType, p.data)\n", '''		if p.msgType == MessageTypeBinary { // may be long, goes on reading
			go c.fire(ß, EventMessage, p.msgType, p.data)
		} else {
			c.fire(ß, EventMessage, p.msgType, p.data)
		}
''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	const N = 300
	s.Namespace("/").OnEvent("go", func(so socketio.Socket) {
		for i := 0; i < N; i++ {
			so.Emit("e", &socketio.Bytes{Data: []byte("1")}, &socketio.Bytes{Data: []byte("2")}, &socketio.Bytes{Data: []byte("3")})
			if i%10 == 0 {
				time.Sleep(time.Millisecond)
			}
		}
	})
	var n notes
	c := socketio.NewClient()
	up := make(chan bool, 1)
	c.Namespace("/").OnConnect(func(socketio.Socket) { up <- true })
	c.Namespace("/").OnEvent("e", func(a, b, c *socketio.Bytes) { n.add("%s%s%s", a.Data, b.Data, c.Data) })
	if err := c.Dial(url+"/?EIO=3&transport=websocket", nil, socketio.WebsocketTransport, socketio.DefaultParser); err != nil {
		t.Fatal(err)
	}
	<-up
	c.Emit("/", "go")
	wait(3*time.Second, func() bool { return len(n.all()) >= N })
	if l := n.all(); len(l) != N || n.count("123") != N {
		t.Fatalf("%d of %d events, %d right", len(l), N, n.count("123"))
	}
}
''')
bug("c13-double-interval", "C13", "a ping timeout that is not the ping interval, and a session that is silent for longer than twice the shorter one", "Sessions are given twice the ping interval instead of interval and timeout.",
 [("engine/server.go", "s.NewSession(conn, s.pingTimeout+s.pingInterval, s.pingTimeout)", "s.NewSession(conn, 2*s.pingInterval, s.pingTimeout)")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 200*time.Millisecond, 3*time.Second)
	sid := r.open()
	time.Sleep(time.Second)
	if c, s := r.post(sid, "2", "4x"); c != 200 {
		t.Fatalf("session over too early: %d %s", c, s)
	}
	if !wait(time.Second, func() bool { return len(r.got()) == 1 }) {
		t.Fatal("message lost")
	}
}
''')
bug("c21-any-namespace", "C21", "an acknowledgement that comes in another namespace than the request it names", "Acknowledgements are looked up in every namespace.",
 [("socket.go", '''	ack, ok := s.acks[nsp]
	s.mutex.RUnlock()
	if ok {
		err = ack''', '''	var all []*ackHandle
	for _, h := range s.acks {
		all = append(all, h)
	}
	s.mutex.RUnlock()
	for _, ack := range all {
		err = ack''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	s.Namespace("/a").OnEvent("e", func(so socketio.Socket) { so.Emit("q", func(x string) { n.add("a got %s", x) }) })
	s.Namespace("/b")
	p := dial(t, url)
	p.recv()
	for _, x := range []string{"a", "b"} {
		p.send("40/" + x)
		p.recv()
	}
	p.send(`42/a,["e"]`)
	if g := p.recv(); g != `42/a,1["q"]` {
		t.Fatalf("got %q", g)
	}
	p.send(`43/b,1["of b"]`)
	p.send(`43/a,1["of a"]`)
	wait(time.Second, func() bool { return n.count("a got of a") > 0 })
	if l := n.all(); len(l) != 1 || l[0] != "a got of a" {
		t.Fatalf("got %q", l)
	}
}
''')
bug("c07-post-timeout", "C07", "a POST of more packets than the session buffers whose callbacks take longer than a few seconds", "A POST that has to wait is refused halfway: its first packets are delivered, the others are not.",
 [("engine/polling.go", '''			case p.in <- &payload.packets[i]:
			}''', '''			case p.in <- &payload.packets[i]:
			case <-time.After(5 * time.Second): // do not hold the request up for ever
				http.Error(w, "busy", http.StatusServiceUnavailable)
				return
			}''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	r.srv.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, d []byte) {
		if string(d) == "slow" {
			time.Sleep(7 * time.Second)
		}
		r.mu.Lock()
		r.msgs = append(r.msgs, string(d))
		r.mu.Unlock()
	}))
	c, b := r.post(sid, "4slow", "4a", "4b", "4c", "4d", "4e", "4f", "4g", "4h", "4i", "4j")
	wait(2*time.Second, func() bool { return len(r.got()) >= 11 })
	if c != 200 || len(r.got()) != 11 {
		t.Fatalf("%d %q, delivered %q", c, b, r.got())
	}
}
''')
bug("c05-version-prefix", "C05", "a request that names a protocol version beginning with 3 other than 3, or any prefix", "Versions such as 30 or 3.1 are admitted.",
 [("engine/server.go", "	if query.Get(queryEIO) != Version {", "	if v := query.Get(queryEIO); len(v) == 0 || v[:1] != Version {")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	for v, want := range map[string]int{"3": 200, "30": 400, "4": 400, "": 400, "3x": 400} {
		resp, err := hc.Get(r.url + "/?EIO=" + v + "&transport=polling")
		if err != nil {
			t.Fatal(err)
		}
		resp.Body.Close()
		if resp.StatusCode != want {
			t.Fatalf("EIO=%s: %d", v, resp.StatusCode)
		}
	}
}
''')
bug("c18-no-count-check", "C18", "a binary packet that announces more attachments than it has placeholders, followed by an attachment", "The number of attachments announced is not compared with the placeholders: the next attachment makes the decoder panic.",
 [("parser_default.go", '''		if len(p.buffer) != p.attachments {
			return ErrUnknownPacket
		}
''', '''		if len(p.buffer) > p.attachments {
			return ErrUnknownPacket
		}
''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	d := socketio.DefaultParser.Decoder()
	defer func() {
		if e := recover(); e != nil {
			t.Fatalf("panic: %v", e)
		}
	}()
	d.Add(socketio.MessageTypeString, []byte(`52-["e",{"_placeholder":true,"num":0}]`))
	d.Add(socketio.MessageTypeBinary, []byte("x"))
	if err := d.Add(socketio.MessageTypeString, []byte(`2["f"]`)); err != nil {
		t.Fatal(err)
	}
	if p := <-d.Decoded(); p.Type != socketio.PacketTypeEvent {
		t.Fatalf("got %+v", p)
	}
}
''')
bug("c19-big-id", "C19", "a msgpack packet whose id has its top bit set", "Ids are read as signed numbers: the largest ones are refused.",
 [("packet.go", '''				*z.ID, bts, err = msgp.ReadUint64Bytes(bts)
''', '''				var id int64
				id, bts, err = msgp.ReadInt64Bytes(bts)
				*z.ID = uint64(id)
''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	for _, id := range []uint64{0, 7, 1 << 40, 1<<63 + 5} {
		id := id
		_, bin, err := socketio.MsgpackParser.Encoder().Encode(&socketio.Packet{Type: socketio.PacketTypeEvent, Namespace: "/", Data: []interface{}{"e"}, ID: &id})
		if err != nil {
			t.Fatal(err)
		}
		d := socketio.MsgpackParser.Decoder()
		if err := d.Add(socketio.MessageTypeBinary, bin[0]); err != nil {
			t.Fatalf("id %d: %v", id, err)
		}
		if p := <-d.Decoded(); p.ID == nil || *p.ID != id {
			t.Fatalf("id %d: %+v", id, p)
		}
	}
}
''')
bug("c09-bare-pong", "C09", "a client that checks that the probe comes back, as engine.io's does", "The probe is answered with a pong without the probe's data, which a conforming client takes for a failed probe.",
 [("engine/server.go", "	p.pktType = PacketTypePong\n", "	p = &Packet{msgType: p.msgType, pktType: PacketTypePong}\n")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	c := r.ws(sid)
	defer c.Close()
	send(c, "2probe")
	if g := recv(c); g != "3probe" {
		t.Fatalf("got %q", g)
	}
}
''')
bug("c24-forgotten-namespace", "C24", "a connection that ends while it is in several namespaces", "Only one namespace of a connection is told that it is over.",
 [("socket.go", '''	for _, k := range names {
		if nsp, ok := s.getnsp(k); ok {
			if nsp.onDisconnect != nil {
				nsp.onDisconnect(&nspSock{socket: sock, name: k})
			}
		}
	}''', '''	for _, k := range names {
		if nsp, ok := s.getnsp(k); ok {
			if nsp.onDisconnect == nil {
				return
			}
			nsp.onDisconnect(&nspSock{socket: sock, name: k})
		}
	}''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	for i := 0; i < 30; i++ {
		s, url := newServer(t, socketio.DefaultParser)
		var n notes
		s.Namespace("/a").OnDisconnect(func(socketio.Socket) { n.add("a") })
		s.Namespace("/b")
		p := dial(t, url)
		p.recv()
		for _, x := range []string{"a", "b"} {
			p.send("40/" + x)
			p.recv()
		}
		p.c.Close()
		if !wait(time.Second, func() bool { return n.count("a") == 1 }) {
			t.Fatalf("got %q", n.all())
		}
	}
}
''')
bug("c06-drop-oldest", "C06", "more messages emitted than are buffered while a poll is being answered", "An emitter that finds the queue full makes room by discarding the oldest packet instead of waiting for a poll.",
 [("engine/polling.go", '''	select {
	case <-p.closed:
		return ErrPollingConnClosed
	case p.out <- pkt:
	case <-timer:
		return ErrPollingConnWriteTimeout
	case <-p.pauseChan():
		return ErrPollingConnPaused
	}
	return nil''', '''	for {
		select {
		case <-p.closed:
			return ErrPollingConnClosed
		case p.out <- pkt:
			return nil
		case <-p.pauseChan():
			return ErrPollingConnPaused
		case <-timer:
			return ErrPollingConnWriteTimeout
		case <-time.After(time.Second):
			select {
			case <-p.out: // stale
			default:
			}
		}
	}''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	s := r.sock(sid)
	go func() {
		for i := 0; i < 12; i++ {
			s.Send(fmt.Sprint("m", i))
		}
	}()
	time.Sleep(1500 * time.Millisecond)
	for i := 0; i < 12; i++ {
		_, ps := r.poll(sid)
		if want := fmt.Sprint("4m", i); len(ps) != 1 || ps[0] != want {
			t.Fatalf("poll %d: got %q", i, ps)
		}
	}
}
''')
bug("c03-no-padding", "C03", "a binary message whose length is no multiple of three, polled as text", "Base64 is written without padding, which many decoders refuse.",
 [("engine/payload.go", "		length = base64.StdEncoding.EncodedLen(length)\n", "		length = base64.RawStdEncoding.EncodedLen(length) // padding says nothing\n"),
  ("engine/payload.go", "		base64.StdEncoding.Encode(dst, p.data)\n", "		base64.RawStdEncoding.Encode(dst, p.data)\n")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	r.sock(sid).Emit(engine.EventMessage, engine.MessageTypeBinary, []byte{1, 2, 3, 4})
	if _, ps := r.poll(sid); len(ps) != 1 || ps[0] != "b4AQIDBA==" {
		t.Fatalf("got %q", ps)
	}
}
''')

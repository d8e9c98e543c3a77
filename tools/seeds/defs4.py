bug("c14-lock-across-callback", "C14", "a message callback that takes its time while another client connects",
 "The table of connections stays locked while a message is handled: a slow handler holds up new connections.",
 [("server.go", '''		socket := server.sockets[ß]
		server.sockLock.RUnlock()
		if socket == nil {
			return
		}
		switch msgType {''', '''		defer server.sockLock.RUnlock()
		socket := server.sockets[ß]
		if socket == nil {
			return
		}
		switch msgType {''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	release := make(chan bool)
	s.Namespace("/").OnEvent("slow", func() { n.add("slow"); <-release })
	p := dial(t, url)
	p.recv()
	p.send(`42["slow"]`)
	wait(2*time.Second, func() bool { return n.count("slow") == 1 })
	defer close(release)
	for i := 0; i < 2; i++ {
		q := dial(t, url)
		q.recv()
		q.send(`42["slow"]`)
	}
	if !wait(2*time.Second, func() bool { return n.count("slow") == 3 }) {
		t.Fatal("other connections are held up")
	}
}
''')
bug("c29-shared-header", "C29", "a header set on a polling session, and whoever else uses the opening request's headers",
 "A session keeps the opening request's own header map: setting a header changes the request's.",
 [("engine/polling.go", "		header:     cloneHTTPHeader(header),", "		header:     header,")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	req := httptest.NewRequest("GET", "/?EIO=3&transport=polling", nil)
	req.Header.Set("X-A", "1")
	w := httptest.NewRecorder()
	r.srv.ServeHTTP(w, req)
	so := r.sock(sidOf(w.Body.String()[strings.Index(w.Body.String(), "{")-1:]))
	so.SetHeader("X-A", "2")
	if g := req.Header.Get("X-A"); g != "1" || so.GetHeader("X-A") != "2" {
		t.Fatalf("the request's header is %q", g)
	}
}
''')
bug("c29-early-copy", "C29", "a header set between the probe of an upgrade and its completion",
 "Headers are carried over when the upgrade starts: what is set on the session meanwhile is lost.",
 [("engine/server.go", "	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))\n	p, err := newConn.ReadPacket()", "	ß.RLock()\n	newConn.copyHeaderFrom(ß.Conn)\n	ß.RUnlock()\n	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))\n	p, err := newConn.ReadPacket()"),
  ("engine/server.go", "	ß.Conn.copyHeaderFrom(conn)\n", "")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	so := r.sock(sid)
	so.SetHeader("X-A", "1")
	c := r.probe(sid)
	so.SetHeader("X-A", "2")
	send(c, "5")
	if !wait(2*time.Second, func() bool { return !strings.HasPrefix(fmt.Sprintf("%T", so.RemoteAddr()), "engine.") }) {
		t.Fatal("no upgrade")
	}
	if g := so.GetHeader("X-A"); g != "2" {
		t.Fatalf("X-A is %q", g)
	}
}
''')
bug("c29-upgrade-request-headers", "C29", "an upgrade that is asked for and then fails",
 "The headers of an upgrade request count for the session at once, also when the upgrade comes to nothing.",
 [("engine/server.go", "	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))\n	p, err := newConn.ReadPacket()", "	ß.Lock()\n	ß.Conn.copyHeaderFrom(newConn)\n	ß.Unlock()\n	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))\n	p, err := newConn.ReadPacket()")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	so := r.sock(sid)
	c, _, err := websocket.DefaultDialer.Dial("ws"+r.url[4:]+"/?EIO=3&transport=websocket&sid="+sid, http.Header{"X-Token": {"t"}})
	if err != nil {
		t.Fatal(err)
	}
	send(c, "4no probe")
	recv(c)
	c.Close()
	time.Sleep(200 * time.Millisecond)
	if g := so.GetHeader("X-Token"); g != "" {
		t.Fatalf("X-Token is %q", g)
	}
}
''')
bug("c29-client-header", "C29", "a header set on a client that was dialled with a header map of the caller's, or with none",
 "The client keeps the caller's header map: setting a header changes it, or panics without one.",
 [("engine/transport.go", "	return &websocketConn{conn: c, header: cloneHTTPHeader(requestHeader)}, nil", "	return &websocketConn{conn: c, header: requestHeader}, nil")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	h := http.Header{"X-A": {"1"}}
	c, err := engine.Dial("ws"+r.url[4:]+"/", h, engine.WebsocketTransport)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	c.SetHeader("X-A", "2")
	if h.Get("X-A") != "1" || c.GetHeader("x-a") != "2" {
		t.Fatalf("the caller's header is %v", h)
	}
}
''')
bug("c30-open-without-parameters", "C30", "a server whose OPEN packet is empty",
 "An OPEN packet without parameters is taken for a session with no id and no heartbeat.",
 [("engine/client.go", "	if err = json.Unmarshal(p.data, &param); err != nil {", "	if err = json.Unmarshal(p.data, &param); len(p.data) == 0 {\n		err = nil\n	} else if err != nil {")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	h := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := (&websocket.Upgrader{}).Upgrade(w, r, nil)
		if err == nil {
			send(c, "0")
			recv(c)
		}
	}))
	c, err := engine.Dial("ws"+h.URL[4:]+"/", nil, engine.WebsocketTransport)
	if err == nil {
		c.Close()
		t.Fatal("Dial succeeds without parameters")
	}
}
''')
bug("c30-query-dropped", "C30", "a URL with parameters of its own",
 "The parameters of the URL are replaced by the protocol's own.",
 [("engine/transport.go", "	q := u.Query()\n	q.Set(queryEIO, Version)", "	q := url.Values{}\n	q.Set(queryEIO, Version)")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	got := make(chan string, 1)
	h := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		got <- q.URL.Query().Get("token")
		r.srv.ServeHTTP(w, q)
	}))
	c, err := engine.Dial("ws"+h.URL[4:]+"/?token=abc", nil, engine.WebsocketTransport)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	if g := <-got; g != "abc" {
		t.Fatalf("token is %q", g)
	}
}
''')
bug("c30-first-packet", "C30", "a server (or something else) whose first packet is no OPEN but a NOOP or PONG",
 "Any packet the protocol knows passes for the OPEN packet as long as its data is an object.",
 [("engine/client.go", "	if p.pktType != PacketTypeOpen {", "	if p.pktType == PacketTypeClose || p.pktType > PacketTypeMessage {")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	h := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := (&websocket.Upgrader{}).Upgrade(w, r, nil)
		if err == nil {
			send(c, `4{"sid":"forged","pingInterval":25000,"pingTimeout":60000}`)
			recv(c)
		}
	}))
	c, err := engine.Dial("ws"+h.URL[4:]+"/", nil, engine.WebsocketTransport)
	if err == nil {
		c.Close()
		t.Fatal("Dial takes a message for an OPEN packet")
	}
}
''')
bug("c15-close-channel", "C15", "a handshake that has passed the origin check when the server is closed",
 "Close also closes the channel that new sessions go through: a handshake in flight panics instead of being answered.",
 [("engine/server.go", "		close(s.done)\n", "		close(s.done)\n		close(s.ßchan)\n")],
 "engine_test", '''
type closer struct{ r **rig }

func (c closer) CheckOrigin(*http.Request) bool { (*c.r).srv.Close(); return true }

func TestDemo(t *testing.T) {
	for i := 0; i < 4; i++ {
		var r *rig
		r = newRig(t, 25*time.Second, 60*time.Second, closer{&r})
		if c, b, _ := r.do("GET", "transport=polling", "", ""); c < 400 {
			t.Fatalf("a handshake during Close is answered %d %s", c, b)
		}
	}
}
''')
bug("c28-upgrade-name", "C28", "requests of a session while it is upgraded",
 "The transport's name is stored after the lock has been given back.",
 [("engine/server.go", "	ß.transportName = transportName\n	ß.Conn.copyHeaderFrom(conn)\n	ß.Unlock()\n", "	ß.Conn.copyHeaderFrom(conn)\n	ß.Unlock()\n	ß.transportName = transportName\n")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	for i := 0; i < 60; i++ {
		r := newRig(t, 25*time.Second, 60*time.Second)
		sid := r.open()
		c := r.probe(sid)
		done := make(chan bool)
		go func() {
			for j := 0; j < 40; j++ {
				r.post(sid, "6")
			}
			close(done)
		}()
		time.Sleep(time.Duration(i%8) * time.Millisecond)
		send(c, "5")
		<-done
		c.Close()
	}
}
''', race=True)
bug("c08-flush-deadline", "C08", "messages waiting when the upgrade completes, and a connection whose write deadline has run out by then",
 "Packets moved to the websocket are written under the deadline of the probe's answer, which may have passed.",
 [("engine/server.go", "	for _, packet := range conn.FlushOut() {\n		newConn.SetWriteDeadline(time.Now().Add(ß.writeTimeout))\n", "	for _, packet := range conn.FlushOut() {\n")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 500*time.Millisecond)
	sid := r.open()
	so := r.sock(sid)
	for i := 0; i < 4; i++ {
		so.Emit(engine.EventMessage, engine.MessageTypeString, fmt.Sprint(i))
	}
	time.Sleep(100 * time.Millisecond)
	c := r.probe(sid)
	time.Sleep(700 * time.Millisecond)
	send(c, "5")
	for i := 0; i < 4; i++ {
		if g := recv(c); g != "4"+fmt.Sprint(i) {
			t.Fatalf("message %d is %q", i, g)
		}
	}
}
''')
bug("c26-open-parameters-late", "C26", "a connection that is greeted while its connect callback emits",
 "The root namespace's CONNECT is sent by a goroutine of its own: what the connect callback emits may come before it.",
 [("server.go", '''		if err := socket.emitPacket(&Packet{
			Type:      PacketTypeConnect,
			Namespace: "/",
		}); err != nil {
			if nsp.onError != nil {
				nsp.onError(socket, err)
			}
		}
		server.sockLock''', '''		go func() {
			if err := socket.emitPacket(&Packet{
				Type:      PacketTypeConnect,
				Namespace: "/",
			}); err != nil {
				if nsp.onError != nil {
					nsp.onError(socket, err)
				}
			}
		}()
		server.sockLock''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	s.Namespace("/").OnConnect(func(so socketio.Socket) { so.Emit("hi") })
	for i := 0; i < 200; i++ {
		p := dial(t, url)
		if g := p.recv(); g != "40" && g != "40/" {
			t.Fatalf("first packet is %q", g)
		}
		p.c.Close()
	}
}
''')

bug("c17-ten-attachments", "C17", "a packet with ten attachments or more",
 "The number of attachments is read digit by digit without adding them up: packets with more than nine attachments are refused.",
 [("parser_default.go", "			p.attachments = p.attachments*10 + int(s[j]-'0')", "			if n := int(s[j] - '0'); n > 0 || j > i {\n				p.attachments = n\n			}")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	d := socketio.DefaultParser.Decoder()
	h := `512-["e"`
	for i := 0; i < 12; i++ {
		h += fmt.Sprintf(`,{"_placeholder":true,"num":%d}`, i)
	}
	if err := d.Add(socketio.MessageTypeString, []byte(h+"]")); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 12; i++ {
		if err := d.Add(socketio.MessageTypeBinary, []byte{byte(i)}); err != nil {
			t.Fatal(i, err)
		}
	}
	select {
	case <-d.Decoded():
	default:
		t.Fatal("no packet")
	}
}
''')
bug("c17-hex-num", "C17", "a packet with more than ten attachments",
 "Placeholder numbers are written in hexadecimal: beyond ten attachments the JSON is not even valid.",
 [("parser_default.go", '`{"_placeholder":true,"num":%d}`', '`{"_placeholder":true,"num":%x}`')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	args := []interface{}{"e"}
	for i := 0; i < 12; i++ {
		args = append(args, &socketio.Bytes{Data: []byte{1}})
	}
	b, _, err := socketio.DefaultParser.Encoder().Encode(&socketio.Packet{Type: socketio.PacketTypeEvent, Namespace: "/", Data: args})
	if err != nil || !strings.Contains(string(b), `"num":10}`) {
		t.Fatalf("%s %v", b, err)
	}
}
''')
bug("c31-first-registration", "C31", "a callback registered in place of another one",
 "Registering a callback for an event that has one already is ignored.",
 [("engine/handle.go", "	e.handlers[event] = callable\n", "	if _, ok := e.handlers[event]; !ok {\n		e.handlers[event] = callable\n	}\n")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	n := make(chan bool, 1)
	r.srv.On(engine.EventMessage, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { n <- true }))
	c, _ := r.wsOpen()
	send(c, "4x")
	select {
	case <-n:
	case <-time.After(5 * time.Second):
		t.Fatal("the callback registered last does not run")
	}
}
''')
bug("c31-register-in-callback", "C31", "a callback that registers another one",
 "The callback table stays locked while a callback runs: registering from inside a callback never returns.",
 [("engine/handle.go", "	callable, ok := e.handlers[event]\n	e.RUnlock()\n", "	defer e.RUnlock()\n	callable, ok := e.handlers[event]\n")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	n := make(chan string, 4)
	r.srv.On(engine.EventMessage, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) {
		r.srv.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, b []byte) { n <- string(b) }))
		n <- "first"
	}))
	c, _ := r.wsOpen()
	send(c, "4a")
	send(c, "4b")
	for _, w := range []string{"first", "b"} {
		select {
		case s := <-n:
			if s != w {
				t.Fatal(s)
			}
		case <-time.After(5 * time.Second):
			t.Fatal("no callback:", w)
		}
	}
}
''')
bug("c31-empty-string", "C31", "emitting an empty string",
 "An empty string is emitted as its JSON encoding, two quotes.",
 [("engine/socket.go", "} else if s, ok := args.(string); ok {", '} else if s, ok := args.(string); ok && s != "" {')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	c, sid := r.wsOpen()
	r.sock(sid).Send("")
	if s := recv(c); s != "4" {
		t.Fatalf("%q", s)
	}
}
''')
bug("c32-root-socket", "C32", "an event whose argument does not fit, in a namespace other than the root",
 "A client reports an event's misfit argument with the socket of the root namespace.",
 [("client.go", '''		v, err := nsp.fireEvent(&nspSock{socket: sock, name: p.Namespace}, event, data, bin, sock.decoder)
		if err != nil {
			if nsp.onError != nil {
				nsp.onError(&nspSock{socket: sock, name: p.Namespace}, err)''', '''		v, err := nsp.fireEvent(&nspSock{socket: sock, name: p.Namespace}, event, data, bin, sock.decoder)
		if err != nil {
			if nsp.onError != nil {
				nsp.onError(sock, err)''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	s.Namespace("/a").OnConnect(func(so socketio.Socket) { so.Emit("e", "x") })
	c := socketio.NewClient()
	got := make(chan string, 4)
	c.Namespace("/")
	c.Namespace("/a").OnEvent("e", func(int) {}).OnError(func(so socketio.Socket, err ...interface{}) { got <- so.Namespace() })
	// a server that lets the client join
	l := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		k, err := (&websocket.Upgrader{}).Upgrade(w, r, nil)
		if err != nil {
			return
		}
		for _, m := range []string{`0{"sid":"S","upgrades":[],"pingInterval":25000,"pingTimeout":60000}`, "40", "40/a", `42/a,["e","x"]`} {
			k.WriteMessage(websocket.TextMessage, []byte(m))
		}
	}))
	_ = url
	if err := c.Dial("ws"+l.URL[4:]+"/", nil, engine.WebsocketTransport, socketio.DefaultParser); err != nil {
		t.Fatal(err)
	}
	select {
	case n := <-got:
		if n != "/a" {
			t.Fatal("reported for namespace", n)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("not reported")
	}
}
''')
bug("c32-mute-panic", "C32", "a request whose reply has no encoding, in a namespace without an error callback",
 "An acknowledgement that cannot be sent is reported to an error callback that is not there.",
 [("server.go", '''			if err = sock.ack(p); err != nil {
				if nsp.onError != nil {
					nsp.onError(''', '''			if err = sock.ack(p); err != nil {
				if nsp != nil {
					nsp.onError(''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	s.Namespace("/").OnEvent("e", func() interface{} { return make(chan int) }).OnEvent("f", func() string { return "ok" })
	p := dial(t, url)
	p.recv()
	p.send(`421["e"]`)
	p.send(`422["f"]`)
	if g := p.recv(); g != `432["ok"]` {
		t.Fatalf("%q", g)
	}
}
''')
bug("c32-error-swallowed", "C32", "an ERROR packet sent to a server",
 "A server takes ERROR packets for a peer's own business and reports them to nobody.",
 [("server.go", '''	case PacketTypeError:
		if nsp.onError != nil {
			nsp.onError(&nspSock{socket: sock, name: p.Namespace}, p.Data)
		}
''', '''	case PacketTypeError:
''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	s.Namespace("/").OnError(func(so socketio.Socket, err ...interface{}) { n.add("%v", err) })
	p := dial(t, url)
	p.recv()
	p.send(`44"no"`)
	if !wait(3*time.Second, func() bool { return len(n.all()) == 1 }) {
		t.Fatal(n.all())
	}
}
''')
bug("c33-connections-kept", "C33", "connections that come and go",
 "A server keeps every connection it has had in its table.",
 [("server.go", '''		server.sockLock.Lock()
		delete(server.sockets, ß)
		server.sockLock.Unlock()
''', '')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	gone := make(chan bool, 64)
	s.Namespace("/").OnConnect(func(so socketio.Socket) { runtime.SetFinalizer(so, func(interface{}) { gone <- true }) })
	for i := 0; i < 20; i++ {
		p := dial(t, url)
		p.recv()
		p.c.Close()
	}
	if !wait(10*time.Second, func() bool { runtime.GC(); return len(gone) >= 10 }) {
		t.Fatal(len(gone), "of 20 connections that are over have been released")
	}
	runtime.KeepAlive(s)
}
''')
bug("c33-misfit-ack", "C33", "acknowledgements whose arguments do not fit the callback",
 "An acknowledgement callback is forgotten only after it has run well: one that never could is kept.",
 [("handle.go", '''		a.mutex.Lock()
		delete(a.ackmap, id)
		a.mutex.Unlock()
		_, err = fn.Call(so, au, data, buffer)
''', '''		if _, err = fn.Call(so, au, data, buffer); err == nil {
			a.mutex.Lock()
			delete(a.ackmap, id)
			a.mutex.Unlock()
		}
''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	so := make(chan socketio.Socket, 1)
	s.Namespace("/").OnConnect(func(x socketio.Socket) { so <- x })
	p := dial(t, url)
	p.recv()
	x := <-so
	gone := make(chan bool, 64)
	for i := 0; i < 20; i++ {
		emitTracked(x, gone)
		f := p.recv()
		id := f[2:strings.Index(f, "[")]
		p.send("43" + id + `["x"]`)
	}
	if !wait(10*time.Second, func() bool { runtime.GC(); return len(gone) >= 10 }) {
		t.Fatal(len(gone), "of 20 acknowledgement callbacks that are over have been released")
	}
	runtime.KeepAlive(p)
	runtime.KeepAlive(x)
	runtime.KeepAlive(s)
}

func emitTracked(x socketio.Socket, gone chan bool) {
	v := new([64]int)
	runtime.SetFinalizer(v, func(*[64]int) { gone <- true })
	x.Emit("e", func(i int) { v[0] = i })
}
''')

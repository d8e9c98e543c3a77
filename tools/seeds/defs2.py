# Planted bugs, second set: socket.io layer and the rest of the engine.
bug("c20-reused-buffer", "C20", "a binary event whose handler keeps its attachment, followed by further websocket messages; or an event with two attachments",
 "All messages of a websocket share one buffer, so an attachment (or the event text waiting for its attachments) is overwritten by the next message.",
 [("engine/websocket.go", "	header http.Header\n}", "	header http.Header\n	buf    bytes.Buffer // of the packet being read\n}"),
  ("engine/websocket.go", "	var buffer bytes.Buffer\n	if _, err = buffer.ReadFrom(reader); err != nil {", "	w.buf.Reset()\n	if _, err = w.buf.ReadFrom(reader); err != nil {"),
  ("engine/websocket.go", "p.data = buffer.Bytes()", "p.data = w.buf.Bytes()")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	s.Namespace("/").OnEvent("two", func(a, b *socketio.Bytes) { n.add("%s %s", a.Data, b.Data) })
	p := dial(t, url)
	p.recv()
	p.send(`451-["x",{"_placeholder":true,"num":0}]`)
	p.sendBin("dropped")
	p.send(`452-["two",{"_placeholder":true,"num":0},{"_placeholder":true,"num":1}]`)
	p.sendBin("first")
	p.sendBin("other")
	wait(2*time.Second, func() bool { return len(n.all()) > 0 })
	if l := n.all(); len(l) != 1 || l[0] != "first other" {
		t.Fatalf("got %q", l)
	}
}
''')
bug("c14-shared-decoder", "C14", "two connections on one server, the attachment of one's binary event arriving after another's packet",
 "All connections share one default decoder: a packet of one connection drops or takes the pieces of another's.",
 [("parser_default.go", "type defaultParser struct{}", "type defaultParser struct{}\n\nvar sharedDecoder = newDefaultDecoder()"),
  ("parser_default.go", "	return newDefaultDecoder()", "	return sharedDecoder")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	s.Namespace("/").OnEvent("b", func(so socketio.Socket, b *socketio.Bytes) { n.add("b %s", b.Data) }).
		OnEvent("t", func() { n.add("t") })
	p, q := dial(t, url), dial(t, url)
	p.recv()
	q.recv()
	p.send(`451-["b",{"_placeholder":true,"num":0}]`)
	time.Sleep(100 * time.Millisecond)
	q.send(`42["t"]`)
	wait(2*time.Second, func() bool { return len(n.all()) > 0 })
	p.sendBin("data")
	wait(2*time.Second, func() bool { return len(n.all()) > 1 })
	if l := n.all(); len(l) != 2 || l[0] != "t" || l[1] != "b data" {
		t.Fatalf("got %q", l)
	}
}
''')
bug("c16-plain-binary-ack", "C16", "an acknowledgement that returns binary data",
 "Acknowledgements with attachments are sent as plain ACK packets, which the peer cannot put together.",
 [("parser_default.go", "		case PacketTypeAck:\n			p.Type = PacketTypeBinaryAck\n		}\n", "		}\n")],
 "socketio", '''
import "testing"

func TestDemo(t *testing.T) {
	id := uint64(3)
	b, bin, err := DefaultParser.Encoder().Encode(&Packet{Type: PacketTypeAck, Namespace: "/", ID: &id, Data: []interface{}{"a", &Bytes{[]byte("x")}}})
	if err != nil {
		t.Fatal(err)
	}
	d := DefaultParser.Decoder()
	if err := d.Add(MessageTypeString, b); err != nil {
		t.Fatal(err)
	}
	for _, x := range bin {
		if err := d.Add(MessageTypeBinary, x); err != nil {
			t.Fatal(err)
		}
	}
	select {
	case p := <-d.Decoded():
		if _, _, bin, err := d.ParseData(p); err != nil || len(bin) != 1 || string(bin[0]) != "x" {
			t.Fatalf("%q %v", bin, err)
		}
	default:
		t.Fatal("no packet")
	}
}
''', helper=False)
bug("c18-kept-packet", "C18", "a binary frame that follows a complete packet",
 "The decoder keeps its last packet after handing it over; a stray binary frame then panics instead of being refused.",
 [("parser_default.go", "	case d.packets <- d.lastp:\n		d.lastp = nil\n", "	case d.packets <- d.lastp:\n")],
 "socketio", '''
import "testing"

func TestDemo(t *testing.T) {
	d := DefaultParser.Decoder()
	d.Add(MessageTypeString, []byte(`2["a"]`))
	<-d.Decoded()
	if d.Add(MessageTypeBinary, []byte("x")) == nil {
		t.Fatal("stray attachment accepted")
	}
}
''', helper=False)
bug("c19-array-length", "C19", "a msgpack list longer than the array parameter it is for",
 "The length of a transmitted list is no longer compared with the array it is decoded into: a longer one panics.",
 [("parser_msgp.go", '''		if ie.Len() < int(sz) {
			return data, fmt.Errorf("%s len is %d, but unmarshaling %d elements", ie.Type(), ie.Len(), sz)
		}
''', "")],
 "socketio", '''
import (
	"reflect"
	"testing"

	"github.com/tinylib/msgp/msgp"
)

func TestDemo(t *testing.T) {
	b, _ := msgp.AppendIntf(nil, []interface{}{[]interface{}{1, 2, 3}})
	_, err := MsgpackParser.Decoder().UnmarshalArgs([]reflect.Type{reflect.TypeOf([2]int{})}, b, nil)
	if err == nil {
		t.Fatal("no error")
	}
}
''', helper=False)
bug("c20-binary-twice", "C20", "a handler with two binary parameters",
 "An attachment is not used up by the binary parameter that takes it: every binary parameter gets the first attachment.",
 [("parser_default.go", "				buffer = buffer[1:]\n", "				if len(argv) > 0 {\n					buffer = buffer[1:]\n				}\n")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	s.Namespace("/").OnEvent("two", func(a, b *socketio.Bytes) { n.add("%s %s", a.Data, b.Data) })
	p := dial(t, url)
	p.recv()
	p.send(`452-["two",{"_placeholder":true,"num":0},{"_placeholder":true,"num":1}]`)
	p.sendBin("A")
	p.sendBin("B")
	wait(2*time.Second, func() bool { return len(n.all()) > 0 })
	if l := n.all(); len(l) != 1 || l[0] != "A B" {
		t.Fatalf("got %q", l)
	}
}
''')
bug("c21-kept-ack", "C21", "an acknowledgement the peer repeats",
 "An acknowledgement callback stays registered after it ran, so a repeated ACK runs it again.",
 [("handle.go", "		a.mutex.Lock()\n		delete(a.ackmap, id)\n		a.mutex.Unlock()\n		_, err", "		_, err")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	s.Namespace("/").OnConnect(func(so socketio.Socket) { so.Emit("q", func(x int) { n.add("%d", x) }) }).
		OnEvent("end", func() { n.add("end") })
	p := dial(t, url)
	p.recv()
	id := strings.TrimSuffix(strings.TrimPrefix(p.recv(), "42"), `["q"]`)
	p.send("43" + id + "[1]")
	p.send("43" + id + "[2]")
	p.send(`42["end"]`)
	wait(2*time.Second, func() bool { return n.count("end") > 0 })
	if l := n.all(); strings.Join(l, " ") != "1 end" {
		t.Fatalf("got %q", l)
	}
}
''')
bug("c22-void-client-ack", "C22", "a Go client whose handler returns nothing, asked for an acknowledgement",
 "The client acknowledges only events whose handler returns something.",
 [("client.go", "		if p.ID != nil {\n			d := make", "		if p.ID != nil && len(v) > 0 {\n			d := make")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	s.Namespace("/").OnEvent("go", func(so socketio.Socket) { so.Emit("q", func() { n.add("acked") }) })
	c := socketio.NewClient()
	connected := make(chan bool, 1)
	c.Namespace("/").OnEvent("q", func() { n.add("asked") }).OnConnect(func(socketio.Socket) { connected <- true })
	if err := c.Dial(url+"/?EIO=3&transport=websocket", nil, socketio.WebsocketTransport, socketio.DefaultParser); err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	<-connected
	c.Emit("/", "go")
	wait(2*time.Second, func() bool { return n.count("acked") > 0 })
	if l := n.all(); strings.Join(l, " ") != "asked acked" {
		t.Fatalf("got %q", l)
	}
}
''')
bug("c23-root-error", "C23", "EmitError on the socket of a namespace other than the root one",
 "The socket of a namespace emits its errors into the root namespace.",
 [("socket.go", "	return n.socket.emitError(n.name, arg)", "	return n.socket.EmitError(arg)")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	s.Namespace("/a").OnEvent("e", func(so socketio.Socket) { so.EmitError("bad") })
	p := dial(t, url)
	p.recv()
	p.send("40/a")
	p.recv()
	p.send(`42/a,["e"]`)
	if g := p.recv(); g != `44/a,"bad"` {
		t.Fatalf("got %q", g)
	}
}
''')
bug("c24-late-register", "C24", "a client that sends an event as soon as it has its CONNECT, while the server's connect callback is slow",
 "The connect callback of the root namespace runs on its own: event handlers may run before it has.",
 [("server.go", '''		if nsp.onConnect != nil {
			nsp.onConnect(socket)
		}
	}, oc...)''', '''		if nsp.onConnect != nil {
			go nsp.onConnect(socket)
		}
	}, oc...)''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	s.Namespace("/").OnConnect(func(socketio.Socket) { time.Sleep(300 * time.Millisecond); n.add("connect") }).
		OnEvent("e", func() { n.add("event") })
	p := dial(t, url)
	p.recv()
	p.send(`42["e"]`)
	wait(2*time.Second, func() bool { return len(n.all()) > 1 })
	if l := n.all(); strings.Join(l, " ") != "connect event" {
		t.Fatalf("got %q", l)
	}
}
''')
bug("c24-early-return", "C24", "a connection lost that has joined several namespaces, some without a disconnect callback",
 "Looking for disconnect callbacks stops at the first namespace without one.", [("socket.go", '''			if nsp.onDisconnect != nil {
				nsp.onDisconnect(&nspSock{socket: sock, name: k})
			}
		}
	}''', '''			if nsp.onDisconnect == nil {
				return
			}
			nsp.onDisconnect(&nspSock{socket: sock, name: k})
		}
	}''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	for _, x := range "abcdefgh" {
		s.Namespace("/quiet" + string(x))
	}
	s.Namespace("/a").OnDisconnect(func(socketio.Socket) { n.add("a") })
	for i := 0; i < 8; i++ {
		p := dial(t, url)
		p.recv()
		for _, x := range "abcdefgh" {
			p.send("40/quiet" + string(x))
			p.recv()
		}
		p.send("40/a")
		p.recv()
		p.c.Close()
	}
	wait(2*time.Second, func() bool { return len(n.all()) >= 8 })
	if l := n.all(); len(l) != 8 {
		t.Fatalf("%d of 8 disconnects reported", len(l))
	}
}
''')
bug("c26-early-event", "C26", "a client that sends an event as soon as it has the OPEN packet",
 "The server registers a connection after its root namespace's connect callback; events that arrive meanwhile are dropped." ,
 [("server.go", '''		server.sockLock.Lock()
		server.sockets[ß] = socket
		server.sockLock.Unlock()
		if nsp.onConnect != nil {
			nsp.onConnect(socket)
		}
	}, oc...)''', '''		go func() {
			if nsp.onConnect != nil {
				nsp.onConnect(socket)
			}
			server.sockLock.Lock()
			server.sockets[ß] = socket
			server.sockLock.Unlock()
		}()
	}, oc...)''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	var n notes
	s.Namespace("/").OnConnect(func(socketio.Socket) { time.Sleep(300 * time.Millisecond) }).
		OnEvent("e", func() { n.add("event") })
	p := dial(t, url)
	p.recv()
	p.send(`42["e"]`)
	if !wait(2*time.Second, func() bool { return len(n.all()) > 0 }) {
		t.Fatal("event lost")
	}
}
''')
bug("c28-ack-map", "C28", "acknowledgements arriving while other goroutines emit with callbacks on the same connection",
 "Acknowledgement callbacks are removed while holding only the read lock.",
 [("handle.go", "	fn, ok := a.ackmap[id]\n	a.mutex.RUnlock()\n	if ok {\n		a.mutex.Lock()\n		delete(a.ackmap, id)\n		a.mutex.Unlock()\n		_, err", "	fn, ok := a.ackmap[id]\n	a.mutex.RUnlock()\n	if ok {\n		delete(a.ackmap, id)\n		_, err")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	so := make(chan socketio.Socket, 1)
	s.Namespace("/").OnConnect(func(x socketio.Socket) { so <- x })
	p := dial(t, url)
	p.recv()
	x := <-so
	go func() {
		for {
			m := p.recv()
			if m == "" {
				return
			}
			p.send("43" + strings.TrimSuffix(strings.TrimPrefix(m, "42"), `["q"]`) + "[]")
		}
	}()
	for i := 0; i < 300; i++ {
		x.Emit("q", func() {})
	}
	time.Sleep(200 * time.Millisecond)
}
''', race=True)
bug("c28-session-lookup", "C28", "a request naming a session while another session is opened",
 "Sessions are looked up without the lock that guards the table.",
 [("engine/session.go", "	s.RLock()\n	ß, b = s.ß[id]\n	s.RUnlock()\n", "	ß, b = s.ß[id]\n")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	done := make(chan bool)
	go func() {
		for i := 0; i < 100; i++ {
			r.open()
		}
		close(done)
	}()
	for i := 0; i < 100; i++ {
		r.post(sid, "4x")
	}
	<-done
}
''', race=True)
bug("c07-background-queue", "C07", "a POST with more packets than the receive queue holds while a callback is busy",
 "Packets that find the receive queue full are handed over in the background: they may overtake each other.",
 [("engine/polling.go", """			case p.in <- &payload.packets[i]:
			}""", """			case p.in <- &payload.packets[i]:
			default: // do not hold up the request
				go func(pkt *Packet) {
					select {
					case <-p.closed:
					case p.in <- pkt:
					}
				}(&payload.packets[i])
			}""")],
 "engine_test", """
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	r.srv.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, d []byte) {
		time.Sleep(time.Millisecond)
		r.mu.Lock()
		r.msgs = append(r.msgs, string(d))
		r.mu.Unlock()
	}))
	var ps, want []string
	for i := 0; i < 200; i++ {
		want = append(want, fmt.Sprint(i))
		ps = append(ps, "4"+fmt.Sprint(i))
	}
	r.post(sid, ps...)
	wait(5*time.Second, func() bool { return len(r.got()) >= 200 })
	if g := strings.Join(r.got(), " "); g != strings.Join(want, " ") {
		t.Fatalf("got %s", g)
	}
}
""")
bug("c04-read-limit", "C04", "a websocket message of more than 256 KiB",
 "A websocket message of more than 256 KiB ends the session instead of being delivered.",
 [("engine/transport.go", "	return &websocketConn{conn: c, header: cloneHTTPHeader(r.Header)}, nil", "	c.SetReadLimit(256 << 10)\n	return &websocketConn{conn: c, header: cloneHTTPHeader(r.Header)}, nil")],
 "engine_test", """
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	c, _ := r.wsOpen()
	big := strings.Repeat("x", 300<<10)
	send(c, "4"+big)
	if !wait(3*time.Second, func() bool { return len(r.got()) == 1 && r.got()[0] == big }) {
		t.Fatal("message not delivered")
	}
}
""")
bug("c04-unknown-ends", "C04", "a websocket frame of an unknown packet type",
 "A frame of an unknown packet type ends the session instead of being ignored.",
 [("engine/websocket.go", "	var buffer bytes.Buffer\n", "	if p.pktType > PacketTypeNoop {\n		return nil, ErrInvalidPayload\n	}\n	var buffer bytes.Buffer\n")],
 "engine_test", """
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	c, _ := r.wsOpen()
	send(c, "9what")
	send(c, "4m")
	if !wait(3*time.Second, func() bool { return len(r.got()) == 1 && r.got()[0] == "m" }) {
		t.Fatal("message not delivered")
	}
}
""")

bug("c19-shared-element", "C19", "a msgpack list of values that decode themselves, of which a later one lacks members that an earlier one has",
 "All elements of a list are decoded into the same variable: a type that decodes itself and leaves absent members as they are finds those of the element before.",
 [("parser_msgp.go", '''		for i := 0; i < int(sz); i++ {
			data, err = msgpUnmashalArg(slice.Index(i).Addr(), data)
			if err != nil {
				return data, err
			}
		}
''', '''		elem := reflect.New(ie.Type().Elem())
		for i := 0; i < int(sz); i++ {
			data, err = msgpUnmashalArg(elem, data)
			if err != nil {
				return data, err
			}
			slice.Index(i).Set(elem.Elem())
		}
''')],
 "socketio_test", '''
type opt struct{ A, B string }

func (o *opt) UnmarshalMsg(b []byte) ([]byte, error) {
	n, b, err := msgp.ReadMapHeaderBytes(b)
	for ; n > 0 && err == nil; n-- {
		var k, v string
		if k, b, err = msgp.ReadStringBytes(b); err != nil {
			break
		}
		v, b, err = msgp.ReadStringBytes(b)
		if k == "a" {
			o.A = v
		} else {
			o.B = v
		}
	}
	return b, err
}

func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.MsgpackParser)
	got := make(chan []opt, 1)
	s.Namespace("/").OnEvent("e", func(l []opt) { got <- l })
	p := dial(t, url)
	list := msgp.AppendArrayHeader(nil, 2)
	list = msgp.AppendString(list, "e")
	list = msgp.AppendArrayHeader(list, 2)
	list = msgp.AppendMapHeader(list, 2)
	for _, x := range []string{"a", "1", "b", "2"} {
		list = msgp.AppendString(list, x)
	}
	list = msgp.AppendMapHeader(list, 1)
	list = msgp.AppendString(msgp.AppendString(list, "a"), "3")
	b := msgp.AppendMapHeader(nil, 3)
	b = msgp.AppendInt(msgp.AppendString(b, "type"), 2)
	b = msgp.AppendString(msgp.AppendString(b, "nsp"), "/")
	b = append(msgp.AppendString(b, "data"), list...)
	p.sendBin(string(b))
	select {
	case l := <-got:
		if len(l) != 2 || l[0] != (opt{"1", "2"}) || l[1] != (opt{A: "3"}) {
			t.Fatal(l)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("no event")
	}
}
''')
bug("c23-silent-binary", "C23", "a binary event to a namespace the server does not have",
 "Only plain events to unknown namespaces are answered with an error.",
 [("server.go", "if p.Type > PacketTypeDisconnect {", "if p.Type == PacketTypeEvent || p.Type == PacketTypeAck {")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	_, url := newServer(t, socketio.DefaultParser)
	p := dial(t, url)
	if s := p.recv(); s != "40" {
		t.Fatalf("%q", s)
	}
	p.send(`451-/none,["e",{"_placeholder":true,"num":0}]`)
	p.sendBin("x")
	if s := p.recv(); !strings.HasPrefix(s, "44/none,") {
		t.Fatalf("%q", s)
	}
}
''')
bug("c27-empty-attachment", "C27", "an empty binary argument",
 "Empty attachments are not sent: the peer waits for them for ever, and takes the next packet's attachment in their place.",
 [("socket.go", "	for _, d := range bin {\n", "	for _, d := range bin {\n		if len(d) == 0 {\n			continue\n		}\n")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	got := make(chan int, 1)
	s.Namespace("/").OnConnect(func(so socketio.Socket) { so.Emit("e", &socketio.Bytes{Data: []byte{}}) })
	c := socketio.NewClient()
	c.Namespace("/").OnEvent("e", func(b *socketio.Bytes) { got <- len(b.Data) })
	if err := c.Dial(url, nil, engine.WebsocketTransport, socketio.DefaultParser); err != nil {
		t.Fatal(err)
	}
	select {
	case <-got:
	case <-time.After(5 * time.Second):
		t.Fatal("no event")
	}
}
''')
bug("c21-locked-ack", "C21", "an acknowledgement callback that emits a request of its own",
 "The table of pending requests stays locked while an acknowledgement callback runs: one that emits a request never returns.",
 [("handle.go", '''		delete(a.ackmap, id)
		a.mutex.Unlock()
		_, err = fn.Call''', '''		defer a.mutex.Unlock()
		delete(a.ackmap, id)
		_, err = fn.Call''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	s.Namespace("/").OnConnect(func(so socketio.Socket) {
		so.Emit("a", func() { so.Emit("b", func() {}) })
	})
	p := dial(t, url)
	p.recv()
	if m := p.recv(); m != `421["a"]` {
		t.Fatal(m)
	}
	p.send("431[]")
	if m := p.recv(); m != `422["b"]` {
		t.Fatalf("%q", m)
	}
}
''')
bug("c22-binary-request", "C22", "a request with a binary argument",
 "Requests that carry attachments are not acknowledged.",
 [("server.go", '''		if p.ID != nil {
			d := make([]interface{}, len(v))''', '''		if p.ID != nil && len(bin) == 0 {
			d := make([]interface{}, len(v))''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	s.Namespace("/").OnEvent("e", func(b *socketio.Bytes) int { return 7 })
	p := dial(t, url)
	p.recv()
	p.send(`451-5["e",{"_placeholder":true,"num":0}]`)
	p.sendBin("x")
	if m := p.recv(); m != `435[7]` {
		t.Fatalf("%q", m)
	}
}
''')
bug("c25-breathe", "C25", "two goroutines that emit at the same time, one of them a packet with more than two attachments",
 "A packet with many attachments lets other emitters in after every two of them.",
 [("socket.go", '''	for _, d := range bin {
''', '''	for i, d := range bin {
		if i > 0 && i%2 == 0 { // let others in
			s.emitMu.Unlock()
			s.emitMu.Lock()
		}
''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	s.Namespace("/").OnConnect(func(so socketio.Socket) {
		for g := 0; g < 8; g++ {
			g := g
			go func() {
				for i := 0; i < 200; i++ {
					args := make([]interface{}, 6)
					for k := range args {
						args[k] = &socketio.Bytes{Data: []byte{byte('a' + g)}}
					}
					so.Emit(fmt.Sprint(g), args...)
				}
			}()
		}
	})
	p := dial(t, url)
	p.recv()
	for n := 0; n < 1600; n++ {
		h := p.recv()
		if !strings.HasPrefix(h, "456-[\\"") {
			t.Fatalf("no header: %q", h)
		}
		for k := 0; k < 6; k++ {
			if b := p.recv(); len(b) != 2 || b[0] != 4 || b[1] != 'a'+h[6]-'0' {
				t.Fatalf("%q of %q", b, h)
			}
		}
	}
}
''')
bug("c16-signed-id", "C16", "a packet whose id has its top bit set",
 "Ids are written as signed numbers.",
 [("parser_default.go", "strconv.FormatUint(*p.ID, 10)", "strconv.FormatInt(int64(*p.ID), 10)")],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	id := uint64(1) << 63
	b, _, err := socketio.DefaultParser.Encoder().Encode(&socketio.Packet{Type: socketio.PacketTypeEvent, Namespace: "/", ID: &id, Data: []interface{}{"e"}})
	if err != nil || strings.TrimSpace(string(b)) != `29223372036854775808["e"]` {
		t.Fatalf("%s %v", b, err)
	}
}
''')
bug("c12-flush-stops", "C12", "Close with a full queue",
 "When flushing at Close, at most seven packets are written.",
 [("engine/emitter.go", '''func (e *emitter) flush() {
	for {
''', '''func (e *emitter) flush() {
	for n := 0; n < cap(e.packets)-1; n++ {
''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	for try := 0; try < 300; try++ {
		c, sid := r.wsOpen()
		so := r.sock(sid)
		n := 0
		for ; n < 40; n++ {
			if so.Send(fmt.Sprintf("%d-%s", n, strings.Repeat("x", 4000))) != nil {
				break
			}
		}
		so.Close()
		for i := 0; i < n; i++ {
			if m := recv(c); !strings.HasPrefix(m, fmt.Sprintf("4%d-", i)) {
				t.Fatalf("try %d: message %d of %d is missing", try, i, n)
			}
		}
		c.Close()
	}
}
''')
bug("c09-ordered-pending", "C09", "a client that posts, upgrades and sends over the websocket while a callback is slow",
 "Messages received over polling are read after those received over the websocket.",
 [("engine/socket.go", '''	if len(s.pending) > 0 {
		p, s.pending = s.pending[0], s.pending[1:]
		return
	}
''', '''	if n := len(s.pending); n > 0 {
		if n > 2 { // a batch: begin with the control packets
			for i := range s.pending {
				if s.pending[i].pktType != PacketTypeMessage {
					s.pending[0], s.pending[i] = s.pending[i], s.pending[0]
					break
				}
			}
		}
		p, s.pending = s.pending[0], s.pending[1:]
		return
	}
''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	gate := make(chan bool)
	var mu sync.Mutex
	var got []string
	r.srv.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, b []byte) {
		if string(b) == "slow" {
			<-gate
		}
		mu.Lock()
		got = append(got, string(b))
		mu.Unlock()
	}))
	sid := r.open()
	r.post(sid, "4slow")
	time.Sleep(100 * time.Millisecond)
	r.post(sid, "4a", "4b", "2", "4c")
	c := r.probe(sid)
	send(c, "5")
	go r.poll(sid)
	time.Sleep(300 * time.Millisecond)
	close(gate)
	send(c, "4d")
	wait(5*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return len(got) == 5 })
	mu.Lock()
	defer mu.Unlock()
	if s := strings.Join(got, " "); s != "slow a b c d" {
		t.Fatal(s)
	}
}
''')
bug("c02-empty-binary", "C02", "a base64 packet whose declared length covers the marker only",
 "A base64 packet too short to have a type is taken for an empty one.",
 [("engine/payload.go", '''	if b == 'b' {
		length--
''', '''	if b == 'b' {
		if length > 1 {
			length--
		}
''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	if c, _, _ := r.do("POST", "transport=polling&sid="+sid, "text/plain; charset=UTF-8", "1:b4"); c == 200 {
		t.Fatal("accepted")
	}
}
''')
bug("c24-client-lost", "C24", "a client in a namespace other than the root whose connection is lost",
 "When a connection is lost, the disconnect callbacks are given a socket of the root namespace.",
 [("socket.go", '''				nsp.onDisconnect(&nspSock{socket: sock, name: k})
			}
		}
	}
''', '''				nsp.onDisconnect(sock)
			}
		}
	}
''')],
 "socketio_test", '''
func TestDemo(t *testing.T) {
	s, url := newServer(t, socketio.DefaultParser)
	n := make(chan string, 2)
	s.Namespace("/a").OnDisconnect(func(so socketio.Socket) { n <- so.Namespace() })
	p := dial(t, url)
	p.recv()
	p.send("40/a")
	if m := p.recv(); m != "40/a," {
		t.Fatalf("%q", m)
	}
	p.c.Close()
	if m := <-n; m != "/a" {
		t.Fatal(m)
	}
}
''')
bug("c14-coarse-id", "C14", "sessions opened within the same millisecond",
 "The session id is encoded without its last bytes: sessions that open within a millisecond collide once in a few hundred times.",
 [("engine/session.go", "io.ReadFull(rand.Reader, k[6:])", "io.ReadFull(rand.Reader, k[6:7])")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	seen := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for g := 0; g < 50; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 60; i++ {
				_, b, _ := r.do("GET", "transport=polling&b64=1", "", "")
				ps := packets(b)
				if len(ps) == 0 {
					continue
				}
				mu.Lock()
				if seen[sidOf(ps[0])] {
					t.Error("two sessions with the id", sidOf(ps[0]))
				}
				seen[sidOf(ps[0])] = true
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
}
''')
bug("c29-raw-key", "C29", "a header set under a key that is not spelt canonically",
 "SetHeader stores the key as it is spelt, GetHeader looks for the canonical one.",
 [("engine/socket.go", "	s.Conn.httpHeader().Set(key, value)\n", "	s.Conn.httpHeader()[key] = []string{value}\n")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	_, sid := r.wsOpen()
	so := r.sock(sid)
	so.SetHeader("x-user", "me")
	if v := so.GetHeader("x-user"); v != "me" {
		t.Fatalf("%q", v)
	}
}
''')

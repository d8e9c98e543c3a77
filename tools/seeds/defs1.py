# Planted bugs, first set: engine.io layer.
bug("c01-body-cap", "C01", "a POST body of more than 64 KiB", "Bodies are silently cut at 64 KiB: a large payload is refused, and one whose first packets end exactly there loses the rest.",
 [("engine/payload.go", "return p.readFrom(bufio.NewReader(r))", "return p.readFrom(bufio.NewReader(io.LimitReader(r, 64<<10)))")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	big := strings.Repeat("x", 70000)
	if c, s := r.post(sid, "4"+big); c != 200 {
		t.Fatalf("POST answered %d %q", c, s)
	}
	if !wait(3*time.Second, func() bool { m := r.got(); return len(m) == 1 && m[0] == big }) {
		t.Fatal("message not delivered")
	}
}
''')
bug("c01-loop-variable", "C01", "one POST payload with several packets, the reader lagging behind the request", "Every queued packet of a payload is the same loop variable, so the application receives the last packet several times and the others never.",
 [("engine/polling.go", "for i := range payload.packets {", "for _, pkt := range payload.packets {"),
  ("engine/polling.go", "case p.in <- &payload.packets[i]:", "case p.in <- &pkt:")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	hold := make(chan bool)
	r.srv.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, d []byte) {
		if string(d) == "first" {
			<-hold
		}
		r.mu.Lock()
		r.msgs = append(r.msgs, string(d))
		r.mu.Unlock()
	}))
	r.post(sid, "4first")
	if c, s := r.post(sid, "4a", "4b", "4c"); c != 200 {
		t.Fatalf("POST answered %d %q", c, s)
	}
	close(hold)
	wait(2*time.Second, func() bool { return len(r.got()) >= 4 })
	if s := strings.Join(r.got(), " "); s != "first a b c" {
		t.Fatalf("got %q", s)
	}
}
''')
bug("c02-leading-junk", "C02", "a malformed text payload with one stray byte in front of a packet's length", "A stray byte in front of a length is skipped instead of refusing the payload.",
 [("engine/payload.go", '''		if b < '0' || b > '9' {
			return n, 0, ErrInvalidPayload''', '''		if b < '0' || b > '9' {
			if n == 1 {
				continue // separator
			}
			return n, 0, ErrInvalidPayload''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	c, _, _ := r.do("POST", "transport=polling&sid="+sid, "text/plain; charset=UTF-8", "4:4abcx4:4def")
	if c == 200 {
		t.Fatal("malformed payload accepted")
	}
	time.Sleep(200 * time.Millisecond)
	if m := r.got(); len(m) > 0 {
		t.Fatalf("messages of a refused payload delivered: %q", m)
	}
}
''')
bug("c03-xhr2-round-length", "C03", "a string or binary message whose framed length has a zero digit in the middle or is long", "The length of binary framing is written wrongly for packets of 1000 bytes and more: its digits are cut to three.",
 [("engine/payload.go", "	for length > 0 {\n		b := byte(length % 10)", "	for length > 0 && len(lb) < 3 {\n		b := byte(length % 10)")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	big := strings.Repeat("y", 1233)
	r.sock(sid).Send(big)
	c, b, _ := r.do("GET", "transport=polling&sid="+sid, "", "")
	if c != 200 || b != "\\x00\\x01\\x02\\x03\\x04\\xff4"+big {
		t.Fatalf("binary poll: %d %q", c, b[:20])
	}
}
''')
bug("c03-jsonp-type", "C03", "a JSONP poll and a look at the response headers", "JSONP responses declare no script type: the header is set once the payload has been encoded into a response that is already under way.",
 [("engine/polling.go", '''	w.Header().Set("Content-Type", "text/javascript; charset=UTF-8")
	if _, err := wt.WriteTo(&buf); err != nil {
		return err
	}
	s := buf.String()''', '''	if _, err := wt.WriteTo(&buf); err != nil {
		return err
	}
	w.WriteHeader(http.StatusOK)
	w.Header().Set("Content-Type", "text/javascript; charset=UTF-8")
	s := buf.String()''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	r.sock(sid).Send("hi")
	c, b, h := r.do("GET", "transport=polling&j=0&sid="+sid, "", "")
	if c != 200 || !strings.HasPrefix(h.Get("Content-Type"), "text/javascript") {
		t.Fatalf("%d %q, content type %q", c, b, h.Get("Content-Type"))
	}
}
''')
bug("c05-first-checker-only", "C05", "two origin checkers of which only the second refuses", "Only the first origin checker is consulted.",
 [("engine/server.go", '''			if c != nil && !c.CheckOrigin(r) {
				return false
			}''', '''			if c != nil {
				return c.CheckOrigin(r)
			}''')],
 "engine_test", '''
type chk bool

func (c chk) CheckOrigin(*http.Request) bool { return bool(c) }

func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second, chk(true), nil, chk(false))
	if c, b, _ := r.do("GET", "transport=polling&b64=1", "", ""); c == 200 {
		t.Fatalf("refused origin admitted: %q", b)
	}
}
''')
bug("c05-ping-parameters", "C05", "a ping interval that is no whole number of seconds", "The OPEN packet announces the ping interval rounded down to seconds.",
 [("engine/server.go", "PingInterval: int(interval / time.Millisecond),", "PingInterval: int(interval/time.Second) * 1000,")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 2500*time.Millisecond, 60*time.Second)
	_, b, _ := r.do("GET", "transport=polling&b64=1", "", "")
	if !strings.Contains(b, `"pingInterval":2500`) {
		t.Fatalf("handshake %q", b)
	}
}
''')
bug("c06-drop-when-full", "C06", "more messages emitted at once than the queues hold, with no poll under way", "Emit drops messages silently when the emit queue is full.",
 [("engine/emitter.go", '''	case e.packets <- p:
	}
	return nil''', '''	case e.packets <- p:
	default: // do not hold up the caller
	}
	return nil''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	so := r.sock(sid)
	go func() {
		for i := 0; i < 60; i++ {
			if err := so.Send(fmt.Sprint(i)); err != nil {
				t.Error(err)
			}
		}
		so.Send("end")
	}()
	time.Sleep(200 * time.Millisecond)
	n := 0
	for i := 0; i < 61; i++ {
		done := make(chan []string, 1)
		go func() { _, ps := r.poll(sid); done <- ps }()
		select {
		case ps := <-done:
			for _, p := range ps {
				if p != "4end" && p != fmt.Sprintf("4%d", n) {
					t.Fatalf("got %q, want message %d", p, n)
				}
				n++
			}
		case <-time.After(2 * time.Second):
			t.Fatalf("only %d messages arrive", n)
		}
	}
}
''')
bug("c06-two-writers", "C06", "a particular interleaving of two writer goroutines of the same session", "Two goroutines take messages from the emit queue, so messages emitted one after the other may swap.",
 [("engine/emitter.go", "	e.wg.Add(1)\n	go e.loop()", "	e.wg.Add(2) // keep writing while a write is under way\n	go e.loop()\n	go e.loop()")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	c, sid := r.wsOpen()
	so := r.sock(sid)
	const n = 100000
	go func() {
		for i := 0; i < n; i++ {
			so.Send(fmt.Sprint(i))
		}
	}()
	for i := 0; i < n; i++ {
		if s := recv(c); s != fmt.Sprintf("4%d", i) {
			t.Fatalf("message %d is %q", i, s)
		}
	}
}
''')
bug("c08-flush-half", "C08", "two or more messages waiting in the polling queue when the upgrade completes", "Only half of the messages waiting for a poll are moved to the websocket: the loop bound shrinks while the queue is drained.",
 [("engine/polling.go", '''func (p *pollingConn) FlushOut() (packets []*Packet) {
	for {
		select {
		case pkt := <-p.out:
			packets = append(packets, pkt)
		default:
			return
		}
	}
}''', '''func (p *pollingConn) FlushOut() (packets []*Packet) {
	for i := 0; i < len(p.out); i++ {
		packets = append(packets, <-p.out)
	}
	return
}''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	so := r.sock(sid)
	for i := 0; i < 5; i++ {
		so.Send(fmt.Sprint(i))
	}
	time.Sleep(100 * time.Millisecond)
	c := r.probe(sid)
	send(c, "5")
	for i := 0; i < 5; i++ {
		if s := recv(c); s != fmt.Sprintf("4%d", i) {
			t.Fatalf("message %d is %q", i, s)
		}
	}
}
''')
bug("c10-any-upgrade", "C10", "an upgrade attempt that sends something else than the upgrade packet after the probe", "Anything but another ping is taken for the upgrade packet: an attempt that never asked for it takes the session over, and polls are refused.",
 [("engine/server.go", "	if p.pktType != PacketTypeUpgrade {\n", "	if p.pktType == PacketTypePing {\n")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	c := r.probe(sid)
	send(c, "4not an upgrade")
	recv(c)
	r.sock(sid).Send("hello")
	for i := 0; i < 20; i++ {
		if _, ps := r.poll(sid); len(ps) == 1 && ps[0] == "4hello" {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("message does not arrive over polling after a failed upgrade")
}
''')
bug("c10-silent-probe", "C10", "a client that opens a second transport and then stays silent", "Nothing bounds the wait for the probe, so the session is held up for as long as the silent attempt lasts.",
 [("engine/server.go", '''	newConn.SetReadDeadline(time.Now().Add(ß.readTimeout))
	p, err := newConn.ReadPacket()''', '''	p, err := newConn.ReadPacket()''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 300*time.Millisecond, 300*time.Millisecond)
	sid := r.open()
	c := r.ws(sid)
	defer c.Close()
	for i := 0; i < 15; i++ { // the session itself is not silent
		time.Sleep(100 * time.Millisecond)
		if c, s := r.post(sid, "2"); c != 200 {
			t.Fatalf("session over: %d %s", c, s)
		}
		if i == 10 {
			r.sock(sid).Send("hello")
		}
	}
	done := make(chan bool)
	go func() {
		for {
			c, ps := r.poll(sid)
			if c != 200 {
				return
			}
			for _, p := range ps {
				if p == "4hello" {
					close(done)
					return
				}
			}
		}
	}()
	for end := time.Now().Add(2 * time.Second); time.Now().Before(end); {
		select {
		case <-done:
			return
		case <-time.After(100 * time.Millisecond):
			r.post(sid, "2")
		}
	}
	t.Fatal("messages are held up by a silent upgrade attempt")
}
''')
bug("c11-stuck-post", "C11", "a session ending while a POST waits for room in a full receive queue", "A POST waiting for room in the receive queue of a session that ends never returns.",
 [("engine/polling.go", '''			select {
			case <-p.closed:
				http.Error(w, "closed", http.StatusNotFound)
				return
			case p.in <- &payload.packets[i]:
			}''', '''			p.in <- &payload.packets[i]''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	sid := r.open()
	hold := make(chan bool)
	r.srv.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, d []byte) { <-hold }))
	var ps []string
	for i := 0; i < 30; i++ {
		ps = append(ps, fmt.Sprintf("4%d", i))
	}
	done := make(chan bool)
	go func() { r.post(sid, ps...); close(done) }()
	time.Sleep(200 * time.Millisecond)
	r.sock(sid).Close()
	close(hold)
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the POST of an ended session hangs")
	}
}
''')
bug("c12-close-before-flush", "C12", "messages in the emit queue when Close is called", "The connection is closed before the emit queue is flushed.",
 [("engine/socket.go", '''		s.emitter.close()
		s.RLock()
		conn := s.Conn
		s.RUnlock()
		err = conn.Close()
''', '''		s.RLock()
		conn := s.Conn
		s.RUnlock()
		err = conn.Close()
		s.emitter.close()
''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	for k := 0; k < 50; k++ {
		c, sid := r.wsOpen()
		so := r.sock(sid)
		for i := 0; i < 8; i++ {
			if err := so.Send(fmt.Sprint(i)); err != nil {
				t.Fatal(err)
			}
		}
		so.Close()
		for i := 0; i < 8; i++ {
			if s := recv(c); s != fmt.Sprintf("4%d", i) {
				t.Fatalf("message %d is %q", i, s)
			}
		}
	}
}
''')
bug("c12-emit-after-close", "C12", "Emit after Close with room in the queue (the select picks at random)", "An Emit after Close may report success although the message is never written.",
 [("engine/emitter.go", '''func (e *emitter) submit(p *Packet) error {
	select {
	case <-e.done:
		return errEmitterClosed
	default:
	}
	select {''', '''func (e *emitter) submit(p *Packet) error {
	select {''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	for k := 0; k < 20; k++ {
		_, sid := r.wsOpen()
		so := r.sock(sid)
		so.Close()
		for i := 0; i < 4; i++ {
			if so.Send("late") == nil {
				t.Fatal("Emit succeeds on a closed session")
			}
		}
	}
}
''')
bug("c13-deadline-once", "C13", "a polling session that stays open for more than interval plus timeout while sending packets", "The read deadline of a polling session is set once and never refreshed: busy sessions time out.",
 [("engine/polling.go", "	p.readDeadline.Store(t)\n", "	if p.readDeadline.Load() == nil || t.IsZero() {\n		p.readDeadline.Store(t)\n	}\n")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 200*time.Millisecond, 300*time.Millisecond)
	sid := r.open()
	for i := 0; i < 15; i++ {
		time.Sleep(100 * time.Millisecond)
		if c, s := r.post(sid, "4x"); c != 200 {
			t.Fatalf("a session that is not silent is over after %d packets: %d %s", i, c, s)
		}
	}
}
''')
bug("c13-client-pings-late", "C13", "a Go client idle for longer than the ping interval", "The Go client pings once per interval plus timeout, so the server takes it for dead.",
 [("engine/client.go", "			case <-time.After(pingInterval):", "			case <-time.After(pingInterval + pingTimeout):")],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 300*time.Millisecond, 600*time.Millisecond)
	pings := make(chan bool, 100)
	r.srv.On(engine.EventPing, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, _ []byte) { pings <- true }))
	c, err := engine.Dial("ws"+r.url[4:]+"/", nil, engine.WebsocketTransport)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	select {
	case <-pings:
	case <-time.After(700 * time.Millisecond):
		t.Fatal("no ping within two ping intervals")
	}
}
''')
bug("c15-close-twice", "C15", "two goroutines closing the server at the same time", "Close checks and closes in two steps; concurrent calls may panic.",
 [("engine/server.go", '''	s.once.Do(func() {
		close(s.done)
	})
	return''', '''	select {
	case <-s.done:
	default:
		close(s.done)
	}
	return''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	for i := 0; i < 20000; i++ {
		s, _ := engine.NewServer(time.Second, time.Second, func(*engine.Socket) {})
		go1 := make(chan bool)
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-go1
				s.Close()
			}()
		}
		close(go1)
		wg.Wait()
	}
}
''')
bug("c28-header-lock", "C28", "two goroutines setting headers of one session at the same time", "SetHeader writes the header map under a read lock.",
 [("engine/socket.go", '''	s.Lock()
	s.Conn.httpHeader().Set(key, value)
	s.Unlock()''', '''	s.RLock()
	s.Conn.httpHeader().Set(key, value)
	s.RUnlock()''')],
 "engine_test", '''
func TestDemo(t *testing.T) {
	r := newRig(t, 25*time.Second, 60*time.Second)
	so := r.sock(r.open())
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				so.SetHeader("X-A", fmt.Sprint(k))
				so.GetHeader("X-A")
			}
		}(k)
	}
	wg.Wait()
}
''', race=True)

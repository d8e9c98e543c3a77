package harness

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strings"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C26: what arrives right after the handshake

// httpPeer is a socket.io peer over polling, enough for default-parser text packets.
func runEarlyServer(mode int) {
	mp := mode&1 != 0
	s := NewSio(bigI, bigT, mp)
	var log []string
	add := func(f string, a ...interface{}) {
		log = append(log, fmt.Sprintf(f, a...))
		rt.Note("cb")
	}
	for _, n := range []string{"/", "/n"} {
		n := n
		s.Namespace(n).OnConnect(func(so socketio.Socket) {
			add("connecting %s", n)
			rt.Yield()
			rt.Nap()
			if err := so.Emit("hi", n); err != nil {
				rt.Fail("[early] Emit in the connect callback of %s: %v", n, err)
			}
			add("connected %s", n)
		}).OnEvent("q", func(so socketio.Socket, x string) string {
			add("q %s %s %s", so.Namespace(), x, so.Sid())
			return x
		})
	}
	var got []SGot
	sid := ""
	up := mode / 2 // 0 websocket, 1 polling, 2 polling upgraded at once
	switch up {
	case 0:
		p := s.Peer()
		sid = p.Sid
		p.Pkt(2, "/", "1", "q", `"a"`)
		p.Pkt(0, "/n", "", "")
		p.Pkt(2, "/n", "2", "q", `"b"`)
		p.Pkt(2, "/", "3", "q", `"c"`)
		got = p.Take()
	default:
		e := &Eng{}
		e.Server = nil
		u := &upCli{Sess: &Sess{E: e}}
		r := Do(s, Req{Method: "GET", Query: qPoll})
		ps, err := decodeAny("", r)
		var op openParams
		if r.Code != 200 || err != nil || len(ps) == 0 || ps[0].Type != 0 || json.Unmarshal([]byte(ps[0].Data), &op) != nil {
			rt.Fail("[early] handshake answered %v", r)
		}
		sid = op.SID
		u.Sid = sid
		p := &SPeer{MP: mp}
		feed := func(l []Pkt) {
			for _, k := range l {
				if k.Type == 4 {
					p.frame(dframe{k.Bin, k.Data})
				}
			}
			rt.Note("fed")
		}
		feed(ps[1:])
		post := func(fs []dframe) {
			var l []Pkt
			for _, f := range fs {
				l = append(l, Pkt{f.bin, 4, f.s})
			}
			if r := Do(s, Req{Method: "POST", Query: qPoll + "&sid=" + sid, CT: ctBin, Body: []byte(encBin(l...))}); r.Code != 200 {
				rt.Fail("[early] POST right after the handshake is answered %v", r)
			}
		}
		pausing, polling := false, false
		rt.HGo("poll loop", func() {
			for !pausing {
				polling = true
				r := Do(s, Req{Method: "GET", Query: qPoll + "&sid=" + sid})
				l, err := decodeAny("", r)
				if r.Code != 200 || err != nil {
					rt.Fail("[early] poll right after the handshake is answered %v", r)
				}
				polling = false
				rt.Note("polled")
				feed(l)
				if l[0].Type == 6 {
					rt.Await("pause", func() bool { return pausing })
				}
			}
		})
		if up == 1 {
			post(append(p.pkt(2, "/", "1", "q", `"a"`), p.pkt(0, "/n", "", "")...))
			post(append(p.pkt(2, "/n", "2", "q", `"b"`), p.pkt(2, "/", "3", "q", `"c"`)...))
		} else {
			post(p.pkt(2, "/", "1", "q", `"a"`))
			w := WSOpen(s, qWS+"&sid="+sid, nil)
			if !w.Handshake() {
				rt.Fail("[early] an upgrade right after the handshake is refused: %d", w.Status)
			}
			w.Send(Pkt{Type: 2, Data: "probe"})
			if k, err := w.Recv(); err != nil || k.Type != 3 {
				rt.Fail("[early] probe answered %v %v", k, err)
			}
			pausing = true
			rt.Await("polling drained", func() bool { return !polling })
			w.Send(Pkt{Type: 5})
			for _, f := range append(append(p.pkt(0, "/n", "", ""), p.pkt(2, "/n", "2", "q", `"b"`)...), p.pkt(2, "/", "3", "q", `"c"`)...) {
				w.Send(Pkt{f.bin, 4, f.s})
			}
			rt.HGo("ws loop", func() {
				for {
					k, err := w.Recv()
					if err != nil {
						rt.Fail("[early] the session ended: %v", err)
					}
					feed([]Pkt{k})
				}
			})
		}
		got = p.Take()
	}
	want := []string{"connecting /", "connected /", "q / a " + sid, "connecting /n", "connected /n", "q /n b " + sid, "q / c " + sid}
	if strings.Join(log, ",") != strings.Join(want, ",") {
		rt.Fail("[early-in] sent right after the handshake: q a on /, CONNECT /n, q b on /n, q c on /; callbacks: %q", log)
	}
	wire := []string{"0/", `2/ hi("/")`, `3/#1 ("a")`, "0/n", `2/n hi("/n")`, `3/n#2 ("b")`, `3/#3 ("c")`}
	if gl := gotList(got); strings.Join(gl, ",") != strings.Join(wire, ",") {
		rt.Fail("[early-out] the peer got %q, should be %q", gl, wire)
	}
	rt.Outcome("%v", log)
}

func runEarlyClient(mode int) {
	mp := mode&1 != 0
	var log []string
	add := func(f string, a ...interface{}) {
		log = append(log, fmt.Sprintf(f, a...))
		rt.Note("cb")
	}
	var p *SPeer
	c := socketio.NewClient()
	c.OnError(func(err interface{}) { rt.Fail("[early] client error %v", err) })
	for _, n := range []string{"/", "/n"} {
		n := n
		c.Namespace(n).OnConnect(func(so socketio.Socket) {
			add("connecting %s %s", n, so.Sid())
			rt.Yield()
			rt.Nap()
			if err := so.Emit("hi", n); err != nil {
				rt.Fail("[early] Emit in the connect callback of %s: %v", n, err)
			}
			add("connected %s", n)
		}).OnEvent("q", func(so socketio.Socket, x string) string {
			add("q %s %s %s", so.Namespace(), x, so.Sid())
			return x
		})
	}
	ListenPeer("h:80", func(w *WS, _ *http.Request) {
		q := &SPeer{W: w, MP: mp, Sid: "S1"}
		var fs []dframe
		fs = append(fs, q.pkt(0, "/", "", "")...)
		fs = append(fs, q.pkt(2, "/", "1", "q", `"a"`)...)
		fs = append(fs, q.pkt(0, "/n", "", "")...)
		fs = append(fs, q.pkt(2, "/n", "2", "q", `"b"`)...)
		open := frame(true, 1, false, []byte("0"+openParamsJSON(bigI, bigT)))
		var rest []byte
		for _, f := range fs {
			op, b := body(Pkt{f.bin, 4, f.s})
			rest = append(rest, frame(true, op, false, b)...)
		}
		if mode&2 != 0 { // in one segment
			w.C.Write(append(open, rest...))
		} else {
			w.C.Write(open)
			w.C.Write(rest)
		}
		p = q
		rt.Note("peer up")
		q.read()
	})
	if err := c.Dial("ws://h/socket.io/", nil, engine.WebsocketTransport, parserOf(mp)); err != nil {
		rt.Fail("[dial] %v", err)
	}
	rt.Quiesce()
	want := []string{"connecting / S1", "connected /", "q / a S1", "connecting /n S1", "connected /n", "q /n b S1"}
	if strings.Join(log, ",") != strings.Join(want, ",") {
		rt.Fail("[early-in] sent right after the handshake: CONNECT, q a, CONNECT /n, q b on /n; callbacks: %q", log)
	}
	wire := []string{`2/ hi("/")`, `3/#1 ("a")`, `2/n hi("/n")`, `3/n#2 ("b")`}
	if gl := gotList(p.Take()); strings.Join(gl, ",") != strings.Join(wire, ",") {
		rt.Fail("[early-out] the peer got %q, should be %q", gl, wire)
	}
	if c.Sid() != "S1" {
		rt.Fail("[early] the client's session id is %q", c.Sid())
	}
	rt.Outcome("%v", log)
}

// engine level: messages right after OPEN
func runEarlyEngine(mode int) {
	if mode == 2 { // the Go client
		ListenPeer("h:80", func(w *WS, _ *http.Request) {
			var b []byte
			b = append(b, frame(true, 1, false, []byte("0"+openParamsJSON(bigI, bigT)))...)
			for _, p := range tags("m", 3) {
				op, d := body(p)
				b = append(b, frame(true, op, false, d)...)
			}
			w.C.Write(b)
			rt.Await("end", func() bool { return false })
		})
		r, err := DialEng("ws://h:80/x/", nil, nil)
		if err != nil {
			rt.Fail("[dial] %v", err)
		}
		rt.Quiesce()
		if !pktsEqual(r.Msgs(), tags("m", 3)) {
			rt.Fail("[early-in] the server sent %s right after OPEN, the client's callback ran for %s", show(tags("m", 3)), show(r.Msgs()))
		}
		return
	}
	e := NewEng(bigI, bigT)
	opened := map[string]bool{}
	e.OnOpen = func(so *engine.Socket) {
		if err := emit(so, msg("hello")); err != nil {
			rt.Fail("[early] Emit in the open callback: %v", err)
		}
		rt.Yield()
		rt.Nap()
		opened[so.Sid()] = true
		rt.Note("opened")
	}
	e.OnMsg = func(so *engine.Socket, bin bool, data string) {
		if !opened[so.Sid()] {
			rt.Fail("[early] a message callback runs before the open callback has returned")
		}
		if err := emit(so, Pkt{bin, 4, data}); err != nil {
			rt.Fail("[early] Emit in the message callback: %v", err)
		}
	}
	u := &upCli{}
	if mode == 0 {
		w, sid := e.WSSession()
		u = &upCli{Sess: &Sess{E: e, Sid: sid}, w: w}
		for _, p := range tags("m", 3) {
			w.Send(p)
		}
		rt.HGo("ws loop", u.wsLoop)
	} else {
		u = newUpCli(e, "")
		rt.HGo("poll loop", u.pollLoop)
		u.post(tags("m", 2)...)
		u.post(tags("m", 3)[2])
	}
	rt.Quiesce()
	if got := e.Got(u.Sid); !pktsEqual(got, tags("m", 3)) {
		rt.Fail("[early-in] sent right after OPEN: %s, delivered %s", show(tags("m", 3)), show(got))
	}
	if got := u.arrived(); !pktsEqual(got, append([]Pkt{msg("hello")}, tags("m", 3)...)) {
		rt.Fail("[early-out] the open callback's message and the replies arrive as %s", show(got))
	}
}

// ---- C27: the Go client against the Go server

type duo struct {
	s        *Sio
	c        *socketio.Client
	so       socketio.Socket // the server's
	mp       bool
	conn     *rt.Conn // the server's end of the connection
	sl, cl   []string // callback logs
	wantS    []string
	wantC    []string
	n        int
	sDis     int
	cDis     int
	over     bool
	hist     []string
	loose    bool // after an end: emits may fail
	inflight int
}

func (d *duo) s_(f string, a ...interface{}) {
	d.sl = append(d.sl, fmt.Sprintf(f, a...))
	rt.Note("server cb")
	rt.Nap()
}
func (d *duo) c_(f string, a ...interface{}) {
	d.cl = append(d.cl, fmt.Sprintf(f, a...))
	rt.Note("client cb")
	rt.Nap()
}

func newDuo(mp bool) *duo {
	d := &duo{mp: mp}
	d.s = NewSio(bigI, bigT, mp)
	d.c = socketio.NewClient()
	reg := func(ns socketio.Namespace, log func(string, ...interface{}), other string) {
		ns.OnError(func(so socketio.Socket, err ...interface{}) { log("error %v", err) })
		ns.OnEvent("t", func(a string, b int) { log("t %s %d", a, b) })
		ns.OnEvent("fin", func() { log("fin") })
		if mp {
			ns.OnEvent("b", func(a []byte, so socketio.Socket, b string) { log("b %s %s", a, b) })
			ns.OnEvent("r", func(so socketio.Socket, a string, b []byte) ([]byte, string) {
				log("r %s %s", a, b)
				return append([]byte("re "), b...), a
			})
		} else {
			ns.OnEvent("b", func(a *socketio.Bytes, so socketio.Socket, b string) { log("b %s %s", a.Data, b) })
			ns.OnEvent("r", func(so socketio.Socket, a string, b *socketio.Bytes) (*socketio.Bytes, string) {
				log("r %s %s", a, b.Data)
				return &socketio.Bytes{Data: append([]byte("re "), b.Data...)}, a
			})
		}
		ns.OnEvent("bounce", func(so socketio.Socket, a string) {
			log("bounce %s", a)
			so.Emit("t", a+"'", 1)
		})
	}
	sn := d.s.Namespace("/")
	sn.OnConnect(func(so socketio.Socket) { d.so = so; rt.Note("server connect") })
	sn.OnDisconnect(func(so socketio.Socket) { d.sDis++; rt.Note("server disconnect") })
	reg(sn, d.s_, "client")
	cn := d.c.Namespace("/")
	cup := false
	cn.OnConnect(func(so socketio.Socket) { cup = true; rt.Note("client connect") })
	cn.OnDisconnect(func(so socketio.Socket) { d.cDis++; rt.Note("client disconnect") })
	reg(cn, d.c_, "server")
	d.c.OnError(func(err interface{}) { d.c_("client error %v", err) })
	ListenServer("h:80", d.s, func(r *http.Request, c *rt.Conn) { d.conn = c })
	if err := d.c.Dial("ws://h/socket.io/", nil, engine.WebsocketTransport, parserOf(mp)); err != nil {
		rt.Fail("[dial] %v", err)
	}
	rt.Await("connected", func() bool { return cup && d.so != nil })
	return d
}

// do performs one operation of a side ('c' or 's').
func (d *duo) do(side byte, op string) {
	d.n++
	x := fmt.Sprintf("%c%d", side, d.n)
	var em socketio.Socket = d.so
	here, there := &d.wantS, &d.wantC
	log := d.s_
	if side == 'c' {
		em = nil
		here, there = &d.wantC, &d.wantS
		log = d.c_
	}
	emit := func(ev string, a ...interface{}) error {
		if em == nil {
			return d.c.Emit("/", ev, a...)
		}
		return em.Emit(ev, a...)
	}
	var err error
	var wh, wt []string
	switch op {
	case "t":
		err = emit("t", x, d.n)
		wt = []string{fmt.Sprintf("t %s %d", x, d.n)}
	case "b":
		err = emit("b", bytesArg(d.mp, x), "+")
		wt = []string{"b " + x + " +"}
	case "0":
		err = emit("b", bytesArg(d.mp, ""), "+")
		wt = []string{"b  +"}
	case "r":
		var fn interface{} = func(b *socketio.Bytes, a string) { log("ack %s %s", b.Data, a) }
		if d.mp {
			fn = func(b []byte, a string) { log("ack %s %s", b, a) }
		}
		err = emit("r", x, bytesArg(d.mp, "B"+x), fn)
		wt = []string{"r " + x + " B" + x}
		wh = []string{"ack re B" + x + " " + x}
	case "bounce":
		err = emit("bounce", x)
		wt = []string{"bounce " + x}
		wh = []string{fmt.Sprintf("t %s' 1", x)}
	}
	if d.over {
		if err == nil {
			rt.Fail("[pair-late] %v: Emit on side %c succeeds although the connection has ended", d.hist, side)
		}
		return
	}
	if err != nil {
		rt.Fail("[pair-emit] %v: Emit on side %c: %v", d.hist, side, err)
	}
	*here = append(*here, wh...)
	*there = append(*there, wt...)
}

func (d *duo) check() {
	rt.Quiesce()
	if strings.Join(d.sl, ",") != strings.Join(d.wantS, ",") {
		rt.Fail("[pair-server] %v: callbacks on the server %q, should be %q", d.hist, d.sl, d.wantS)
	}
	if strings.Join(d.cl, ",") != strings.Join(d.wantC, ",") {
		rt.Fail("[pair-client] %v: callbacks on the client %q, should be %q", d.hist, d.cl, d.wantC)
	}
	n := 0
	if d.over {
		n = 1
	}
	if d.sDis != n || d.cDis != n {
		rt.Fail("[pair-end] %v: disconnect callbacks: %d on the server, %d on the client, should be %d", d.hist, d.sDis, d.cDis, n)
	}
	if len(d.s.Errs) > 0 {
		rt.Fail("[pair-error] %v: server errors %v", d.hist, d.s.Errs)
	}
}

var duoOps = []string{"ct", "cb", "cr", "cbounce", "c0", "st", "sb", "sr", "sbounce", "s0"}
var duoEnds = []string{"client Close", "server Close", "cut", "reset", "both Close"}

func (d *duo) end(k int) {
	d.hist = append(d.hist, duoEnds[k])
	switch k {
	case 0:
		d.c.Close()
	case 1:
		d.so.Close()
	case 2:
		d.conn.Peer().Close()
	case 3:
		d.conn.Peer().Reset()
		d.conn.Reset()
	case 4:
		rt.HGo("client Close", func() { d.c.Close(); rt.Note("closed") })
		d.so.Close()
	}
	d.over = true
}

func runDuo(mp bool, ops []int, end int) {
	d := newDuo(mp)
	rt.Quiesce()
	for _, o := range ops {
		d.hist = append(d.hist, duoOps[o])
		d.do(duoOps[o][0], duoOps[o][1:])
		d.check()
	}
	d.end(end)
	d.check()
	for _, o := range []string{"ct", "sb", "cr", "sr"} {
		d.hist = append(d.hist, o)
		d.do(o[0], o[1:])
	}
	d.check()
	d.c.Close()
	d.so.Close()
	d.check()
	d.s.Server.Close()
	rt.Quiesce()
	if l := rt.Live(); len(l) > 0 {
		rt.Fail("[pair-leak] %v: left after the end: %v", d.hist, l)
	}
}

type duoPlan struct {
	c, s []string // concurrent operations of each side
	end  int      // -1: none; else by whom, after its operations
}

var duoPlans = []duoPlan{
	{[]string{"t", "b"}, []string{"b", "t"}, -1},
	{[]string{"r", "t"}, []string{"r"}, -1},
	{[]string{"bounce"}, []string{"r", "b"}, -1},
	{[]string{"b", "t", "fin"}, []string{"t"}, 0},
	{[]string{"t"}, []string{"b", "t", "fin"}, 1},
	{[]string{"t", "fin"}, []string{"t", "fin"}, 4},
	{[]string{"r"}, []string{"t"}, 2},
	{[]string{"t", "b"}, []string{"r"}, 3},
	{nil, nil, 4},
	{nil, []string{"t", "fin"}, 1},
}

func runDuoSchedule(mp bool, c duoPlan) {
	var d *duo
	rt.Atomically(func() {
		d = newDuo(mp)
		rt.Quiesce()
	})
	done := 0
	actor := func(side byte, ops []string, end int) {
		rt.HGo(fmt.Sprintf("side %c", side), func() {
			for _, o := range ops {
				x := fmt.Sprintf("%c-%s", side, o)
				var a []interface{}
				switch o {
				case "t":
					a = []interface{}{x, 1}
				case "b":
					a = []interface{}{bytesArg(d.mp, x), "+"}
				case "bounce":
					a = []interface{}{x}
				case "r":
					log := d.s_
					if side == 'c' {
						log = d.c_
					}
					var fn interface{} = func(b *socketio.Bytes, a string) { log("ack %s %s", b.Data, a) }
					if d.mp {
						fn = func(b []byte, a string) { log("ack %s %s", b, a) }
					}
					a = []interface{}{x, bytesArg(d.mp, "B"+x), fn}
				}
				var err error
				if side == 'c' {
					err = d.c.Emit("/", o, a...)
				} else {
					err = d.so.Emit(o, a...)
				}
				if err != nil && !d.over {
					rt.Fail("[pair-emit] Emit %s: %v", x, err)
				}
			}
			switch {
			case end == 4 || side == 'c' && end == 0:
				d.over = true
				rt.Note("over")
				if side == 'c' {
					d.c.Close()
				} else {
					d.so.Close()
				}
			case side == 's' && end == 1:
				d.over = true
				rt.Note("over")
				d.so.Close()
			case side == 'c' && end == 2:
				d.over = true
				rt.Note("over")
				d.conn.Peer().Close()
			case side == 'c' && end == 3:
				d.over = true
				rt.Note("over")
				d.conn.Peer().Reset()
				d.conn.Reset()
			}
			done++
			rt.Note("side done")
		})
	}
	actor('c', c.c, c.end)
	actor('s', c.s, c.end)
	rt.Quiesce()
	if done != 2 {
		rt.Fail("[pair-stuck] a side does not finish")
	}
	// what each side should log, by origin
	exp := func(side byte, ops []string) (there, here []string) {
		for _, o := range ops {
			x := fmt.Sprintf("%c-%s", side, o)
			switch o {
			case "t":
				there = append(there, "t "+x+" 1")
			case "b":
				there = append(there, "b "+x+" +")
			case "fin":
				there = append(there, "fin")
			case "r":
				there = append(there, "r "+x+" B"+x)
				here = append(here, "ack re B"+x+" "+x)
			case "bounce":
				there = append(there, "bounce "+x)
				here = append(here, "t "+x+"' 1")
			}
		}
		return
	}
	sFromC, cBack := exp('c', c.c)
	cFromS, sBack := exp('s', c.s)
	judge := func(where string, log, direct, back []string, full bool) {
		count := map[string]int{}
		for _, l := range log {
			count[l]++
		}
		i := 0
		for _, l := range log {
			if i < len(direct) && direct[i] == l {
				i++
			}
		}
		n := 0
		for _, l := range direct {
			n += count[l]
		}
		if n != i || full && i != len(direct) {
			rt.Fail("[pair-%s] the other side emitted %q in this order, callbacks %q", where, direct, log)
		}
		m := 0
		for _, l := range back {
			if count[l] > 1 {
				rt.Fail("[pair-%s] callbacks %q", where, log)
			}
			m += count[l]
		}
		if i+m != len(log) || c.end < 0 && m != len(back) {
			rt.Fail("[pair-%s] callbacks %q, should be %q and %q", where, log, direct, back)
		}
	}
	judge("server", d.sl, sFromC, sBack, c.end < 0 || c.end == 0)
	judge("client", d.cl, cFromS, cBack, c.end < 0 || c.end == 1)
	n := 0
	if c.end >= 0 {
		n = 1
	}
	if d.sDis != n || d.cDis != n {
		rt.Fail("[pair-end] disconnect callbacks: %d on the server, %d on the client, should be %d", d.sDis, d.cDis, n)
	}
	if c.end >= 0 {
		if d.c.Emit("/", "t", "late", 1) == nil || d.so.Emit("t", "late", 1) == nil {
			rt.Fail("[pair-late] Emit succeeds although the connection has ended")
		}
		d.c.Close()
		d.so.Close()
		d.s.Server.Close()
		rt.Quiesce()
		if l := rt.Live(); len(l) > 0 {
			rt.Fail("[pair-leak] left after the end: %v", l)
		}
	}
	rt.Outcome("%v %v", d.sl, d.cl)
}

func init() {
	reg(&rt.Scenario{Name: "early-server", Props: []string{"C26"}, Split: true, Quick: 2, Thorough: 3, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: 6,
		Describe: func(v int) string {
			return fmt.Sprintf("msgpack %v, %s", v&1 != 0, []string{"websocket", "polling", "polling upgraded at once"}[v/2])
		},
		Run: runEarlyServer})
	reg(&rt.Scenario{Name: "early-client", Props: []string{"C26"}, Split: true, Quick: 2, Thorough: 4, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: 4,
		Describe: func(v int) string { return fmt.Sprintf("msgpack %v, in one segment %v", v&1 != 0, v&2 != 0) },
		Run:      runEarlyClient})
	reg(&rt.Scenario{Name: "early-engine", Props: []string{"C26"}, Split: true, Quick: 2, Thorough: 4, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: 3,
		Describe: func(v int) string { return []string{"websocket session", "polling session", "client"}[v] },
		Run:      runEarlyEngine})
	k, m := len(duoOps), len(duoEnds)
	reg(&rt.Scenario{Name: "pair-sequences", Props: []string{"C27"}, Cfg: rt.Config{QuietLib: true, MaxSteps: 1000000}, N: 2 * m * k * k,
		Describe: func(v int) string {
			return fmt.Sprintf("msgpack %v, %s, %s, one more, %s", v&1 != 0, duoOps[v/2/m%k], duoOps[v/2/m/k], duoEnds[v/2%m])
		},
		Run: func(v int) {
			for o := 0; o < k; o++ {
				runDuo(v&1 != 0, []int{v / 2 / m % k, v / 2 / m / k, o}, v/2%m)
				rt.Count("histories", 1)
			}
		}})
	reg(&rt.Scenario{Name: "pair-sequences-deep", Props: []string{"C27"}, Quick: -1, Cfg: rt.Config{QuietLib: true, MaxSteps: 10000000}, N: 2 * m * k * k * k,
		Describe: func(v int) string { return fmt.Sprintf("%d", v) },
		Run: func(v int) {
			for o := 0; o < k; o++ {
				runDuo(v&1 != 0, []int{v / 2 / m % k, v / 2 / m / k % k, v / 2 / m / k / k, o}, v/2%m)
				rt.Count("histories", 1)
			}
		}})
	reg(&rt.Scenario{Name: "pair-schedules", Props: []string{"C27"}, Quick: 2, Thorough: 3, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: 2 * len(duoPlans),
		Describe: func(v int) string { return fmt.Sprintf("msgpack %v, %+v", v&1 != 0, duoPlans[v/2]) },
		Run:      func(v int) { runDuoSchedule(v&1 != 0, duoPlans[v/2]) }})
}

package harness

import (
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C11: however a session ends; C12: what Close does to emitted messages

// ender is one session and the ways to end it.
type ender struct {
	e      *Eng
	mode   int // 0 polling, 1 websocket, 2 upgraded, 3 upgrade connected, 4 upgrade probed, 5 upgrade being completed
	u      *upCli
	w      *WS // the websocket, if any
	sid    string
	so     *engine.Socket
	wsOver bool
	polls  int // running
	acts   int // running actors
}

var endModes = []string{"polling", "websocket", "upgraded", "upgrade connected", "upgrade probed", "upgrade being completed"}

type cause struct {
	name  string
	modes string // modes it applies to
	run   func(x *ender)
}

func (x *ender) send(p Pkt) {
	if x.mode == 0 || x.mode >= 3 {
		x.u.Post(p)
	} else {
		x.w.Send(p)
	}
}

var causes = []cause{
	{"close packet", "012345", func(x *ender) { x.send(Pkt{Type: 1}) }},
	{"Close", "012345", func(x *ender) { x.so.Close() }},
	{"Close in the message callback", "012345", func(x *ender) { x.send(msg("close")) }},
	{"Close in the ping callback", "012", func(x *ender) { x.send(Pkt{Type: 2, Data: "close"}) }},
	{"connection closed", "12", func(x *ender) { x.w.Close() }},
	{"close frame", "12", func(x *ender) { x.w.CloseFrame() }},
	{"connection reset", "12", func(x *ender) { x.w.C.Reset() }},
	{"malformed frame", "12", func(x *ender) { x.w.C.Write([]byte{0xff, 0xff, 0xff}) }},
	{"emission", "012345", func(x *ender) { emit(x.so, msg("e1")); emit(x.so, msg("e2")) }},
	{"silence", "012", func(x *ender) {}},
	{"message", "012", func(x *ender) { x.send(msg("m")) }},
	{"full queue", "01", func(x *ender) {
		for i := 0; i < 20; i++ {
			emit(x.so, msg("q"))
		}
	}},
	{"slow callback", "012", func(x *ender) {
		// more packets than the session takes in while the callback is busy
		l := []Pkt{msg("hold")}
		for i := 0; i < 20; i++ {
			l = append(l, msg("m"))
		}
		if x.mode == 0 {
			x.u.Post(l...)
			return
		}
		for _, p := range l {
			x.w.Send(p)
		}
	}},
}

type endVar struct {
	mode   int
	a, b   int
	inCB   int // what the close callback does: 0 nothing, 1 Close, 2 Emit
	noPoll bool
}

var endVars = func() (out []endVar) {
	n := len(causes)
	for m := range endModes {
		for a := 0; a < n; a++ {
			for b := a; b < n; b++ {
				ca, cb := causes[a], causes[b]
				if !strings.ContainsRune(ca.modes, rune('0'+m)) || !strings.ContainsRune(cb.modes, rune('0'+m)) {
					continue
				}
				if a == b && (ca.name == "silence" || ca.name == "emission" || ca.name == "message" || ca.name == "full queue" || ca.name == "slow callback") && m >= 2 {
					continue
				}
				out = append(out, endVar{mode: m, a: a, b: b, inCB: len(out) % 3})
				if m == 0 {
					out = append(out, endVar{mode: m, a: a, b: b, inCB: len(out) % 3, noPoll: true})
				}
			}
		}
	}
	return
}()

func (c endVar) String() string {
	return fmt.Sprintf("%s: %s and %s, close callback %s, polling %v", endModes[c.mode], causes[c.a].name, causes[c.b].name, []string{"idle", "calls Close", "emits"}[c.inCB], !c.noPoll)
}

func runEnd(c endVar) {
	e := NewEng(25*time.Second, 60*time.Second)
	x := &ender{e: e, mode: c.mode}
	e.OnMsg = func(so *engine.Socket, bin bool, data string) {
		switch data {
		case "close":
			so.Close()
		case "hold":
			rt.AwaitFor("slow callback", int64(10*time.Second), func() bool { return false })
		}
	}
	e.OnPing = func(so *engine.Socket) {
		for _, v := range e.Evs {
			if v.Kind == "ping" && v.Data == "close" {
				so.Close()
				return
			}
		}
	}
	cbs := 0
	e.OnClose = func(so *engine.Socket) {
		switch c.inCB {
		case 1:
			so.Close()
		case 2:
			emit(so, msg("bye"))
			so.Sid()
		}
		cbs++
		rt.Note("close callback done")
	}
	rt.Atomically(func() {
		switch c.mode {
		case 1:
			x.w, x.sid = e.WSSession()
			x.so = e.Sock(x.sid)
		case 0:
			x.u = newUpCli(e, "")
			x.sid = x.u.Sid
			x.so = e.Sock(x.sid)
		default:
			x.u = newUpCli(e, "")
			x.sid = x.u.Sid
			x.so = e.Sock(x.sid)
			rt.Quiesce()
			if c.mode == 2 {
				x.u.upgrade()
				x.w = x.u.w
			} else {
				x.w = WSOpen(e, qWS+"&sid="+x.sid, nil)
				x.w.Handshake()
				if c.mode >= 4 {
					x.w.Send(Pkt{Type: 2, Data: "probe"})
					x.w.Recv()
				}
			}
		}
		rt.Quiesce()
	})
	if x.w != nil {
		rt.HGo("ws reader", func() {
			for {
				if _, err := x.w.Recv(); err != nil {
					x.wsOver = true
					rt.Note("ws over")
					return
				}
			}
		})
	}
	pollOver := true
	if (c.mode == 0 || c.mode >= 3) && !c.noPoll {
		pollOver = false
		rt.HGo("poll loop", func() {
			x.u.pollLoop()
			pollOver = true
			rt.Note("polling over")
		})
	}
	if c.mode == 5 {
		x.acts++
		rt.HGo("upgrader", func() {
			x.u.pausing = true
			rt.Await("polling drained", func() bool { return !x.u.polling })
			x.w.Send(Pkt{Type: 5})
			x.acts--
			rt.Note("upgrade sent")
		})
	}
	for _, k := range []int{c.a, c.b} {
		k := k
		x.acts++
		rt.HGo(causes[k].name, func() {
			causes[k].run(x)
			x.acts--
			rt.Note("cause done")
		})
	}
	// whatever happened, a silent session has timed out by now
	rt.AwaitFor("long", int64(3000*time.Second), func() bool { return false })
	rt.Quiesce()
	if n := e.Count("close", x.sid); n != 1 {
		rt.Fail("[end-event] the close event fired %d times", n)
	}
	if cbs != 1 {
		rt.Fail("[end-stuck] the close callback has not returned")
	}
	if x.acts > 0 {
		rt.Fail("[end-stuck] a call that ends the session, or a request, never returns")
	}
	if !pollOver {
		rt.Fail("[end-stuck] a poll of the ended session is not answered")
	}
	if x.w != nil && !x.wsOver && !x.w.Closed && !x.w.C.IsClosed() {
		rt.Fail("[end-conn] the websocket connection is not closed")
	}
	for _, q := range []Req{{Method: "GET", Query: qPoll}, {Method: "POST", Query: qPoll, CT: ctText, Body: []byte("2:4x")}} {
		q.Query += "&sid=" + x.sid
		r := Start(e, q)
		rt.Quiesce()
		if !r.Done || r.Code < 400 {
			rt.Fail("[end-sid] %s of the ended session is answered %v (answered: %v)", q.Method, r, r.Done)
		}
	}
	if w := WSOpen(e, qWS+"&sid="+x.sid, nil); w.Handshake() {
		rt.Fail("[end-sid] a websocket is accepted for the ended session")
	}
	if err := emit(x.so, msg("late")); err == nil {
		rt.Fail("[end-emit] Emit succeeds on the ended session")
	}
	x.so.Close()
	e.Server.Close()
	rt.Quiesce()
	if l := rt.Live(); len(l) > 0 {
		rt.Fail("[end-leak] workers of the ended session are left: %v", l)
	}
	if n := weigh(e.Server)["*engine.Socket"]; n > 0 {
		rt.Fail("[end-leak] the ended session is kept")
	}
	rt.Outcome("%v", e.Evs)
}

// ---- C12

type closeVar struct {
	name    string
	client  bool  // the engine client rather than a server session
	pre     int   // emitted before Close, sequentially, by the closing goroutine
	lists   []int // concurrent emitters
	closers int
	slow    int
	upgr    bool // an upgraded session
	inCB    bool // Close is called from the message callback
}

var closeVars = func() (out []closeVar) {
	for _, client := range []bool{false, true} {
		for _, pre := range []int{0, 1, 3, 8, 9, 12} {
			out = append(out, closeVar{name: "emit then close", client: client, pre: pre, closers: 1})
		}
		out = append(out,
			closeVar{name: "slow reader", client: client, pre: 9, closers: 1, slow: 3},
			closeVar{name: "two closers", client: client, pre: 3, closers: 2},
			closeVar{name: "concurrent emitters", client: client, pre: 1, lists: []int{2, 1}, closers: 1},
			closeVar{name: "concurrent emitters, queue full", client: client, pre: 8, lists: []int{2, 2}, closers: 1, slow: 3},
			closeVar{name: "concurrent emitters, two closers", client: client, pre: 2, lists: []int{2}, closers: 2},
			closeVar{name: "in a callback", client: client, pre: 3, closers: 1, inCB: true},
			closeVar{name: "in a callback, concurrent emitter", client: client, pre: 8, lists: []int{2}, closers: 1, inCB: true})
	}
	out = append(out, closeVar{name: "upgraded session", pre: 4, lists: []int{2}, closers: 1, upgr: true})
	return
}()

func runClose(c closeVar) {
	var w *WS
	var so *engine.Socket
	var onMsg func()
	closeFn := func() { so.Close() }
	rt.Atomically(func() {
		if c.client {
			ListenPeer("h:80", func(p *WS, _ *http.Request) {
				p.Send(Pkt{false, 0, openParamsJSON(bigI, bigT)})
				w = p
				rt.Note("peer")
			})
			r, err := DialEng("ws://h:80/x/", nil, func(cl *engine.Client) {
				cl.On(engine.EventMessage, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { onMsg() }))
			})
			if err != nil {
				rt.Fail("[dial] %v", err)
			}
			rt.Await("peer", func() bool { return w != nil })
			so = r.C.Socket
			closeFn = func() { r.C.Close() }
		} else {
			e := NewEng(bigI, bigT)
			e.OnMsg = func(*engine.Socket, bool, string) { onMsg() }
			var sid string
			if c.upgr {
				u := newUpCli(e, "")
				e.Sock(u.Sid)
				rt.Quiesce()
				u.upgrade()
				w, sid = u.w, u.Sid
			} else {
				w, sid = e.WSSession()
			}
			so = e.Sock(sid)
		}
		if c.slow > 0 {
			w.S.LimitOut(c.slow)
			w.C.Peer().LimitOut(c.slow)
		}
		rt.Quiesce()
	})
	var got []Pkt
	over := false
	pre := tags("p", c.pre)
	before := map[Pkt]bool{} // emitted successfully before Close was called
	ok := map[Pkt]bool{}
	called, returned := false, 0
	emitted := 0
	late := map[Pkt]bool{}
	doEmit := func(p Pkt) {
		was := returned > 0
		err := emit(so, p)
		if err == nil {
			ok[p] = true
			if !called {
				before[p] = true
			}
			if was {
				rt.Fail("[close-late] Emit(%v), called after Close returned, succeeds", p)
			}
		} else if !called {
			rt.Fail("[close-emit] Emit(%v) before Close fails: %v", p, err)
		}
		rt.Note("emitted")
	}
	closing := func() {
		for _, p := range pre {
			doEmit(p)
		}
		called = true
		rt.Note("close called")
		closeFn()
		returned++
		rt.Note("close returned")
		p := msg("late")
		late[p] = true
		doEmit(p)
	}
	onMsg = closing
	rt.HGo("reader", func() {
		for {
			p, err := w.Recv()
			if err != nil {
				over = true
				rt.Note("over")
				w.Close()
				return
			}
			got = append(got, p)
			rt.Note("received")
		}
	})
	for i, n := range c.lists {
		l := tags(string(rune('a'+i)), n)
		rt.HGo("emitter", func() {
			for _, p := range l {
				doEmit(p)
			}
			emitted++
			rt.Note("emitter done")
		})
	}
	if c.inCB {
		w.Send(msg("go"))
	} else {
		rt.HGo("closer", closing)
	}
	if c.closers > 1 {
		rt.HGo("closer 2", func() {
			rt.Await("first Close", func() bool { return called })
			closeFn()
			returned++
			rt.Note("close returned")
		})
	}
	rt.Quiesce()
	if returned != c.closers || emitted != len(c.lists) {
		rt.Fail("[close-stuck] Close returned %d of %d times, %d of %d emitters done", returned, c.closers, emitted, len(c.lists))
	}
	if !over {
		rt.Fail("[close-conn] the connection is not closed")
	}
	gotM := messages(got)
	seen := map[Pkt]int{}
	for _, p := range gotM {
		seen[p]++
		if !ok[p] {
			rt.Fail("[close-wrote] %v was written although its Emit failed", p)
		}
		if seen[p] > 1 {
			rt.Fail("[close-wrote] %v was written twice", p)
		}
	}
	for p := range before {
		if seen[p] == 0 {
			rt.Fail("[close-lost] %v was emitted before Close, the peer got %s", p, show(gotM))
		}
	}
	lists := [][]Pkt{pre}
	for i, n := range c.lists {
		lists = append(lists, tags(string(rune('a'+i)), n))
	}
	for _, l := range lists {
		var want []Pkt
		for _, p := range l {
			if seen[p] > 0 {
				want = append(want, p)
			}
		}
		if !isSubseq(want, gotM) {
			rt.Fail("[close-order] emitted in order %s, the peer got %s", show(l), show(gotM))
		}
	}
	rt.Outcome("%s", show(got))
}

func init() {
	reg(&rt.Scenario{Name: "session-end", Props: []string{"C11"}, Quick: 1, Thorough: 2, Cfg: rt.Config{QuietLib: true}, N: len(endVars),
		Describe: func(v int) string { return endVars[v].String() },
		Run:      func(v int) { runEnd(endVars[v]) }})
	reg(&rt.Scenario{Name: "close-flush", Props: []string{"C12"}, Split: true, Quick: 2, Thorough: 3, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: len(closeVars),
		Describe: func(v int) string { return fmt.Sprintf("%+v", closeVars[v]) },
		Run:      func(v int) { runClose(closeVars[v]) }})
}

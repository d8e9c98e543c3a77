package harness

import (
	"fmt"
	"net/http"
	"time"

	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C10: upgrade attempts that fail, then a correct one

type denyEvil struct{}

func (denyEvil) CheckOrigin(r *http.Request) bool { return r.Header.Get("Origin") != "evil" }

// atts runs attempts on one polling session.
type atts struct {
	e    *Eng
	u    *upCli
	so   *engine.Socket
	sent []Pkt // posted
	out  []Pkt // emitted
	n    int
	hist []string
	wsIn []Pkt // what attempts received
}

// traffic emits and posts one message each.
func (a *atts) traffic() {
	a.n++
	p := Pkt{a.n&1 == 0, 4, fmt.Sprintf("o%d", a.n)}
	if err := emit(a.so, p); err != nil {
		rt.Fail("[att-emit] after %v: Emit: %v", a.hist, err)
	}
	a.out = append(a.out, p)
	q := Pkt{a.n&1 == 0, 4, fmt.Sprintf("i%d", a.n)}
	if a.u.post(q) {
		a.sent = append(a.sent, q)
	}
}

// recv reads a packet of an attempt's websocket.
func (a *atts) recv(w *WS) (Pkt, bool) {
	p, err := w.Recv()
	if err != nil {
		return p, false
	}
	if p != (Pkt{Type: 3, Data: "probe"}) {
		a.wsIn = append(a.wsIn, p)
	}
	return p, true
}

// over waits until the server has ended the attempt.
func (a *atts) over(w *WS) {
	for {
		if _, ok := a.recv(w); !ok {
			w.Close()
			return
		}
	}
}

func (a *atts) connect() *WS {
	w := WSOpen(a.e, qWS+"&sid="+a.u.Sid, nil)
	if !w.Handshake() {
		rt.Fail("[att-refused] after %v: the websocket request is refused: %d", a.hist, w.Status)
	}
	return w
}

func (a *atts) probe() *WS {
	w := a.connect()
	w.Send(Pkt{Type: 2, Data: "probe"})
	if p, ok := a.recv(w); !ok || p != (Pkt{Type: 3, Data: "probe"}) {
		rt.Fail("[att-probe] after %v: probe answered %v", a.hist, p)
	}
	return w
}

type attempt struct {
	name string
	run  func(a *atts)
	slow bool // runs into a timeout
}

var attempts = func() (out []attempt) {
	add := func(name string, run func(a *atts)) { out = append(out, attempt{name: name, run: run}) }
	steps := []struct {
		name string
		open func(a *atts) *WS
	}{{"after connecting", (*atts).connect}, {"after the probe", (*atts).probe}}
	for _, s := range steps {
		s := s
		add("closed "+s.name, func(a *atts) { w := s.open(a); a.traffic(); w.Close() })
		add("close frame "+s.name, func(a *atts) { w := s.open(a); w.CloseFrame(); a.traffic(); a.over(w) })
		add("reset "+s.name, func(a *atts) { w := s.open(a); a.traffic(); w.C.Reset() })
		add("half a frame "+s.name, func(a *atts) { w := s.open(a); w.C.Write([]byte{0x81, 0x85, 1, 2}); a.traffic(); w.Close() })
		add("empty message "+s.name, func(a *atts) { w := s.open(a); a.traffic(); w.WriteFrame(true, 1, nil); a.over(w) })
		for _, p := range []Pkt{msg("x"), bmsg("x"), {Type: 3, Data: "probe"}, {Type: 6}, {Type: 1}, {Type: 0, Data: "{}"}, {Type: 9, Data: "?"}} {
			p := p
			add(fmt.Sprintf("packet %v %s", p, s.name), func(a *atts) { w := s.open(a); a.traffic(); w.Send(p); a.over(w) })
		}
	}
	add("upgrade packet without a probe", func(a *atts) { w := a.connect(); a.traffic(); w.Send(Pkt{Type: 5}); a.over(w) })
	add("second probe", func(a *atts) { w := a.probe(); a.traffic(); w.Send(Pkt{Type: 2, Data: "probe"}); a.over(w) })
	add("closed without reading the answer", func(a *atts) {
		w := a.connect()
		w.Send(Pkt{Type: 2, Data: "probe"})
		w.Close()
		a.traffic()
	})
	add("several packets at once", func(a *atts) {
		w := a.connect()
		w.Send(msg("x"))
		w.Send(Pkt{Type: 2, Data: "probe"})
		w.Send(Pkt{Type: 5})
		a.traffic()
		a.over(w)
	})
	add("two attempts at once", func(a *atts) {
		w := a.connect()
		v := a.connect()
		v.Send(Pkt{Type: 2, Data: "probe"})
		w.Send(Pkt{Type: 2, Data: "probe"})
		a.traffic()
		if p, ok := a.recv(w); !ok || p.Type != 3 {
			rt.Fail("[att-probe] after %v: probe answered %v", a.hist, p)
		}
		w.Close()
		if p, ok := a.recv(v); !ok || p.Type != 3 {
			rt.Fail("[att-probe] after %v: probe of a second attempt answered %v", a.hist, p)
		}
		a.traffic()
		v.Close()
	})
	out = append(out, attempt{"silent after connecting", func(a *atts) { w := a.connect(); a.traffic(); a.over(w) }, true},
		attempt{"silent after the probe", func(a *atts) { w := a.probe(); a.traffic(); a.over(w) }, true})
	refused := func(name string, q Req) {
		add(name, func(a *atts) {
			q := q
			q.Query += "&sid=" + a.u.Sid
			a.traffic()
			if r := Do(a.e, q); r.Code < 400 {
				rt.Fail("[att-accepted] after %v: %s is answered %v", a.hist, name, r)
			}
		})
	}
	ws := func(k, v string) http.Header {
		h := wsHdr.Clone()
		if v == "" {
			h.Del(k)
		} else {
			h.Set(k, v)
		}
		return h
	}
	refused("plain request", Req{Method: "GET", Query: qWS})
	refused("posted request", Req{Method: "POST", Query: qWS, CT: ctText, Body: []byte("2:4x")})
	refused("websocket version 8", Req{Method: "GET", Query: qWS, Hdr: ws("Sec-Websocket-Version", "8")})
	refused("no key", Req{Method: "GET", Query: qWS, Hdr: ws("Sec-Websocket-Key", "")})
	refused("unknown transport", Req{Method: "GET", Query: "EIO=3&transport=flashsocket", Hdr: wsHdr})
	refused("unknown version", Req{Method: "GET", Query: "EIO=4&transport=websocket", Hdr: wsHdr})
	refused("bad origin", Req{Method: "GET", Query: qWS, Hdr: ws("Origin", "evil")})
	refused("hijacking impossible", Req{Method: "GET", Query: qWS, Hdr: wsHdr})
	return
}()

// check waits until the attempt is over and everything sent so far has arrived over polling.
func (a *atts) check() {
	rt.AwaitFor("a second", int64(time.Second), func() bool { return false })
	rt.Quiesce()
	if a.e.Count("close", "") > 0 || a.u.refused {
		rt.Fail("[att-close] after %v: the session was ended (poll refused: %v %v)", a.hist, a.u.refused, a.u.Errs)
	}
	if a.e.Count("upgrade", "") > 0 {
		rt.Fail("[att-event] after %v: an upgrade event fired", a.hist)
	}
	if len(a.wsIn) > 0 {
		rt.Fail("[att-taken] after %v: the failed attempt received %s", a.hist, show(a.wsIn))
	}
	if got := messages(a.u.Got); !pktsEqual(got, a.out) {
		rt.Fail("[att-out] after %v: emitted %s, received by polling %s", a.hist, show(a.out), show(got))
	}
	if got := a.e.Got(a.u.Sid); !pktsEqual(got, a.sent) {
		rt.Fail("[att-in] after %v: posted %s, delivered %s", a.hist, show(a.sent), show(got))
	}
}

func runAttempts(list []attempt, final bool) {
	e := NewEng(25*time.Second, 60*time.Second, denyEvil{})
	a := &atts{e: e}
	rt.Atomically(func() {
		a.u = newUpCli(e, "")
		a.so = e.Sock(a.u.Sid)
		rt.Quiesce()
	})
	rt.HGo("poll loop", a.u.pollLoop)
	rt.HGo("pinger", func() {
		for !a.u.stop && !a.u.pausing {
			if !rt.AwaitFor("ping interval", int64(25*time.Second), func() bool { return a.u.stop || a.u.pausing }) {
				a.u.post(Pkt{Type: 2})
			}
		}
	})
	for _, t := range list {
		a.hist = append(a.hist, t.name)
		t.run(a)
		a.traffic()
		// what the server may still hold back is due once the attempt has ended
		a.check()
	}
	if !final {
		return
	}
	a.hist = append(a.hist, "correct upgrade")
	a.traffic()
	a.u.upgrade()
	p := msg("last")
	a.u.w.Send(p)
	a.sent = append(a.sent, p)
	rt.HGo("ws loop", a.u.wsLoop)
	rt.Quiesce()
	if got := a.e.Got(a.u.Sid); !pktsEqual(got, a.sent) {
		rt.Fail("[att-in] after %v: posted %s, delivered %s", a.hist, show(a.sent), show(got))
	}
	if got := a.u.arrived(); !pktsEqual(got, a.out) {
		rt.Fail("[att-out] after %v: emitted %s, arrived %s", a.hist, show(a.out), show(got))
	}
	a.u.settled("att-final")
	if n := e.Count("upgrade", a.u.Sid); n != 1 {
		rt.Fail("[att-event] after %v: the upgrade event fired %d times", a.hist, n)
	}
	rt.Outcome("%s", show(messages(a.u.Got)))
}

func init() {
	n := len(attempts)
	reg(&rt.Scenario{Name: "attempt", Props: []string{"C10"}, Split: true, Quick: 1, Thorough: 2, Cfg: rt.Config{QuietLib: true}, N: n,
		Describe: func(v int) string { return attempts[v].name },
		Run:      func(v int) { runAttempts([]attempt{attempts[v]}, true) }})
	reg(&rt.Scenario{Name: "attempt-pairs", Props: []string{"C10"}, Cfg: rt.Config{QuietLib: true, MaxSteps: 1000000}, N: n * n,
		Describe: func(v int) string { return attempts[v/n].name + ", then " + attempts[v%n].name },
		Run:      func(v int) { runAttempts([]attempt{attempts[v/n], attempts[v%n]}, true) }})
	reg(&rt.Scenario{Name: "attempt-triples", Props: []string{"C10"}, Quick: -1, Cfg: rt.Config{QuietLib: true, MaxSteps: 1000000}, N: n * n * n,
		Describe: func(v int) string {
			return attempts[v/n/n].name + ", then " + attempts[v/n%n].name + ", then " + attempts[v%n].name
		},
		Run: func(v int) {
			runAttempts([]attempt{attempts[v/n/n], attempts[v/n%n], attempts[v%n]}, true)
		}})
}

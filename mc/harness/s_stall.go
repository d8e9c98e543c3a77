package harness

import (
	"fmt"
	"io"
	"strings"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C14: a session that is stuck, by its client or its callbacks, holds up no other

type stallVar struct {
	name string
	ws   bool
	cb   string // the callback that does not return
	do   func(e *Eng, s *mses)
}

// endless is a request body of which the rest never comes.
type endless struct{ b []byte }

func (r *endless) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		rt.Await("the rest of the body", func() bool { return false })
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}
func (r *endless) Close() error { return nil }

var _ io.ReadCloser = (*endless)(nil)

func fill(e *Eng, s *mses) {
	rt.HGo("emitter without a reader", func() {
		for i := 0; i < 40; i++ {
			emit(s.so, msg("fill"))
		}
	})
}

var stallVars = []stallVar{
	{name: "open callback", cb: "open"},
	{name: "open callback, websocket", cb: "open", ws: true},
	{name: "message callback", cb: "message", do: func(e *Eng, s *mses) { s.u.Post(msg("x")) }},
	{name: "message callback, websocket", cb: "message", ws: true, do: func(e *Eng, s *mses) { s.w.Send(msg("x")) }},
	{name: "message callback, more than the buffer", cb: "message", do: func(e *Eng, s *mses) {
		rt.HGo("poster", func() { s.u.Post(tags("x", 20)...) })
	}},
	{name: "ping callback", cb: "ping", ws: true, do: func(e *Eng, s *mses) { s.w.Send(Pkt{Type: 2}) }},
	{name: "upgrade callback", cb: "upgrade", do: func(e *Eng, s *mses) { s.u.upgrade() }},
	{name: "close callback", cb: "close", ws: true, do: func(e *Eng, s *mses) { s.w.Send(Pkt{Type: 1}) }},
	{name: "close callback, polling", cb: "close", do: func(e *Eng, s *mses) { s.u.Post(Pkt{Type: 1}) }},
	{name: "close callback, connection lost", cb: "close", ws: true, do: func(e *Eng, s *mses) { s.w.Close() }},
	{name: "client that does not poll", do: fill},
	{name: "client that does not read", ws: true, do: func(e *Eng, s *mses) {
		s.w.S.LimitOut(6)
		fill(e, s)
	}},
	{name: "Close with nobody polling", do: func(e *Eng, s *mses) {
		fill(e, s)
		rt.HGo("closer", func() { s.so.Close() })
	}},
	{name: "Close with nobody reading", ws: true, do: func(e *Eng, s *mses) {
		s.w.S.LimitOut(6)
		fill(e, s)
		rt.HGo("closer", func() { s.so.Close() })
	}},
	{name: "silent upgrade", do: func(e *Eng, s *mses) {
		if w := WSOpen(e, qWS+"&sid="+s.u.Sid, nil); !w.Handshake() {
			rt.Fail("[upgrade] the websocket request is refused: %d", w.Status)
		}
	}},
	{name: "upgrade silent after the probe", do: func(e *Eng, s *mses) {
		w := WSOpen(e, qWS+"&sid="+s.u.Sid, nil)
		if !w.Handshake() {
			rt.Fail("[upgrade] the websocket request is refused: %d", w.Status)
		}
		w.Send(Pkt{Type: 2, Data: "probe"})
	}},
	{name: "websocket request whose response nobody reads", do: func(e *Eng, s *mses) {
		_, sc := rt.Pipe("ws")
		sc.LimitOut(1)
		rt.HGo("http upgrade", func() { Do(e, Req{Method: "GET", Query: qWS, Hdr: wsHdr, Conn: sc}) })
	}},
	{name: "body that does not end", do: func(e *Eng, s *mses) {
		rt.HGo("http POST", func() {
			r := Req{Method: "POST", Query: qPoll + "&sid=" + s.u.Sid, CT: ctText, Body: []byte("2:4x9:4")}.build()
			r.Body = &endless{[]byte("2:4x9:4")}
			e.ServeHTTP(NewResp(), r)
		})
	}},
}

func runStall(v int) {
	c := stallVars[v]
	e := NewEng(bigI, bigT)
	stuck, released := "", false
	hold := func(kind string) func(so *engine.Socket) {
		return func(so *engine.Socket) {
			if c.cb == kind && stuck == "" {
				stuck = so.Sid()
				rt.Note("stuck")
				rt.Await("release", func() bool { return released })
			}
		}
	}
	e.OnOpen, e.OnUpgr, e.OnPing, e.OnClose = hold("open"), hold("upgrade"), hold("ping"), hold("close")
	m := hold("message")
	e.OnMsg = func(so *engine.Socket, _ bool, _ string) { m(so) }
	a := &mses{name: "stalled"}
	if c.ws {
		w, sid := e.WSSession()
		a.u = &upCli{Sess: &Sess{E: e, Sid: sid}, w: w}
		a.w, a.up = w, true
	} else {
		a.u = newUpCli(e, "")
	}
	a.so = e.Sock(a.u.Sid)
	if c.do != nil {
		c.do(e, a)
	}
	rt.Await("stall", func() bool { return c.cb == "" || stuck != "" })
	var ss []*mses
	done := 0
	for i, ws := range []bool{false, true} {
		i, ws := i, ws
		rt.HGo(fmt.Sprintf("client %d", i), func() {
			s := openMS(e, fmt.Sprintf("s%d", i), ws)
			ss = append(ss, s)
			s.send()
			s.emit()
			s.upgrade()
			s.send()
			s.emit()
			rt.Await("traffic", func() bool { return len(e.Got(s.u.Sid)) == len(s.in) && len(s.u.arrived()) == len(s.out) })
			done++
			rt.Note("client done")
		})
	}
	rt.Quiesce()
	if done != 2 {
		rt.Fail("[stall] with one session stuck (%s), %d of 2 clients of others get through an open, two messages each way and an upgrade", c.name, done)
	}
	ss[0].clientClose()
	ss[1].so.Close()
	ss[1].over = true
	rt.Quiesce()
	all := e.Evs
	e.Evs = nil
	for _, ev := range all {
		if ev.Sid != a.u.Sid {
			e.Evs = append(e.Evs, ev)
		}
	}
	judge(e, ss, c.name)
	released = true
	rt.Note("released")
	rt.Outcome("%d", len(all)-len(e.Evs))
}

var sioStalls = []string{"connect", "connect /n", "event", "disconnect /n", "disconnect", "error", "ack"}

func runSioStall(v int) {
	mp := v&1 != 0
	what := sioStalls[v/2]
	s := NewSio(bigI, bigT, mp)
	stuck, released := "", false
	hold := func(kind string, so socketio.Socket) {
		if kind == what && stuck == "" {
			stuck = so.Sid()
			rt.Note("stuck")
			rt.Await("release", func() bool { return released })
		}
	}
	var log []string
	add := func(so socketio.Socket, f string, a ...interface{}) {
		if so.Sid() != stuck {
			log = append(log, so.Sid()+" "+fmt.Sprintf(f, a...))
			rt.Note("cb")
		}
	}
	for _, n := range []string{"/", "/n"} {
		n := n
		sfx := ""
		if n != "/" {
			sfx = " " + n
		}
		s.Namespace(n).OnConnect(func(so socketio.Socket) {
			hold("connect"+sfx, so)
			add(so, "connect %s", n)
		}).OnDisconnect(func(so socketio.Socket) {
			hold("disconnect"+sfx, so)
			add(so, "disconnect %s", n)
		}).OnError(func(so socketio.Socket, err ...interface{}) {
			hold("error", so)
			add(so, "error %s", n)
		}).OnEvent("q", func(so socketio.Socket, x string) string {
			hold("event", so)
			add(so, "q %s %s", n, x)
			so.Emit("r", func(y string) {
				hold("ack", so)
				add(so, "ack %s %s", n, y)
			})
			return x
		}).OnEvent("num", func(so socketio.Socket, x int) { add(so, "num") })
	}
	play := func(p *SPeer, end bool) {
		p.Pkt(0, "/n", "", "")
		p.Pkt(2, "/n", "5", "q", `"a"`)
		p.Pkt(2, "/", "6", "q", `"b"`)
		for i := 0; i < 2; i++ {
			rt.Await("requests", func() bool {
				n := 0
				for _, g := range p.Got {
					if g.Ev == "r" {
						n++
					}
				}
				return n > i
			})
			n := 0
			for _, g := range p.Got {
				if g.Ev == "r" {
					if n == i {
						p.Pkt(3, g.Nsp, g.ID, "", `"y"`)
					}
					n++
				}
			}
		}
		p.Pkt(2, "/", "", "num", `"no number"`)
		p.Pkt(1, "/n", "", "")
		if end {
			p.W.Close()
		}
	}
	rt.HGo("stuck client", func() { play(s.Peer(), true) })
	rt.Await("stall", func() bool { return stuck != "" })
	done := 0
	var ps []*SPeer
	for i := 0; i < 2; i++ {
		i := i
		rt.HGo(fmt.Sprintf("client %d", i), func() {
			p := s.Peer()
			ps = append(ps, p)
			play(p, i == 1)
			done++
			rt.Note("client done")
		})
	}
	rt.Quiesce()
	if done != 2 {
		rt.Fail("[stall] with one connection stuck in its %s callback, %d of 2 other clients get through", what, done)
	}
	for i, p := range ps {
		want := []string{"connect /", "connect /n", "q /n a", "q / b", "ack /n y", "ack / y", "error /", "disconnect /n", "disconnect /"}
		var got []string
		for _, l := range log {
			if strings.HasPrefix(l, p.Sid+" ") {
				got = append(got, l[len(p.Sid)+1:])
			}
		}
		// the client that ends is either of the two
		if n := len(got); n > 0 && got[n-1] != "disconnect /" {
			want = want[:len(want)-1]
		}
		// acknowledgements may come before the second event
		if len(got) != len(want) || !sameStrings(got, want) {
			rt.Fail("[stall] with one connection stuck in its %s callback, the callbacks of client %d are %q, should be %q", what, i, got, want)
		}
	}
	released = true
	rt.Note("released")
	rt.Outcome("%d", len(log))
}

func sameStrings(a, b []string) bool {
	m := map[string]int{}
	for _, s := range a {
		m[s]++
	}
	for _, s := range b {
		m[s]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

func init() {
	reg(&rt.Scenario{Name: "stalled-session", Props: []string{"C14"}, Split: true, Quick: 1, Thorough: 2, Cfg: rt.Config{QuietLib: true}, N: len(stallVars),
		Describe: func(v int) string { return stallVars[v].name }, Run: runStall})
	reg(&rt.Scenario{Name: "stalled-connection", Props: []string{"C14"}, Split: true, Quick: 1, Thorough: 2, Cfg: rt.Config{QuietLib: true}, N: 2 * len(sioStalls),
		Describe: func(v int) string { return fmt.Sprintf("msgpack %v, %s", v&1 != 0, sioStalls[v/2]) }, Run: runSioStall})
}

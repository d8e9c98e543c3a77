package harness

import (
	"fmt"
	"strings"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C28: pairs and triples of operations at once, with a happens-before check on every access

// raceEnv is one engine session under concurrent use.
type raceEnv struct {
	e    *Eng
	u    *upCli
	so   *engine.Socket
	kind int // 0 polling, 1 websocket, 2 polling upgraded to websocket, 3 polling with a full queue
}

type raceOp struct {
	name  string
	kinds string // of the session
	run   func(r *raceEnv)
}

var raceOps = []raceOp{
	{"Emit", "0123", func(r *raceEnv) { emit(r.so, msg("a")); emit(r.so, bmsg("b")) }},
	{"GetHeader", "0123", func(r *raceEnv) { r.so.GetHeader("X-A") }},
	{"SetHeader", "0123", func(r *raceEnv) { r.so.SetHeader("X-A", "1") }},
	{"LocalAddr", "0123", func(r *raceEnv) { r.so.LocalAddr() }},
	{"RemoteAddr", "0123", func(r *raceEnv) { r.so.Sid(); r.so.RemoteAddr() }},
	{"Close", "0123", func(r *raceEnv) { r.so.Close() }},
	{"poll", "03", func(r *raceEnv) { r.get() }},
	{"post", "03", func(r *raceEnv) {
		r.u.Post(msg("x"), Pkt{Type: 2, Data: "p"}, bmsg("y"))
	}},
	{"post a close packet", "0", func(r *raceEnv) { r.u.Post(msg("x"), Pkt{Type: 1}) }},
	{"upgrade", "03", func(r *raceEnv) { r.upgrade(true) }},
	{"upgrade attempt", "0", func(r *raceEnv) { r.upgrade(false) }},
	{"send", "12", func(r *raceEnv) { r.u.w.Send(msg("x")); r.u.w.Send(Pkt{Type: 2, Data: "p"}); r.u.w.Send(bmsg("y")) }},
	{"drop the connection", "12", func(r *raceEnv) { r.u.w.Close() }},
	{"late poll", "12", func(r *raceEnv) { Do(r.e, Req{Method: "GET", Query: qPoll + "&sid=" + r.u.Sid}) }},
	{"late upgrade", "12", func(r *raceEnv) {
		w := WSOpen(r.e, qWS+"&sid="+r.u.Sid, nil)
		w.Handshake()
		w.Close()
	}},
	{"Server.Close", "01", func(r *raceEnv) { r.e.Server.Close() }},
	{"open a session", "01", func(r *raceEnv) { Do(r.e, Req{Method: "GET", Query: qPoll}) }},
	{"open a websocket session", "01", func(r *raceEnv) {
		w := WSOpen(r.e, qWS, nil)
		if w.Handshake() {
			w.Send(msg("z"))
		}
	}},
	{"use another session", "01", func(r *raceEnv) {
		if x := Do(r.e, Req{Method: "GET", Query: qPoll}); x.Code == 200 {
			ps, err := decodeAny("", x)
			if err == nil && len(ps) > 0 {
				i := strings.Index(ps[0].Data, `"sid":"`)
				if i >= 0 {
					sid := ps[0].Data[i+7:]
					sid = sid[:strings.IndexByte(sid, '"')]
					Do(r.e, Req{Method: "POST", Query: qPoll + "&sid=" + sid, CT: ctBin, Body: []byte(encBin(msg("q"), Pkt{Type: 1}))})
				}
			}
		}
	}},
}

func (r *raceEnv) get() { Do(r.e, Req{Method: "GET", Query: qPoll + "&sid=" + r.u.Sid}) }

func (r *raceEnv) upgrade(full bool) {
	w := WSOpen(r.e, qWS+"&sid="+r.u.Sid, map[string][]string{"X-A": {"2"}})
	if !w.Handshake() {
		return
	}
	w.Send(Pkt{Type: 2, Data: "probe"})
	if _, err := w.Recv(); err != nil {
		return
	}
	if !full {
		w.Close()
		return
	}
	w.Send(Pkt{Type: 5})
	w.Send(msg("up"))
	for {
		if _, err := w.Recv(); err != nil {
			return
		}
	}
}

func newRaceEnv(kind int, quiet bool) *raceEnv {
	r := &raceEnv{kind: kind}
	rt.Atomically(func() {
		r.e = NewEng(bigI, bigT)
		if !quiet { // what callbacks do may order what would be unordered
			r.e.OnMsg = func(so *engine.Socket, _ bool, _ string) { // callbacks use their socket, too
				emit(so, msg("cb"))
				so.SetHeader("X-B", so.GetHeader("X-A"))
				so.RemoteAddr()
			}
			r.e.OnOpen = func(so *engine.Socket) { so.SetHeader("X-A", "0"); so.LocalAddr() }
			r.e.OnUpgr = func(so *engine.Socket) { so.SetHeader("X-C", "0"); so.RemoteAddr() }
			r.e.OnClose = func(so *engine.Socket) { so.GetHeader("X-A"); so.RemoteAddr() }
		}
		switch kind {
		case 0, 2, 3:
			r.u = newUpCli(r.e, "")
			r.so = r.u.Sock()
			if kind == 2 {
				r.u.upgrade()
				rt.HGo("ws loop", r.u.wsLoop)
			}
			if kind == 3 {
				for i := 0; i < 12; i++ {
					emit(r.so, msg("fill"))
				}
			}
		case 1:
			w, sid := r.e.WSSession()
			r.u = &upCli{Sess: &Sess{E: r.e, Sid: sid}, w: w}
			r.so = r.e.Sock(sid)
			rt.HGo("ws loop", r.u.wsLoop)
		}
		rt.Quiesce()
		rt.Sync()
	})
	return r
}

type raceCase struct {
	kind  int
	ops   []int
	quiet bool // callbacks do nothing
	late  int  // 1+index of the operation that waits until the others are done or stuck (unordered with them nevertheless)
}

func raceCases(n int) (out []raceCase) {
	for k := 0; k < 4; k++ {
		var av []int
		for i, o := range raceOps {
			if strings.Contains(o.kinds, fmt.Sprint(k)) {
				av = append(av, i)
			}
		}
		out = append(out, multisets(k, av, n)...)
	}
	return
}

func multisets(kind int, av []int, n int) (out []raceCase) {
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		if len(cur) == n {
			out = append(out, raceCase{kind: kind, ops: append([]int(nil), cur...)})
			return
		}
		for i := from; i < len(av); i++ {
			rec(i, append(cur, av[i]))
		}
	}
	rec(0, nil)
	return
}

var raceKinds = []string{"polling session", "websocket session", "upgraded session", "polling session with a full queue"}

// lates makes one case per late operation.
func lates(cs []raceCase) (out []raceCase) {
	for _, c := range cs {
		for i := range c.ops {
			if i > 0 && c.ops[i] == c.ops[i-1] {
				continue
			}
			c.late = i + 1
			out = append(out, c)
		}
	}
	return
}

func (c raceCase) names(ops func(i int) string) string {
	var l []string
	for i, o := range c.ops {
		n := ops(o)
		if c.late == i+1 {
			n = "later " + n
		}
		l = append(l, n)
	}
	if c.quiet {
		l = append(l, "callbacks do nothing")
	}
	return strings.Join(l, " || ")
}

// quiets makes the cases with callbacks that do nothing.
func quiets(cs []raceCase) (out []raceCase) {
	for _, c := range cs {
		c.quiet = true
		out = append(out, c)
	}
	return
}

func (c raceCase) String() string {
	return raceKinds[c.kind] + ": " + c.names(func(i int) string { return raceOps[i].name })
}

func runRace(c raceCase) {
	r := newRaceEnv(c.kind, c.quiet)
	done := 0
	for i, o := range c.ops {
		i, o := i, o
		rt.HGo(raceOps[o].name, func() {
			if c.late == i+1 {
				sleep(time.Millisecond)
			}
			raceOps[o].run(r)
			done++
			rt.Note("op done")
		})
	}
	if c.late > 0 {
		sleep(2 * time.Millisecond)
	}
	rt.Quiesce()
	if c.kind == 0 || c.kind == 3 { // release what is waiting for a poll
		for i := 0; i < 20 && done < len(c.ops); i++ {
			r.get()
			rt.Quiesce()
		}
	}
	rt.Outcome("%d", done)
}

// ---- the socket.io layer

type sraceEnv struct {
	kind  int // side kind, see sideName
	l     *live
	third func()
}

type sraceOp struct {
	name string
	side string // "s" server, "c" client, "b" both
	run  func(r *sraceEnv)
}

var sraceOps = []sraceOp{
	{"Emit", "b", func(r *sraceEnv) { r.l.socks["/"].Emit("e", "x", bytesArg(r.l.s.MP, "bin")) }},
	{"Emit in /n", "b", func(r *sraceEnv) { r.l.socks["/n"].Emit("e", map[string]interface{}{"k": "v"}) }},
	{"Emit with a callback", "b", func(r *sraceEnv) {
		r.l.socks["/"].Emit("req", func(so socketio.Socket, s string) { so.Emit("more", s) })
	}},
	{"EmitError", "b", func(r *sraceEnv) { r.l.socks["/n"].EmitError("err") }},
	{"SetHeader", "b", func(r *sraceEnv) { so := r.l.socks["/n"]; so.Sid(); so.Namespace(); so.SetHeader("X-A", "1") }},
	{"GetHeader", "b", func(r *sraceEnv) { r.l.socks["/"].GetHeader("X-A") }},
	{"RemoteAddr", "b", func(r *sraceEnv) { r.l.socks["/"].RemoteAddr() }},
	{"Close", "b", func(r *sraceEnv) { r.l.socks["/n"].Close() }},
	{"peer requests", "b", func(r *sraceEnv) {
		r.l.p.Pkt(2, "/", "7", "q", `"a"`, "bin:zz")
		r.l.p.Pkt(2, "/n", "8", "q", `"b"`, "bin:yy")
	}},
	{"peer acknowledges", "b", func(r *sraceEnv) {
		r.l.p.Pkt(3, "/", "1", "", `"a"`)
		r.l.p.Pkt(3, "/n", "2", "", `"a"`)
		r.l.p.Pkt(3, "/", "3", "", `"a"`)
	}},
	{"peer acknowledges once", "b", func(r *sraceEnv) { r.l.p.Pkt(3, "/", "1", "", "true") }},
	{"peer leaves and joins /n", "b", func(r *sraceEnv) {
		r.l.p.Pkt(1, "/n", "", "")
		r.l.p.Pkt(0, "/n", "", "")
		r.l.p.Pkt(2, "/n", "9", "q", `"c"`, "bin:xx")
	}},
	{"peer errors", "b", func(r *sraceEnv) {
		r.l.p.Pkt(2, "/none", "9", "q", `"c"`)
		r.l.p.Frames(dframe{s: "9bad"})
		r.l.p.Pkt(4, "/", "", "", `"oops"`)
	}},
	{"peer drops", "b", func(r *sraceEnv) { r.l.p.W.Close() }},
	{"another peer", "s", func(r *sraceEnv) {
		if len(r.l.s.Peers) > 1 {
			p := r.l.s.Peers[1]
			p.Pkt(0, "/n", "", "")
			p.Pkt(2, "/n", "3", "q", `"d"`, "bin:ww")
			p.W.Close()
		}
	}},
	{"new peer", "s", func(r *sraceEnv) { r.third() }},
}

func runSRace(c raceCase) {
	r := &sraceEnv{kind: c.kind}
	r.l = newLive(c.kind, func(l *live, ns func(string) socketio.Namespace) {
		for _, n := range []string{"/", "/n"} {
			ns(n).OnEvent("q", func(so socketio.Socket, s string, b *socketio.Bytes) (string, *socketio.Bytes) {
				if !c.quiet {
					so.Emit("got", s)
					so.SetHeader("X-B", s)
				}
				return s, b
			}).OnDisconnect(func(so socketio.Socket) {
				if !c.quiet {
					so.Emit("bye")
					so.RemoteAddr()
				}
			}).OnError(func(so socketio.Socket, e ...interface{}) { so.Sid() })
		}
	})
	rt.Atomically(func() { // two requests to acknowledge
		for _, n := range []string{"/", "/n"} {
			r.l.socks[n].Emit("req", func(so socketio.Socket, s string) { so.Emit("more", s) })
		}
		r.l.p.Take()
	})
	r.third = func() {
		w := WSOpen(r.l.s.H, qWS, nil)
		if !w.Handshake() {
			return
		}
		w.Recv()
		p := &SPeer{W: w, MP: r.l.s.MP}
		p.Pkt(2, "/", "5", "q", `"n"`, "bin:nn")
		p.Pkt(0, "/n", "", "")
		w.Close()
	}
	rt.Sync()
	done := 0
	for i, o := range c.ops {
		i, o := i, o
		rt.HGo(sraceOps[o].name, func() {
			if c.late == i+1 {
				sleep(time.Millisecond)
			}
			sraceOps[o].run(r)
			done++
			rt.Note("op done")
		})
	}
	if c.late > 0 {
		sleep(2 * time.Millisecond)
	}
	rt.Quiesce()
	rt.Outcome("%d", done)
}

func sraceCases(n int, kinds ...int) (out []raceCase) {
	for _, k := range kinds {
		var av []int
		for i, o := range sraceOps {
			if o.side == "b" || (o.side == "s") == (k&1 == 0) {
				av = append(av, i)
			}
		}
		out = append(out, multisets(k, av, n)...)
	}
	return
}

func (c raceCase) sString() string {
	return sideName(c.kind) + ": " + c.names(func(i int) string { return sraceOps[i].name })
}

func init() {
	race := func(name string, q, th int, cs []raceCase) {
		reg(&rt.Scenario{Name: name, Props: []string{"C28"}, Quick: q, Thorough: th, N: len(cs), Cfg: rt.Config{QuietLib: true, Race: true},
			Run: func(v int) { runRace(cs[v]) }, Describe: func(v int) string { return cs[v].String() }})
	}
	race("race-engine", 1, 2, raceCases(2))
	race("race-engine-late", 0, 1, lates(raceCases(2)))
	race("race-engine-quiet", 0, 1, append(quiets(raceCases(2)), quiets(lates(raceCases(2)))...))
	race("race-engine-triples", -1, 1, raceCases(3))
	srace := func(name string, q, th int, cs []raceCase) {
		reg(&rt.Scenario{Name: name, Props: []string{"C28"}, Quick: q, Thorough: th, N: len(cs), Cfg: rt.Config{QuietLib: true, Race: true},
			Run: func(v int) { runSRace(cs[v]) }, Describe: func(v int) string { return cs[v].sString() }})
	}
	srace("race-sio", 1, 2, sraceCases(2, 0, 1, 2, 3))
	srace("race-sio-late", 0, 1, lates(sraceCases(2, 0, 1, 2, 3)))
	srace("race-sio-quiet", 0, 1, append(quiets(sraceCases(2, 0, 1, 2, 3)), quiets(lates(sraceCases(2, 0, 1, 2, 3)))...))
	srace("race-sio-triples", -1, 1, sraceCases(3, 0, 1))
}

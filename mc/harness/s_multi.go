package harness

import (
	"fmt"
	"strings"
	"time"

	"github.com/zyxar/socketio/engine"

	"github.com/zyxar/socketio"

	"vmc/rt"
)

// ---- C14: several sessions on one server; C15: a closed server

// mses is one of several sessions and what is true of it.
type mses struct {
	name string
	u    *upCli // polling, possibly upgraded
	w    *WS    // websocket from the start (u.Sess holds the id then)
	so   *engine.Socket
	out  []Pkt // emitted to it
	in   []Pkt // sent on it
	up   bool
	over bool
	n    int
}

func openMS(e *Eng, name string, ws bool) *mses {
	s := &mses{name: name}
	if ws {
		w, sid := e.WSSession()
		s.u = &upCli{Sess: &Sess{E: e, Sid: sid}, w: w}
		s.w, s.up = w, true
		rt.HGo("ws loop "+name, s.u.wsLoop)
	} else {
		s.u = newUpCli(e, "")
		rt.HGo("poll loop "+name, s.u.pollLoop)
	}
	s.so = e.Sock(s.u.Sid)
	return s
}

func (s *mses) emit() {
	s.n++
	p := Pkt{s.n&1 == 0, 4, fmt.Sprintf("to %s %d", s.name, s.n)}
	if err := emit(s.so, p); err == nil {
		if s.over {
			rt.Fail("[multi-emit] Emit to the ended session %s succeeds", s.name)
		}
		s.out = append(s.out, p)
	} else if !s.over {
		rt.Fail("[multi-emit] Emit to %s: %v", s.name, err)
	}
}

func (s *mses) send() {
	s.n++
	p := Pkt{s.n&1 == 0, 4, fmt.Sprintf("from %s %d", s.name, s.n)}
	if s.up {
		s.u.w.Send(p)
	} else if r := s.u.Post(p); (r.Code == 200) == s.over {
		rt.Fail("[multi-post] POST to %s (ended: %v) answered %v", s.name, s.over, r)
	}
	if !s.over {
		s.in = append(s.in, p)
	}
}

func (s *mses) clientClose() {
	if s.up {
		s.u.w.Send(Pkt{Type: 1})
	} else {
		s.u.Post(Pkt{Type: 1})
	}
	s.over = true
}

func (s *mses) upgrade() {
	if s.up || s.over {
		return
	}
	s.u.upgrade()
	s.up = true
	rt.HGo("ws loop "+s.name, s.u.wsLoop)
}

// judge compares every session with what is true of it.
func judge(e *Eng, ss []*mses, hist string) {
	ids := map[string]string{}
	for _, s := range ss {
		if o, ok := ids[s.u.Sid]; ok {
			rt.Fail("[multi-id] %s: sessions %s and %s have the same id", hist, o, s.name)
		}
		ids[s.u.Sid] = s.name
		if s.so.Sid() != s.u.Sid {
			rt.Fail("[multi-id] %s: the socket of session %s names itself %s", hist, s.u.Sid, s.so.Sid())
		}
		if got := s.u.arrived(); !pktsEqual(got, s.out) {
			rt.Fail("[multi-out] %s: emitted to %s: %s, arrived %s", hist, s.name, show(s.out), show(got))
		}
		if got := e.Got(s.u.Sid); !pktsEqual(got, s.in) {
			rt.Fail("[multi-in] %s: sent on %s: %s, delivered %s", hist, s.name, show(s.in), show(got))
		}
		n := 0
		if s.over {
			n = 1
		}
		if c := e.Count("close", s.u.Sid); c != n {
			rt.Fail("[multi-close] %s: %d close events of session %s (ended: %v)", hist, c, s.name, s.over)
		}
		if e.Count("open", s.u.Sid) != 1 {
			rt.Fail("[multi-open] %s: %d open callbacks for %s", hist, e.Count("open", s.u.Sid), s.name)
		}
	}
	for _, v := range e.Evs {
		if ids[v.Sid] == "" {
			rt.Fail("[multi-cb] %s: callback %v names no session", hist, v)
		}
	}
}

type mop struct {
	name string
	run  func(e *Eng, ss *[]*mses)
}

var mops = func() (out []mop) {
	for i := 0; i < 2; i++ {
		i := i
		add := func(name string, f func(s *mses)) {
			out = append(out, mop{fmt.Sprintf("%s %d", name, i), func(e *Eng, ss *[]*mses) { f((*ss)[i]) }})
		}
		add("emit", (*mses).emit)
		add("send", (*mses).send)
		add("upgrade", (*mses).upgrade)
		add("close packet", (*mses).clientClose)
		add("Close", func(s *mses) { s.so.Close(); s.over = true })
	}
	out = append(out, mop{"open", func(e *Eng, ss *[]*mses) {
		*ss = append(*ss, openMS(e, fmt.Sprintf("s%d", len(*ss)), len(*ss)%2 == 0))
	}}, mop{"newest", func(e *Eng, ss *[]*mses) {
		s := (*ss)[len(*ss)-1]
		s.emit()
		s.send()
	}})
	return
}()

func runMulti(kind int, seq []int) {
	e := NewEng(bigI, bigT)
	ss := []*mses{openMS(e, "s0", kind&1 != 0), openMS(e, "s1", kind&2 != 0)}
	rt.Quiesce()
	hist := ""
	for _, k := range seq {
		hist += mops[k].name + ", "
		mops[k].run(e, &ss)
		rt.Quiesce()
		judge(e, ss, hist)
	}
}

// schedules: what each client does
var multiPlans = []struct {
	name  string
	kinds []bool // websocket from the start
	ops   []string
}{
	{"two polling sessions exchange", []bool{false, false}, []string{"se", "se"}},
	{"polling and websocket exchange", []bool{false, true}, []string{"ses", "ese"}},
	{"one closes", []bool{false, true}, []string{"sx", "ese"}},
	{"one is closed", []bool{false, false}, []string{"sX", "es"}},
	{"one upgrades", []bool{false, false}, []string{"esuse", "se"}},
	{"both upgrade", []bool{false, false}, []string{"eus", "use"}},
	{"one upgrades, one closes", []bool{false, false}, []string{"sue", "sx"}},
	{"three sessions", []bool{false, true, false}, []string{"se", "es", "x"}},
}

func init() {
	n := len(mops)
	reg(&rt.Scenario{Name: "multi-sequences", Props: []string{"C14"}, Cfg: rt.Config{QuietLib: true, MaxSteps: 50000000}, N: 4 * n * n,
		Describe: func(v int) string {
			return fmt.Sprintf("kinds %d, %s, %s, then two more", v%4, mops[v/4%n].name, mops[v/4/n].name)
		},
		Run: func(v int) {
			c := 0
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					runMulti(v%4, []int{v / 4 % n, v / 4 / n, a, b})
					c++
				}
			}
			rt.Count("operation sequences", c)
		}})
	reg(&rt.Scenario{Name: "multi-sequences-deep", Props: []string{"C14"}, Quick: -1, Cfg: rt.Config{QuietLib: true, MaxSteps: 500000000}, N: 4 * n * n * n,
		Describe: func(v int) string {
			return fmt.Sprintf("kinds %d, %s, %s, %s, then two more", v%4, mops[v/4%n].name, mops[v/4/n%n].name, mops[v/4/n/n].name)
		},
		Run: func(v int) {
			c := 0
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					runMulti(v%4, []int{v / 4 % n, v / 4 / n % n, v / 4 / n / n, a, b})
					c++
				}
			}
			rt.Count("operation sequences", c)
		}})
	reg(&rt.Scenario{Name: "multi-schedules", Props: []string{"C14"}, Split: true, Quick: 1, Thorough: 2, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: len(multiPlans),
		Describe: func(v int) string { return multiPlans[v].name },
		Run: func(v int) {
			c := multiPlans[v]
			e := NewEng(bigI, bigT)
			ss := make([]*mses, len(c.kinds))
			done := 0
			for i := range c.kinds {
				i := i
				rt.HGo(fmt.Sprintf("client %d", i), func() {
					s := openMS(e, fmt.Sprintf("s%d", i), c.kinds[i])
					ss[i] = s
					for _, o := range c.ops[i] {
						switch o {
						case 's':
							s.send()
						case 'e':
							s.emit()
						case 'u':
							s.upgrade()
						case 'x', 'X':
							// what was sent before is through
							rt.Await("traffic", func() bool { return len(e.Got(s.u.Sid)) == len(s.in) && len(s.u.arrived()) == len(s.out) })
							if o == 'x' {
								s.clientClose()
							} else {
								s.so.Close()
								s.over = true
							}
						}
					}
					done++
					rt.Note("client done")
				})
			}
			rt.Quiesce()
			if done != len(c.kinds) {
				rt.Fail("[multi-stuck] %d of %d clients finish", done, len(c.kinds))
			}
			judge(e, ss, c.name)
			var o []string
			for _, s := range ss {
				o = append(o, show(s.u.arrived()))
			}
			rt.Outcome("%s", strings.Join(o, " "))
		}})

	// socket.io: events and emits of two connections
	reg(&rt.Scenario{Name: "multi-sio", Props: []string{"C14"}, Split: true, Quick: 1, Thorough: 3, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: 6,
		Describe: func(v int) string { return fmt.Sprintf("msgpack %v, plan %d", v&1 != 0, v/2) },
		Run: func(v int) {
			s := NewSio(bigI, bigT, v&1 != 0)
			socks := map[string]socketio.Socket{}
			var log []string
			for _, n := range []string{"/", "/n"} {
				n := n
				s.Namespace(n).OnConnect(func(so socketio.Socket) {
					socks[so.Sid()+n] = so
					log = append(log, "connect "+so.Sid()+n)
					rt.Note("connect")
				}).OnDisconnect(func(so socketio.Socket) {
					log = append(log, "disconnect "+so.Sid()+n)
					rt.Note("disconnect")
				}).OnEvent("q", func(so socketio.Socket, x string) string {
					log = append(log, "q "+so.Sid()+n+" "+x)
					rt.Note("q")
					so.Emit("echo", so.Sid(), x)
					return so.Sid() + x
				})
			}
			done := 0
			var ps [2]*SPeer
			want := map[string]bool{}
			for i := 0; i < 2; i++ {
				i := i
				rt.HGo(fmt.Sprintf("client %d", i), func() {
					p := s.Peer()
					ps[i] = p
					nsp := "/"
					if v/2 == 1 || v/2 == 2 && i == 1 {
						nsp = "/n"
						p.Pkt(0, "/n", "", "")
					}
					p.Pkt(2, nsp, fmt.Sprint(i+4), "q", canon(fmt.Sprint("x", i)))
					x := canon(fmt.Sprint("x", i))
					for _, w := range []string{"0/", fmt.Sprintf("2%s echo(%s %s)", nsp, canon(p.Sid), x), fmt.Sprintf("3%s#%d (%s)", nsp, i+4, canon(p.Sid+fmt.Sprint("x", i)))} {
						want[p.Sid+" "+w] = true
					}
					if nsp != "/" {
						want[p.Sid+" 0/n"] = true
					}
					if v/2 == 2 && i == 0 {
						rt.Await("answer", func() bool { return len(p.Got) >= 3 })
						p.W.Close()
					}
					done++
					rt.Note("client done")
				})
			}
			rt.Quiesce()
			if done != 2 {
				rt.Fail("[multi-stuck] a client does not finish")
			}
			n := 0
			for _, p := range ps {
				for _, g := range p.Got {
					n++
					if !want[p.Sid+" "+g.String()] {
						rt.Fail("[multi-sio] connection %s was sent %s", p.Sid, g)
					}
				}
			}
			if n != len(want) {
				rt.Fail("[multi-sio] %d of %d packets arrived: %s / %s", n, len(want), gots(ps[0].Got), gots(ps[1].Got))
			}
			for _, l := range log {
				if strings.HasPrefix(l, "disconnect ") && (v/2 != 2 || !strings.Contains(l, ps[0].Sid)) {
					rt.Fail("[multi-sio] %s although that connection is open", l)
				}
			}
			if ps[0].Sid == ps[1].Sid {
				rt.Fail("[multi-id] two connections have the same id")
			}
			rt.Outcome("%v", log)
		}})

	// C15
	type closePlan struct {
		name  string
		reqs  int // concurrent handshakes: polling, websocket, ...
		pre   bool
		close int // concurrent Close calls
		inCB  bool
		sio   bool
	}
	var cps []closePlan
	for _, sio := range []bool{false, true} {
		for reqs := 0; reqs <= 3; reqs++ {
			for cl := 1; cl <= 2; cl++ {
				cps = append(cps, closePlan{fmt.Sprintf("%d handshakes, %d closers", reqs, cl), reqs, false, cl, false, sio})
			}
		}
		cps = append(cps, closePlan{"sessions open", 2, true, 1, false, sio}, closePlan{"closed in the open callback", 2, false, 1, true, sio})
	}
	reg(&rt.Scenario{Name: "server-close", Props: []string{"C15"}, Split: true, Quick: 2, Thorough: 3, Cfg: rt.Config{QuietLib: true}, N: len(cps),
		Describe: func(v int) string { return fmt.Sprintf("%+v", cps[v]) },
		Run: func(v int) {
			c := cps[v]
			closed, started := 0, false
			opens, lateOpen := 0, 0
			var h Handler
			var closeFn func() error
			var root interface{}
			live := map[string]bool{} // sessions the open callback ran for
			opened := func(sid string) {
				opens++
				live[sid] = true
				rt.Note("open")
				if c.inCB && opens == 1 {
					closeFn()
					closed++
					rt.Note("closed")
				}
			}
			const iv, to = 25 * time.Second, 60 * time.Second
			if c.sio {
				s := NewSio(iv, to, false)
				s.Namespace("/").OnConnect(func(so socketio.Socket) { opened(so.Sid()) })
				h, closeFn, root = s, s.Close, s.Server
			} else {
				e := NewEng(iv, to)
				e.OnOpen = func(so *engine.Socket) { opened(so.Sid()) }
				h, closeFn, root = e, e.Server.Close, e.Server
			}
			answered, open200 := 0, 0
			ask := func(k int) {
				if k&1 == 0 {
					r := Do(h, Req{Method: "GET", Query: qPoll})
					if r.Code == 200 {
						open200++
					}
				} else {
					w := WSOpen(h, qWS, nil)
					if w.Handshake() {
						for {
							p, err := w.Recv()
							if err != nil {
								w.Close()
								break
							}
							if p.Type == 0 {
								open200++
								break
							}
						}
					}
				}
				answered++
				rt.Note("answered")
			}
			asked := 0
			if c.pre {
				rt.Atomically(func() {
					ask(0)
					ask(1)
					asked = 2
					rt.Quiesce()
				})
			}
			for i := 0; i < c.reqs; i++ {
				i := i
				asked++
				rt.HGo(fmt.Sprintf("handshake %d", i), func() { ask(i) })
			}
			if !c.inCB {
				for i := 0; i < c.close; i++ {
					rt.HGo("closer", func() {
						started = true
						closeFn()
						closed++
						rt.Note("closed")
					})
				}
			}
			rt.Quiesce()
			_ = started
			if closed != c.close {
				rt.Fail("[srv-stuck] Close does not return")
			}
			if answered != asked {
				rt.Fail("[srv-hang] %d of %d handshakes are not answered", asked-answered, asked)
			}
			if open200 > len(live) {
				rt.Fail("[srv-open] %d handshakes succeeded, %d open callbacks ran", open200, len(live))
			}
			// from now on nothing opens
			lateOpen = opens
			for k := 0; k < 4; k++ {
				before := rt.Now()
				var r *Resp
				if k&1 == 0 {
					r = Start(h, Req{Method: "GET", Query: qPoll})
				} else {
					w := WSOpen(h, qWS, nil)
					r = w.Resp
				}
				rt.Quiesce()
				if !r.Done || rt.Now() != before {
					rt.Fail("[srv-hang] a handshake after Close is not answered")
				}
				if r.Hijacked || r.Code < 400 {
					rt.Fail("[srv-late] a handshake after Close is answered %v (hijacked %v)", r, r.Hijacked)
				}
				closeFn()
			}
			if opens != lateOpen {
				rt.Fail("[srv-late] an open callback ran for a handshake after Close")
			}
			// sessions that did open time out, and then nothing is left
			sleep(1000 * time.Second)
			rt.Quiesce()
			if l := rt.Live(); len(l) > 0 {
				rt.Fail("[srv-leak] left after Close: %v", l)
			}
			if n := weigh(root)["*engine.Socket"]; n > 0 {
				rt.Fail("[srv-leak] %d sessions are kept after Close", n)
			}
			rt.Outcome("%d opened", opens)
		}})
}

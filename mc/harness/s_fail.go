package harness

import (
	"fmt"
	"strings"

	"github.com/zyxar/socketio"

	"vmc/rt"
)

// ---- C32: errors are reported where they arise, once, and cost nothing else

// failRun drives sequences of failing and of ordinary operations over one connection.
type failRun struct {
	kind int
	mute bool // no error callbacks are registered
	s    *SSide
	p    *SPeer
	cli  *socketio.Client
	app  map[string]socketio.Socket
	log  []string
	hist []string
	tag  int
	id   int
	sc   *SioCli
}

func (r *failRun) cb(f string, a ...interface{}) {
	r.log = append(r.log, fmt.Sprintf(f, a...))
	rt.Note("cb")
}

func (r *failRun) fail(f string, a ...interface{}) {
	rt.Fail("[fail] %s, operations %s: %s", r.side(), strings.Join(r.hist, ", "), fmt.Sprintf(f, a...))
}

func (r *failRun) side() string {
	if r.mute {
		return sideName(r.kind) + ", no error callbacks"
	}
	return sideName(r.kind)
}

// unencodable values have no representation in either encoding.
type withChan struct{ C chan int }

func (r *failRun) setup(ns func(string) socketio.Namespace) {
	for _, n := range []string{"/", "/a"} {
		n := n
		on := ns(n)
		who := func(so socketio.Socket) string {
			if so == nil {
				return "nil socket"
			}
			return so.Sid() + so.Namespace()
		}
		on.OnConnect(func(so socketio.Socket) { r.app[so.Sid()+n] = so })
		if !r.mute {
			on.OnError(func(so socketio.Socket, err ...interface{}) {
				if len(err) == 1 {
					if _, is := err[0].(error); is {
						r.cb("error %s %s", n, who(so))
						return
					}
				}
				r.cb("error %s %s %s", n, who(so), errText(err))
			})
		}
		on.OnEvent("v", func(so socketio.Socket, s string) { r.cb("event %s v %s %s", n, s, who(so)) })
		on.OnEvent("r", func(i int) string { r.cb("event %s r %d", n, i); return fmt.Sprint(i, "!") })
		on.OnEvent("rc", func(i int) (string, interface{}) { r.cb("event %s rc %d", n, i); return "x", make(chan int) })
		on.OnEvent("rf", func(i int) (interface{}, string) { r.cb("event %s rf %d", n, i); return func() {}, "x" })
	}
}

// errText is what an error callback was given, as text; JSON and its decoded form are the same.
func errText(err []interface{}) string {
	var s []string
	for _, e := range err {
		switch x := e.(type) {
		case []byte:
			e = string(x)
		}
		s = append(s, strings.Trim(fmt.Sprint(e), `"`))
	}
	return strings.Join(s, " ")
}

func (r *failRun) fresh() {
	r.app = map[string]socketio.Socket{}
	if r.kind&1 == 0 {
		if r.s == nil {
			s, err := socketio.NewServer(bigI, bigT, parserOf(r.kind&2 != 0))
			if err != nil {
				rt.Fail("[new] %v", err)
			}
			x := &Sio{Server: s, MP: r.kind&2 != 0}
			if !r.mute {
				s.OnError(func(err error) { r.cb("error of the server") })
			}
			r.setup(s.Namespace)
			r.s = &SSide{H: s}
			other := x.Peer()
			other.Pkt(0, "/a", "", "")
			r.s.Peers = []*SPeer{other, nil}
			rt.Quiesce()
			other.Got = nil
		}
		x := &Sio{Server: r.s.H.(*socketio.Server), MP: r.kind&2 != 0}
		r.p = x.Peer()
		r.s.Peers[1] = r.p
	} else {
		c := DialSio("h", bigI, bigT, r.kind&2 != 0, func(c *socketio.Client) {
			r.cli = c
			c.OnError(func(err interface{}) { r.cb("error of the client") })
			if r.mute {
				c.OnError(nil)
			}
			r.setup(c.Namespace)
		})
		r.sc = c
		r.s = &SSide{Peers: []*SPeer{c.P}}
		r.p = c.P
		c.P.Pkt(0, "/", "", "")
	}
	r.p.Pkt(0, "/a", "", "")
	rt.Quiesce()
	r.p.Got, r.log, r.hist = nil, nil, nil
	r.id = 0
	if r.app[r.p.Sid+"/"] == nil || r.app[r.p.Sid+"/a"] == nil {
		r.fail("the connection's sockets in / and /a have not been reported")
	}
}

// look compares callbacks and packets with what is right. Callbacks beginning with "error" are
// left out when no error callbacks are registered; "error ?" is an error reported anywhere.
func (r *failRun) look(cbs []string, wire ...string) {
	got := gotList(r.p.Take())
	log := r.log
	r.log = nil
	if r.mute {
		var k []string
		for _, c := range cbs {
			if !strings.HasPrefix(c, "error") {
				k = append(k, c)
			}
		}
		cbs = k
	}
	ok := len(log) == len(cbs)
	for i := 0; ok && i < len(log); i++ {
		ok = log[i] == cbs[i] || cbs[i] == "error ?" && strings.HasPrefix(log[i], "error")
	}
	if !ok {
		r.fail("callbacks %q, should be %q", log, cbs)
	}
	if strings.Join(got, "\n") != strings.Join(wire, "\n") {
		r.fail("packets sent %q, should be %q", got, wire)
	}
	for _, q := range r.s.Peers {
		if q != r.p && len(q.Got) > 0 {
			r.fail("another connection was sent %s", gots(q.Got))
		}
	}
	if r.p.Closed {
		r.fail("the connection has been closed")
	}
}

func (r *failRun) nextID() string { r.id++; return fmt.Sprint(r.id) }

type failOp struct {
	name string
	run  func(r *failRun)
}

func failOps() (ops []failOp) {
	add := func(name string, f func(r *failRun)) { ops = append(ops, failOp{name, f}) }
	side := func(r *failRun) string { return "error of the " + []string{"server", "client"}[r.kind&1] }
	add("undecodable text frame", func(r *failRun) {
		r.p.Frames(dframe{s: "x"})
		r.look([]string{side(r)})
	})
	add("undecodable binary frame", func(r *failRun) {
		r.p.Frames(dframe{true, "\xc1"}) // reserved in msgpack; belongs to no packet
		r.look([]string{side(r)})
	})
	add("frame with broken data", func(r *failRun) {
		if r.p.MP {
			r.p.Frames(dframe{true, "\x83\xa4type\x02\xa3nsp\xa1/\xa4data\x92\xa1v"})
		} else {
			r.p.Frames(dframe{s: `2["v",`})
		}
		r.look([]string{"error ?"})
	})
	for _, n := range []string{"/a", "/"} {
		n := n
		who := func(r *failRun) string { return n + " " + r.p.Sid + n }
		emit := func(r *failRun, ev string, a ...interface{}) error {
			if r.kind&1 == 1 && n == "/" {
				return r.cli.Emit(n, ev, a...)
			}
			return r.app[r.p.Sid+n].Emit(ev, a...)
		}
		add("event in "+n, func(r *failRun) {
			r.tag++
			t := fmt.Sprintf("t%d", r.tag)
			r.p.Pkt(2, n, "", "v", jsonStr(t))
			r.look([]string{"event " + n + " v " + t + " " + r.p.Sid + n})
		})
		add("request in "+n, func(r *failRun) {
			id := r.nextID()
			r.p.Pkt(2, n, id, "r", "7")
			r.look([]string{"event " + n + " r 7"}, fmt.Sprintf(`3%s#%s ("7!")`, n, id))
		})
		add("event with a misfit in "+n, func(r *failRun) {
			r.p.Pkt(2, n, "", "r", `"x"`)
			r.look([]string{"error " + who(r)})
		})
		add("request with a misfit in "+n, func(r *failRun) {
			r.p.Pkt(2, n, r.nextID(), "r", `"x"`)
			r.look([]string{"error " + who(r)})
		})
		for _, ev := range []string{"rc", "rf"} {
			ev := ev
			add("request "+ev+" whose reply has no encoding in "+n, func(r *failRun) {
				r.p.Pkt(2, n, r.nextID(), ev, "7")
				r.look([]string{"event " + n + " " + ev + " 7", "error " + who(r)})
			})
		}
		add("event rc in "+n, func(r *failRun) {
			r.p.Pkt(2, n, "", "rc", "7")
			r.look([]string{"event " + n + " rc 7"})
		})
		add("ERROR in "+n, func(r *failRun) {
			r.tag++
			t := fmt.Sprintf("e%d", r.tag)
			r.p.Pkt(4, n, "", "", jsonStr(t))
			r.look([]string{"error " + who(r) + " " + t})
		})
		for i, a := range [][]interface{}{{"ok", make(chan int)}, {&socketio.Bytes{Data: []byte("B")}, withChan{}}, {func() {}, "ok", make(chan int)}} {
			i, a := i, a
			add(fmt.Sprintf("emit without encoding %d in %s", i, n), func(r *failRun) {
				if r.p.MP && i == 1 {
					a = []interface{}{[]byte("B"), make(chan int)}
				}
				if err := emit(r, "out", a...); err == nil {
					r.fail("emitting %T succeeds", a[len(a)-1])
				}
				r.look(nil)
			})
		}
		add("EmitError without encoding in "+n, func(r *failRun) {
			if err := r.app[r.p.Sid+n].EmitError(make(chan int)); err == nil {
				r.fail("EmitError of a channel succeeds")
			}
			r.look(nil)
		})
		add("emit in "+n, func(r *failRun) {
			if err := emit(r, "out", "ok"); err != nil {
				r.fail("Emit: %v", err)
			}
			r.look(nil, "2"+n+` out("ok")`)
		})
		for _, fit := range []bool{true, false} {
			fit := fit
			what := "fits"
			if !fit {
				what = "does not fit"
			}
			add("emit with an ack that "+what+" in "+n, func(r *failRun) {
				r.tag++
				t := r.tag
				if err := emit(r, "out", func(i int) { r.cb("ack %d %d", t, i) }); err != nil {
					r.fail("Emit: %v", err)
				}
				got := r.p.Take()
				if len(got) != 1 || got[0].Typ != 2 || got[0].Nsp != n || got[0].ID == "" || len(r.log) > 0 {
					r.fail("emitting with an acknowledgement sends %s, callbacks %q", gots(got), r.log)
				}
				if fit {
					r.p.Pkt(3, n, got[0].ID, "", "5")
					r.look([]string{fmt.Sprintf("ack %d 5", t)})
				} else {
					r.p.Pkt(3, n, got[0].ID, "", `"x"`)
					r.look([]string{"error " + who(r)})
				}
			})
		}
	}
	return
}

func init() {
	ops := failOps()
	no := len(ops)
	for _, sc := range []struct {
		name  string
		depth int
		q, t  int
	}{{"failures", 2, 0, -1}, {"failures-deep", 3, -1, 0}} {
		sc := sc
		reg(&rt.Scenario{Name: sc.name, Props: []string{"C32"}, Quick: sc.q, Thorough: sc.t, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: 8 * no,
			Describe: func(v int) string {
				r := failRun{kind: v / no % 4, mute: v/no/4 == 1}
				return fmt.Sprintf("%s: all sequences of %d operations beginning with %q", r.side(), sc.depth, ops[v%no].name)
			},
			Run: func(v int) {
				r := &failRun{kind: v / no % 4, mute: v/no/4 == 1}
				n := 0
				var rec func(seq []int)
				rec = func(seq []int) {
					if len(seq) < sc.depth {
						for i := range ops {
							rec(append(seq[:len(seq):len(seq)], i))
						}
						return
					}
					n++
					r.fresh()
					for _, i := range seq {
						r.hist = append(r.hist, ops[i].name)
						ops[i].run(r)
					}
					r.p.W.Close()
					rt.Quiesce()
					r.log = nil
				}
				rec([]int{v % no})
				rt.Count("sequences", n)
			}})
	}
}

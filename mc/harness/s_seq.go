package harness

import (
	"fmt"
	"strings"

	"github.com/zyxar/socketio"

	"vmc/rt"
)

// ---- C21..C24: all sequences of operations on a connection against a reference model

// seqRun is one library side, its observations and the model of one connection.
type seqRun struct {
	prop string
	kind int
	s    *SSide
	p    *SPeer   // the connection exercised
	log  []string // callbacks since the last look
	app  map[string]socketio.Socket
	cli  *socketio.Client

	// model
	att     map[string]bool
	pending map[string]map[string]string // namespace -> id -> tag
	newest  map[string]string
	oldest  map[string]string
	oldTag  map[string]string
	evID    int
	tag     int
	hist    []string
	chain   map[string]bool // by tag: the callback emits a request of its own
	stop    bool            // a discrepancy that belongs to another property: the model is of no use any more
	newPeer func() *SPeer
	n       int
}

func (r *seqRun) cb(f string, a ...interface{}) {
	r.log = append(r.log, fmt.Sprintf(f, a...))
	rt.Note("cb")
}

// fail reports a discrepancy of the properties props (a space-separated list).
func (r *seqRun) fail(props string, f string, a ...interface{}) {
	if strings.Contains(props, r.prop) {
		rt.Fail("[seq] %s, operations %s: %s", sideName(r.kind), strings.Join(r.hist, ", "), fmt.Sprintf(f, a...))
	}
	r.stop = true
}

// setup registers the handlers of a namespace; who names the connection a socket belongs to.
func (r *seqRun) setup(ns func(string) socketio.Namespace) {
	ns("/0") // has no callbacks
	for _, n := range []string{"/", "/a"} {
		n := n
		who := func(so socketio.Socket) string {
			if so == nil {
				return "nil socket"
			}
			return so.Sid() + so.Namespace()
		}
		on := ns(n)
		on.OnConnect(func(so socketio.Socket) {
			r.app[so.Sid()+n] = so
			r.cb("connect %s %s", n, who(so))
		})
		on.OnDisconnect(func(so socketio.Socket) { r.cb("disconnect %s %s", n, who(so)) })
		on.OnError(func(so socketio.Socket, err ...interface{}) { r.cb("error %s %s", n, who(so)) })
		on.OnEvent("v", func(so socketio.Socket, s string) { r.cb("event %s v %s %s", n, s, who(so)) })
		on.OnEvent("r1", func(s string, so socketio.Socket) string {
			r.cb("event %s r1 %s %s", n, s, who(so))
			return s + "!"
		})
		on.OnEvent("r3", func(so socketio.Socket, i int) (int, []string, interface{}) {
			r.cb("event %s r3 %d %s", n, i, who(so))
			return i + 1, []string{"a", "b\""}, nil
		})
		if r.kind < 2 {
			on.OnEvent("bin", func(b *socketio.Bytes, so socketio.Socket) (*socketio.Bytes, string, socketio.Bytes) {
				r.cb("event %s bin %s %s", n, b.Data, who(so))
				return &socketio.Bytes{Data: append([]byte("<"), b.Data...)}, "mid", socketio.Bytes{Data: []byte("\x00")}
			})
		} else {
			on.OnEvent("bin", func(b []byte, so socketio.Socket) ([]byte, string, []byte) {
				r.cb("event %s bin %s %s", n, b, who(so))
				return append([]byte("<"), b...), "mid", []byte("\x00")
			})
		}
	}
}

type seqOp struct {
	name string
	run  func(r *seqRun)
}

// look lets everything settle and compares callbacks and packets with what the model says.
// props name the properties a discrepancy in callbacks, or packets, belongs to.
func (r *seqRun) look(cbProps string, cbs []string, wireProps string, wire []string) {
	got := gotList(r.p.Take())
	log := r.log
	r.log = nil
	if strings.Join(log, "\n") != strings.Join(cbs, "\n") {
		r.fail(cbProps, "callbacks %q, should be %q", log, cbs)
	}
	if strings.Join(got, "\n") != strings.Join(wire, "\n") {
		r.fail(wireProps, "packets sent %q, should be %q", got, wire)
	}
	for _, q := range r.s.Peers {
		if q != r.p && len(q.Got) > 0 {
			r.fail("C21 C22 C23 C24", "another connection was sent %s", gots(q.Got))
		}
	}
	if e := r.s.Errs(); len(e) > 0 {
		r.fail("C21 C22 C23 C24", "errors %v", e)
	}
}

func gotList(gs []SGot) (out []string) {
	for _, g := range gs {
		out = append(out, g.String())
	}
	return
}

func (r *seqRun) who(n string) string { return r.p.Sid + n }

func (r *seqRun) opConnect(n string) {
	r.p.Pkt(0, n, "", "")
	if r.att[n] {
		r.look("C24", nil, "C23 C24", nil)
		return
	}
	r.att[n] = true
	r.pending[n] = map[string]string{}
	var w []string
	if r.kind&1 == 0 {
		w = []string{"0" + n}
	}
	r.look("C24", []string{fmt.Sprintf("connect %s %s", n, r.who(n))}, "C23 C24", w)
}

func (r *seqRun) opDisconnect(n string) {
	r.p.Pkt(1, n, "", "")
	if !r.att[n] {
		r.look("C24", nil, "C23 C24", nil)
		return
	}
	delete(r.att, n)
	delete(r.pending, n)
	r.look("C24", []string{fmt.Sprintf("disconnect %s %s", n, r.who(n))}, "C23 C24", nil)
}

// opEvent sends an event. ack is what a requested acknowledgement must carry.
func (r *seqRun) opEvent(n, ev string, id bool, arg, shown string, ack string) {
	sid := ""
	if id {
		sid = fmt.Sprint(r.evID)
		switch r.evID {
		case 2:
			r.evID = 4294967296
		default:
			r.evID++
		}
	}
	r.p.Pkt(2, n, sid, ev, arg)
	if n == "/b" {
		r.lookError(n)
		return
	}
	if !r.att[n] {
		got := r.p.Take()
		log := r.log
		r.log = nil
		for _, g := range got {
			if g.Typ != 4 {
				r.fail("C22 C23", "sent %s in answer to an event in a namespace that is not connected", g)
			}
		}
		for _, l := range log {
			if !strings.HasPrefix(l, "error ") {
				r.fail("C23 C24", "callback %q for an event in a namespace that is not connected", l)
			}
		}
		return
	}
	switch shown {
	case "": // no handler of that name
		got := r.p.Take()
		log := r.log
		r.log = nil
		if len(log) > 0 {
			r.fail("C23", "callbacks %q for an event without a handler", log)
		}
		if len(got) > 0 && (sid == "" || len(got) > 1 || got[0].String() != fmt.Sprintf("3%s#%s ()", n, sid)) {
			r.fail("C22 C23", "sent %s in answer to an event without a handler", gots(got))
		}
		return
	case "bad":
		r.look("C23 C22", []string{fmt.Sprintf("error %s %s", n, r.who(n))}, "C22", nil)
		return
	}
	var w []string
	if id {
		w = []string{fmt.Sprintf("3%s#%s (%s)", n, sid, ack)}
	}
	r.look("C23", []string{fmt.Sprintf("event %s %s %s %s", n, ev, shown, r.who(n))}, "C22", w)
}

// lookError: a namespace the server does not have is answered with one error; a client stays silent.
func (r *seqRun) lookError(n string) {
	got := r.p.Take()
	log := r.log
	r.log = nil
	if len(log) > 0 {
		r.fail("C23", "callbacks %q for a packet in an unknown namespace", log)
	}
	if r.kind&1 == 0 {
		if len(got) != 1 || got[0].Typ != 4 || got[0].Nsp != n {
			r.fail("C23", "a packet in an unknown namespace was answered with %s, should be one error in it", gots(got))
		}
		return
	}
	for _, g := range got {
		if g.Typ != 4 {
			r.fail("C23", "a packet in an unknown namespace was answered with %s", g)
		}
	}
}

func (r *seqRun) emitter(n string) func(ev string, args ...interface{}) error {
	if r.kind&1 == 1 && r.n%2 == 0 {
		return func(ev string, args ...interface{}) error { return r.cli.Emit(n, ev, args...) }
	}
	so := r.app[r.who(n)]
	if so == nil {
		return nil
	}
	return so.Emit
}

// opEmit emits an event, with an acknowledgement callback that emits another request if chain.
func (r *seqRun) opEmit(n string, ack, chain bool) {
	e := r.emitter(n)
	if e == nil {
		return
	}
	r.tag++
	t := fmt.Sprintf("t%d", r.tag)
	args := []interface{}{t}
	if ack {
		r.chain[t] = chain
		args = append(args, func(s string) {
			r.cb("ack %s %s", t, s)
			if chain {
				if err := e("out", t+"'", func(s string) { r.cb("ack %s' %s", t, s) }); err != nil {
					r.cb("%v", err)
				}
			}
		})
	}
	err := e("out", args...)
	if !r.att[n] {
		if err == nil {
			r.fail("C23 C21", "emitting into %s, which is not connected, succeeds", n)
		}
		r.look("C23", nil, "C23", nil)
		return
	}
	if err != nil {
		r.fail("C23", "emitting into %s: %v", n, err)
		return
	}
	rt.Quiesce()
	want := fmt.Sprintf("2%s out(%q)", n, t)
	if ack {
		if len(r.p.Got) != 1 || r.p.Got[0].ID == "" {
			r.fail("C21 C23", "emitting with an acknowledgement callback sent %s", gots(r.p.Got))
			return
		}
		id := r.p.Got[0].ID
		want = fmt.Sprintf("2%s#%s out(%q)", n, id, t)
		if _, dup := r.pending[n][id]; dup {
			r.fail("C21", "id %s given to a request while another one of the namespace waits with it", id)
		}
		r.pending[n][id] = t
		r.newest[n] = id
		if r.oldest[n] == "" {
			r.oldest[n], r.oldTag[n] = id, t
		}
	}
	r.look("C23", nil, "C23", []string{want})
}

// opEmitError emits an error by the socket of n. Nothing is said about a namespace that is
// not connected, but that the error is in no other.
func (r *seqRun) opEmitError(n string) {
	so := r.app[r.who(n)]
	if so == nil {
		return
	}
	r.tag++
	t := fmt.Sprintf("t%d", r.tag)
	err := so.EmitError(t)
	rt.Quiesce()
	want := []string{fmt.Sprintf("4%s%q", n, t)}
	if !r.att[n] && len(r.p.Got) == 0 {
		want = nil
	} else if err != nil {
		r.fail("C23", "EmitError in %s: %v", n, err)
		return
	}
	r.look("C23", nil, "C23", want)
}

// opAck acknowledges id in namespace n.
// tag, if given, is the request meant by it.
func (r *seqRun) opAck(n, id string, tag ...string) {
	if id == "" {
		return
	}
	r.tag++
	arg := fmt.Sprintf("a%d", r.tag)
	r.p.Pkt(3, n, id, "", fmt.Sprintf("%q", arg))
	if n == "/b" {
		r.lookError(n)
		return
	}
	var want, wire []string
	if r.att[n] {
		if t, ok := r.pending[n][id]; ok && (len(tag) == 0 || tag[0] == t) {
			delete(r.pending[n], id)
			want = []string{fmt.Sprintf("ack %s %s", t, arg)}
			if r.chain[t] {
				rt.Quiesce()
				if len(r.p.Got) != 1 || r.p.Got[0].ID == "" {
					r.fail("C21 C23", "the request of an acknowledgement callback sent %s", gots(r.p.Got))
					return
				}
				id := r.p.Got[0].ID
				wire = []string{fmt.Sprintf("2%s#%s out(%q)", n, id, t+"'")}
				if _, dup := r.pending[n][id]; dup {
					r.fail("C21", "id %s given to a request while another one of the namespace waits with it", id)
				}
				r.pending[n][id] = t + "'"
				r.newest[n] = id
			}
		}
	}
	r.look("C21", want, "C21 C23", wire)
}

func seqOps() (ops []seqOp) {
	add := func(name string, f func(r *seqRun)) { ops = append(ops, seqOp{name, f}) }
	for _, n := range []string{"/a", "/"} {
		n := n
		add("CONNECT "+n, func(r *seqRun) { r.opConnect(n) })
		add("DISCONNECT "+n, func(r *seqRun) { r.opDisconnect(n) })
		add("event v in "+n, func(r *seqRun) { r.opEvent(n, "v", false, `"s"`, "s", "") })
		add("request v in "+n, func(r *seqRun) { r.opEvent(n, "v", true, `"s"`, "s", "") })
		add("request r1 in "+n, func(r *seqRun) { r.opEvent(n, "r1", true, `"s"`, "s", `"s!"`) })
		add("request r3 in "+n, func(r *seqRun) { r.opEvent(n, "r3", true, `41`, "41", `42 ["a","b\""] null`) })
		add("request bin in "+n, func(r *seqRun) { r.opEvent(n, "bin", true, `bin:B`, "B", `bin:<B "mid" bin:`+"\x00") })
		add("request r3 with a bad argument in "+n, func(r *seqRun) { r.opEvent(n, "r3", true, `"x"`, "bad", "") })
		add("event nope in "+n, func(r *seqRun) { r.opEvent(n, "nope", false, `1`, "", "") })
		add("emit in "+n, func(r *seqRun) { r.opEmit(n, false, false) })
		add("emit with ack in "+n, func(r *seqRun) { r.opEmit(n, true, false) })
		add("EmitError in "+n, func(r *seqRun) { r.opEmitError(n) })
		add("ack newest of "+n, func(r *seqRun) { r.opAck(n, r.newest[n]) })
		add("ack oldest of "+n, func(r *seqRun) { r.opAck(n, r.oldest[n], r.oldTag[n]) })
	}
	add("request v in /b", func(r *seqRun) { r.opEvent("/b", "v", true, `"s"`, "s", "") })
	add("request bin in /b", func(r *seqRun) { r.opEvent("/b", "bin", true, `bin:B`, "B", "") })
	add("binary ack in /b", func(r *seqRun) { r.p.Pkt(3, "/b", "1", "", "bin:B"); r.lookError("/b") })
	add("emit with an ack that emits with ack in /a", func(r *seqRun) { r.opEmit("/a", true, true) })
	add("ack in /b", func(r *seqRun) { r.opAck("/b", "1") })
	add("ack newest of / in /a", func(r *seqRun) { r.opAckOther("/a", "/") })
	add("ack newest of /a in /", func(r *seqRun) { r.opAckOther("/", "/a") })
	add("ack unknown in /", func(r *seqRun) { r.opAck("/", "18446744073709551615") })
	add("CONNECT /0", func(r *seqRun) {
		r.p.Pkt(0, "/0", "", "")
		want := []string{"0/0"}
		if r.att["/0"] || r.kind&1 == 1 {
			want = nil
		}
		r.att["/0"] = true
		r.look("C24", nil, "C23 C24", want)
	})
	add("CONNECT /b", func(r *seqRun) {
		r.p.Pkt(0, "/b", "", "")
		got := r.p.Take()
		if len(r.log) > 0 || len(got) > 1 || len(got) == 1 && got[0].Typ != 4 {
			r.fail("C24 C23", "connecting to an unknown namespace gives callbacks %q, packets %s", r.log, gots(got))
		}
	})
	add("ERROR in /a", func(r *seqRun) {
		r.p.Pkt(4, "/a", "", "", `"no"`)
		got := r.p.Take()
		for _, l := range r.log {
			if !strings.HasPrefix(l, "error ") {
				r.fail("C23 C24", "callback %q for an ERROR packet", l)
			}
		}
		r.log = nil
		if len(got) > 0 {
			r.fail("C23", "an ERROR packet was answered with %s", gots(got))
		}
	})
	return
}

func (r *seqRun) opAckOther(n, of string) { r.opAck(n, r.newest[of]) }

// end ends the connection in one of several ways and checks what is reported.
func (r *seqRun) end(how int) {
	r.hist = append(r.hist, []string{"peer drops the connection", "peer sends CLOSE", "application closes", "peer sends a websocket close frame"}[how])
	switch how {
	case 0:
		r.p.W.Close()
	case 1:
		r.p.W.Send(Pkt{Type: 1})
	case 2:
		if r.kind&1 == 1 {
			r.cli.Close()
		} else if so := r.app[r.who("/")]; so != nil {
			so.Close()
		}
	case 3:
		r.p.W.CloseFrame()
	}
	rt.Quiesce()
	want := map[string]int{}
	for n := range r.att {
		if n == "/0" {
			continue
		}
		want[fmt.Sprintf("disconnect %s %s", n, r.who(n))] = 1
	}
	for _, l := range r.log {
		want[l]--
	}
	for l, c := range want {
		if c != 0 {
			r.fail("C24", "callbacks %q: %q fired %d times too few", r.log, l, c)
		}
	}
	r.log = nil
	for _, n := range []string{"/", "/a"} {
		if so := r.app[r.who(n)]; so != nil {
			if err := so.Emit("late"); err == nil {
				r.fail("C23 C21", "emitting into %s after the end of the connection succeeds", n)
			}
		}
	}
	r.p.Got = nil
	r.look("C24", nil, "C23", nil)
	r.p.W.Close()
	rt.Quiesce()
}

// fresh starts a new connection.
func (r *seqRun) fresh() {
	r.app = map[string]socketio.Socket{}
	r.log, r.hist = nil, nil
	if r.kind&1 == 0 {
		if r.s == nil {
			s := NewSio(bigI, bigT, r.kind&2 != 0)
			r.setup(s.Namespace)
			r.s = &SSide{Name: "server", MP: s.MP, Ns: s.Namespace, Errs: func() []string { return s.Errs }}
			other := s.Peer()
			other.Pkt(0, "/a", "", "")
			rt.Quiesce()
			other.Got = nil
			r.s.Peers = []*SPeer{other, nil}
			r.newPeer = s.Peer
		}
		r.log = nil
		r.p = r.newPeer()
		r.s.Peers[1] = r.p
	} else {
		c := DialSio("h", bigI, bigT, r.kind&2 != 0, func(c *socketio.Client) { r.cli = c; r.setup(c.Namespace) })
		r.s = &SSide{Name: "client", Ns: c.Namespace, Peers: []*SPeer{c.P}, Errs: func() []string { return c.Errs }}
		r.p = c.P
		c.P.Pkt(0, "/", "", "")
	}
	r.att = map[string]bool{"/": true}
	r.pending = map[string]map[string]string{"/": {}}
	r.chain = map[string]bool{}
	r.newest, r.oldest, r.oldTag = map[string]string{}, map[string]string{}, map[string]string{}
	r.evID, r.tag, r.stop = 0, 0, false
	r.hist = append(r.hist, "open")
	w := []string{"0/"}
	if r.kind&1 == 1 {
		w = nil
	}
	r.look("C24", []string{"connect / " + r.who("/")}, "C24 C23", w)
}

func (r *seqRun) sequence(ops []seqOp, seq []int) {
	r.n++
	r.fresh()
	for _, i := range seq {
		if r.stop {
			break
		}
		r.hist = append(r.hist, ops[i].name)
		ops[i].run(r)
	}
	if !r.stop {
		r.end(r.n % 4)
		return
	}
	r.p.W.Close()
	rt.Quiesce()
}

func init() {
	ops := seqOps()
	no := len(ops)
	for _, prop := range []string{"C21", "C22", "C23", "C24"} {
		prop := prop
		for _, sc := range []struct {
			name      string
			depth     int
			prologues bool
			kinds     int
			q, t      int
		}{{"", 2, true, 4, 0, -1}, {"-initial", 3, false, 2, 0, -1}, {"-deep", 3, true, 4, -1, 0}} {
			sc := sc
			np := 1
			if sc.prologues {
				np = len(seqPrologues)
			}
			reg(&rt.Scenario{Name: "sequences-" + prop + sc.name, Props: []string{prop}, Quick: sc.q, Thorough: sc.t, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: sc.kinds * np * no,
				Describe: func(v int) string {
					return fmt.Sprintf("%s: after %v, all sequences of %d operations beginning with %q", sideName(v/no/np), seqPrologues[v/no%np], sc.depth, ops[v%no].name)
				},
				Run: func(v int) {
					r := &seqRun{prop: prop, kind: v / no / np}
					var pro []int
					for _, name := range seqPrologues[v/no%np] {
						k := -1
						for i := range ops {
							if ops[i].name == name {
								k = i
							}
						}
						pro = append(pro, k)
					}
					n := 0
					var rec func(seq []int)
					rec = func(seq []int) {
						if len(seq) == len(pro)+sc.depth {
							n++
							r.sequence(ops, seq)
							return
						}
						for i := range ops {
							rec(append(seq[:len(seq):len(seq)], i))
						}
					}
					rec(append(pro, v%no))
					rt.Count("sequences", n)
				}})
		}
	}
}

// seqPrologues lead to the states the sequences start from.
var seqPrologues = [][]string{
	{},
	{"CONNECT /a"},
	{"CONNECT /a", "emit with an ack that emits with ack in /a", "emit with ack in /"},
	{"CONNECT /a", "emit with ack in /a", "DISCONNECT /a", "CONNECT /a", "emit with ack in /a"},
	{"DISCONNECT /"},
}

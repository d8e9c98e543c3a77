package harness

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C33 (C11, C15): nothing is kept of what is over

// weigh counts what can be reached from roots: pointers, map entries and elements of slices and
// channels, by type. What belongs to the harness, to the controlled runtime or to net/http is
// counted where it is referred to but not entered; closures cannot be.
func weigh(roots ...interface{}) map[string]int {
	out := map[string]int{}
	type at struct {
		p uintptr
		t reflect.Type
	}
	seen := map[at]bool{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		t := v.Type()
		if t.PkgPath() == "vmc/rt" {
			switch {
			case strings.HasPrefix(t.Name(), "Chan["):
				walk(v.FieldByName("buf"))
			case t.Name() == "SyncMap":
				walk(v.FieldByName("m"))
			}
			return
		}
		if strings.HasPrefix(t.PkgPath(), "vmc/harness") {
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || seen[at{v.Pointer(), t}] {
				return
			}
			seen[at{v.Pointer(), t}] = true
			out[t.String()]++
			if p := t.Elem().PkgPath(); p == "net/http" || p == "reflect" {
				return
			}
			walk(v.Elem())
		case reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Map:
			if v.IsNil() || seen[at{v.Pointer(), t}] {
				return
			}
			seen[at{v.Pointer(), t}] = true
			out[t.String()] += v.Len()
			for it := v.MapRange(); it.Next(); {
				walk(it.Key())
				walk(it.Value())
			}
		case reflect.Slice:
			if v.IsNil() || v.Len() > 0 && seen[at{v.Pointer(), t}] {
				return
			}
			out[t.String()] += v.Len()
			fallthrough
		case reflect.Array:
			if v.Len() == 0 {
				return
			}
			if v.Kind() == reflect.Slice {
				seen[at{v.Pointer(), t}] = true
			}
			switch t.Elem().Kind() {
			case reflect.Bool, reflect.String, reflect.Int, reflect.Uint8, reflect.Int64, reflect.Uint64:
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	for _, r := range roots {
		walk(reflect.ValueOf(r))
	}
	n := 0
	for _, l := range rt.Live() {
		_ = l
		n++
	}
	out["workers"] = n
	return out
}

const keepN = 4

// keepCycle repeats a cycle, which ends where it has begun, and fails when every round of it adds
// something to what roots lead to.
func keepCycle(what string, roots func() []interface{}, cycle func()) {
	var w [4]map[string]int
	for i := range w {
		for j := 0; j < keepN; j++ {
			cycle()
		}
		rt.Quiesce()
		w[i] = weigh(roots()...)
	}
	var grown []string
	for t := range w[3] {
		if w[1][t]-w[0][t] >= keepN && w[2][t]-w[1][t] >= keepN && w[3][t]-w[2][t] >= keepN {
			grown = append(grown, fmt.Sprintf("%s %d, %d, %d, %d", t, w[0][t], w[1][t], w[2][t], w[3][t]))
		}
	}
	sort.Strings(grown)
	rt.Count("cycles", 4*keepN)
	if len(grown) > 0 {
		rt.Fail("[kept] each time %q is done over, something more is kept (after %d, %d, %d and %d times): %s", what, keepN, 2*keepN, 3*keepN, 4*keepN, strings.Join(grown, "; "))
	}
}

// keepOp is a cycle of the engine: ends marks those which open a session and end it.
type keepOp struct {
	name string
	run  func(k *keepEng)
}

// keepEng is an engine server with one polling and one websocket session that stay.
type keepEng struct {
	e    *Eng
	p    *Sess
	w    *WS
	wSo  *engine.Socket
	atts *atts
}

func (k *keepEng) drain() {
	for {
		if _, err := k.w.Recv(); err != nil {
			return
		}
		rt.Note("drained")
	}
}

// keepEnds are the cycles that open a session and end it.
var keepEnds = func() (ops []keepOp) {
	add := func(name string, f func(k *keepEng)) { ops = append(ops, keepOp{name, f}) }
	for _, flav := range []string{"", "&b64=1", "&j=0"} {
		flav := flav
		open := func(k *keepEng) *Sess {
			s := k.e.OpenF(flav)
			s.Sock()
			rt.Quiesce()
			return s
		}
		if flav == "&j=0" {
			open = func(k *keepEng) *Sess {
				n := len(k.e.Order)
				Do(k.e, Req{Method: "GET", Query: qPoll + flav})
				rt.Await("open callback", func() bool { return len(k.e.Order) > n })
				rt.Quiesce()
				return &Sess{E: k.e, Sid: k.e.Order[n], Flav: flav}
			}
		}
		add("polling session"+flav+", close packet", func(k *keepEng) {
			s := open(k)
			emit(s.Sock(), msg("left"))
			s.Post(msg("m"), Pkt{Type: 1})
			rt.Quiesce()
		})
		add("polling session"+flav+", Close", func(k *keepEng) {
			s := open(k)
			s.Post(msg("m"))
			s.Sock().Close()
			rt.Quiesce()
		})
		add("polling session"+flav+", silence", func(k *keepEng) { open(k); sleep(4000 * time.Second); rt.Quiesce() })
	}
	ws := func(k *keepEng) (*WS, *engine.Socket) {
		w, sid := k.e.WSSession()
		return w, k.e.Sock(sid)
	}
	up := func(k *keepEng) (*WS, *engine.Socket) {
		u := newUpCli(k.e, "")
		so := u.Sock()
		rt.Quiesce()
		u.upgrade()
		rt.Quiesce()
		return u.w, so
	}
	for _, o := range []struct {
		name string
		open func(k *keepEng) (*WS, *engine.Socket)
	}{{"websocket session", ws}, {"upgraded session", up}} {
		o := o
		add(o.name+", close packet", func(k *keepEng) { w, _ := o.open(k); w.Send(msg("m")); w.Send(Pkt{Type: 1}); rt.Quiesce(); w.Close() })
		add(o.name+", Close", func(k *keepEng) { w, so := o.open(k); emit(so, msg("m")); so.Close(); rt.Quiesce(); w.Close() })
		add(o.name+", dropped", func(k *keepEng) { w, _ := o.open(k); w.Close(); rt.Quiesce() })
		add(o.name+", reset", func(k *keepEng) { w, _ := o.open(k); w.C.Reset(); rt.Quiesce() })
		add(o.name+", close frame", func(k *keepEng) { w, _ := o.open(k); w.CloseFrame(); rt.Quiesce(); w.Close() })
		add(o.name+", silence", func(k *keepEng) { w, _ := o.open(k); sleep(4000 * time.Second); rt.Quiesce(); w.Close() })
	}
	return
}()

// keepRefused are the cycles in which opening a session is refused.
var keepRefused = func() (ops []keepOp) {
	for _, q := range []Req{
		{Method: "GET", Query: "EIO=2&transport=polling"}, {Method: "GET", Query: "transport=polling"}, {Method: "GET", Query: "EIO=3&transport=x"}, {Method: "GET", Query: "EIO=3"},
		{Method: "GET", Query: qPoll + "&sid=NONE"}, {Method: "POST", Query: qPoll + "&sid=NONE", CT: ctText, Body: []byte("2:4x")},
		{Method: "GET", Query: qWS}, {Method: "GET", Query: qWS + "&sid=NONE"},
		{Method: "GET", Query: qPoll, Hdr: map[string][]string{"Origin": {"evil"}}},
	} {
		q := q
		ops = append(ops, keepOp{fmt.Sprintf("%s ?%s %v", q.Method, q.Query, q.Hdr), func(k *keepEng) { Do(k.e, q) }})
	}
	for _, h := range []string{"Origin", "Sec-Websocket-Version", "Sec-Websocket-Key"} {
		h := h
		ops = append(ops, keepOp{"websocket with a wrong " + h, func(k *keepEng) {
			w := WSOpen(k.e, qWS, map[string][]string{h: {"evil"}})
			w.Handshake()
			w.Close()
			rt.Quiesce()
		}})
	}
	return
}()

// keepTraffic are the cycles on sessions that stay.
var keepTraffic = func() (ops []keepOp) {
	add := func(name string, f func(k *keepEng)) { ops = append(ops, keepOp{name, f}) }
	for _, p := range []Pkt{msg("m"), bmsg("b"), {Type: 2, Data: "d"}, {Type: 3}, {Type: 6}, {Type: 7}} {
		p := p
		add(fmt.Sprintf("posting %v", p), func(k *keepEng) { k.p.Post(p); rt.Quiesce(); k.flush() })
		add(fmt.Sprintf("sending %v", p), func(k *keepEng) { k.w.Send(p); rt.Quiesce() })
		if p.Type == 4 {
			add(fmt.Sprintf("emitting %v by polling", p), func(k *keepEng) { emit(k.p.Sock(), p); k.p.Poll() })
			add(fmt.Sprintf("emitting %v by websocket", p), func(k *keepEng) { emit(k.wSo, p); rt.Quiesce() })
		}
	}
	for _, b := range []string{"", "x", "5:4x", "2:4x3:4", "3:b4*"} {
		b := b
		add(fmt.Sprintf("posting %q", b), func(k *keepEng) {
			Do(k.e, Req{Method: "POST", Query: qPoll + "&sid=" + k.p.Sid, CT: ctText, Body: []byte(b)})
			rt.Quiesce()
		})
	}
	add("a DELETE", func(k *keepEng) { Do(k.e, Req{Method: "DELETE", Query: qPoll + "&sid=" + k.p.Sid}) })
	add("emitting what has no encoding", func(k *keepEng) {
		k.wSo.Emit(engine.EventMessage, engine.MessageTypeString, make(chan int))
		k.p.Sock().Emit(engine.EventMessage, engine.MessageTypeString, make(chan int))
	})
	add("setting a header", func(k *keepEng) { k.wSo.SetHeader("x-a", "1"); k.p.Sock().SetHeader("X-A", "1") })
	add("an unknown packet type", func(k *keepEng) { k.w.WriteFrame(true, 1, []byte("9x")); rt.Quiesce() })
	add("a ping frame", func(k *keepEng) { k.w.WriteFrame(true, 9, []byte("p")); rt.Quiesce() })
	for i := range attempts {
		a := attempts[i]
		add("upgrade attempt: "+a.name, func(k *keepEng) {
			k.atts.sent, k.atts.out, k.atts.wsIn = nil, nil, nil
			a.run(k.atts)
			rt.Quiesce()
			k.flush()
		})
	}
	return
}()

// flush polls until nothing is left for the polling session.
func (k *keepEng) flush() {
	rt.Quiesce()
	emit(k.p.Sock(), msg("flushed"))
	for {
		n := len(k.p.Got)
		if !k.p.Poll() {
			rt.Fail("[kept-poll] a poll is refused: %v", k.p.Errs)
		}
		for _, p := range k.p.Got[n:] {
			if p == msg("flushed") {
				k.p.Got = nil
				return
			}
		}
	}
}

func runKeep(interval, timeout time.Duration, closed bool, ops ...keepOp) {
	k := &keepEng{e: NewEng(interval, timeout, denyEvil{})}
	if !closed && interval == bigI {
		u := newUpCli(k.e, "")
		k.p = u.Sess
		k.atts = &atts{e: k.e, u: u, so: u.Sock()}
		w, sid := k.e.WSSession()
		k.w, k.wSo = w, k.e.Sock(sid)
		rt.HGo("drain", k.drain)
	}
	if closed {
		k.e.Server.Close()
		rt.Quiesce()
	}
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	keepCycle(strings.Join(names, ", then "), func() []interface{} { return []interface{}{k.e.Server} }, func() {
		for _, o := range ops {
			o.run(k)
		}
	})
}

// ---- the same of socket.io

type keepSio struct {
	*failRun
}

type keepSOp struct {
	name string
	run  func(k *keepSio)
}

// kept is what a side's memory hangs on.
func (k *keepSio) kept() []interface{} {
	if k.kind&1 == 0 {
		return []interface{}{k.s.H}
	}
	return []interface{}{k.cli}
}

func (k *keepSio) forget() {
	rt.Quiesce()
	k.p.Got, k.log, k.hist, k.p.Ctl = nil, nil, nil, nil
}

func (k *keepSio) lastID() string {
	rt.Quiesce()
	if len(k.p.Got) == 0 {
		return ""
	}
	return k.p.Got[len(k.p.Got)-1].ID
}

var keepSOps = func() (ops []keepSOp) {
	add := func(name string, f func(k *keepSio)) {
		ops = append(ops, keepSOp{name, func(k *keepSio) { f(k); k.forget() }})
	}
	for _, o := range failOps() {
		o := o
		if strings.HasSuffix(o.name, " in /") {
			continue
		}
		add(o.name, func(k *keepSio) { o.run(k.failRun) })
	}
	add("binary event", func(k *keepSio) { k.p.Pkt(2, "/a", "9", "v", `"s"`, "bin:B") })
	add("event of no handler", func(k *keepSio) { k.p.Pkt(2, "/a", k.nextID(), "none", `"s"`) })
	add("an ack of nothing", func(k *keepSio) { k.p.Pkt(3, "/a", k.nextID(), "", `"s"`) })
	add("packets of an unknown namespace", func(k *keepSio) {
		k.tag++
		n := fmt.Sprintf("/n%d", k.tag)
		for t := 0; t < 5; t++ {
			k.p.Pkt(t, n, []string{"", "", "1", "1", ""}[t], []string{"", "", "v", "", ""}[t])
		}
	})
	add("an ack answered twice", func(k *keepSio) {
		k.app[k.p.Sid+"/a"].Emit("out", func(i int) {})
		id := k.lastID()
		k.p.Pkt(3, "/a", id, "", "1")
		k.p.Pkt(3, "/a", id, "", "1")
	})
	add("leaving and joining /a with a request pending", func(k *keepSio) {
		k.app[k.p.Sid+"/a"].Emit("out", func(i int) {})
		rt.Quiesce()
		k.p.Pkt(1, "/a", "", "")
		rt.Quiesce()
		k.app[k.p.Sid+"/a"].Emit("out", func(i int) {})
		k.p.Pkt(2, "/a", "1", "v", `"s"`)
		k.p.Pkt(0, "/a", "", "")
	})
	add("an unfinished binary packet", func(k *keepSio) {
		if !k.p.MP {
			k.p.Frames(dframe{s: `52-/a,["v",{"_placeholder":true,"num":0},{"_placeholder":true,"num":1}]`}, dframe{true, "B"})
			k.p.Frames(dframe{s: "x"})
		} else {
			k.p.Frames(dframe{true, "\x81"})
		}
	})
	for how, name := range []string{"peer drops the connection", "peer sends CLOSE", "application closes", "close frame"} {
		how := how
		add("another connection, "+name, func(k *keepSio) {
			old, app := k.p, k.app
			if k.kind&1 == 0 {
				x := &Sio{Server: k.s.H.(*socketio.Server), MP: k.kind&2 != 0}
				k.app = map[string]socketio.Socket{}
				k.p = x.Peer()
				k.p.Pkt(0, "/a", "", "")
			} else {
				k.app = map[string]socketio.Socket{}
				k.redial(true)
			}
			rt.Quiesce()
			so := k.app[k.p.Sid+"/a"]
			so.Emit("out", func(i int) {})
			rt.Quiesce()
			switch how {
			case 0:
				k.p.W.Close()
			case 1:
				k.p.W.Send(Pkt{Type: 1})
			case 2:
				so.Close()
			case 3:
				k.p.W.CloseFrame()
			}
			rt.Quiesce()
			k.p.W.Close()
			rt.Quiesce()
			if k.kind&1 == 0 {
				k.p, k.app = old, app
				return
			}
			sleep(2 * bigI) // a client's pinger may live until its next ping
			k.app = map[string]socketio.Socket{}
			k.redial(true)
		})
	}
	add("a Dial that fails, then one that does not", func(k *keepSio) {
		if k.kind&1 == 0 {
			return
		}
		k.cli.Close()
		rt.Quiesce()
		k.app = map[string]socketio.Socket{}
		k.redial(false)
		k.redial(true)
	})
	return
}()

// redial dials the client's peer again.
func (k *keepSio) redial(good bool) {
	k.p.W.Close()
	rt.Quiesce()
	before := k.sc.P
	if !good {
		if err := k.cli.Dial("ws://nobody/socket.io/", nil, engine.WebsocketTransport, parserOf(k.kind&2 != 0)); err == nil {
			rt.Fail("[dial] dialling nobody succeeds")
		}
		return
	}
	if err := k.cli.Dial("ws://h/socket.io/", nil, engine.WebsocketTransport, parserOf(k.kind&2 != 0)); err != nil {
		rt.Fail("[redial] %v", err)
	}
	rt.Await("peer", func() bool { return k.sc.P != before })
	k.p = k.sc.P
	k.s.Peers = []*SPeer{k.p}
	k.p.Pkt(0, "/", "", "")
	k.p.Pkt(0, "/a", "", "")
	rt.Quiesce()
}

func runKeepSio(kind int, ops ...keepSOp) {
	k := &keepSio{failRun: &failRun{kind: kind}}
	k.fresh()
	var names []string
	for _, o := range ops {
		names = append(names, o.name)
	}
	keepCycle(sideName(kind)+": "+strings.Join(names, ", then "), k.kept, func() {
		for _, o := range ops {
			o.run(k)
		}
	})
}

func init() {
	ne, nr, nt := len(keepEnds), len(keepRefused), len(keepTraffic)
	reg(&rt.Scenario{Name: "kept-sessions", Props: []string{"C11", "C33"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: ne,
		Describe: func(v int) string { return keepEnds[v].name },
		Run:      func(v int) { runKeep(25*time.Second, 60*time.Second, false, keepEnds[v]) }})
	reg(&rt.Scenario{Name: "kept-closed-server", Props: []string{"C15", "C33"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: 4 + nr,
		Describe: func(v int) string { return fmt.Sprint("closed server, request ", v) },
		Run: func(v int) {
			op := keepOp{"polling handshake", func(k *keepEng) { Do(k.e, Req{Method: "GET", Query: qPoll}); rt.Quiesce() }}
			switch v {
			case 0:
			case 1:
				op = keepOp{"JSONP handshake", func(k *keepEng) { Do(k.e, Req{Method: "GET", Query: qPoll + "&j=0"}); rt.Quiesce() }}
			case 2:
				op = keepOp{"websocket handshake", func(k *keepEng) { w := WSOpen(k.e, qWS, nil); w.Handshake(); rt.Quiesce(); w.Close(); rt.Quiesce() }}
			case 3:
				op = keepOp{"websocket handshake and message", func(k *keepEng) {
					w := WSOpen(k.e, qWS, nil)
					w.Handshake()
					w.Send(msg("m"))
					rt.Quiesce()
					w.C.Reset()
					rt.Quiesce()
				}}
			default:
				op = keepRefused[v-4]
			}
			runKeep(bigI, bigT, true, op)
		}})
	reg(&rt.Scenario{Name: "kept-refused", Props: []string{"C33"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: nr,
		Describe: func(v int) string { return keepRefused[v].name },
		Run:      func(v int) { runKeep(bigI, bigT, false, keepRefused[v]) }})
	reg(&rt.Scenario{Name: "kept-traffic", Props: []string{"C33"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: nt,
		Describe: func(v int) string { return keepTraffic[v].name },
		Run:      func(v int) { runKeep(bigI, bigT, false, keepTraffic[v]) }})
	ns := len(keepSOps)
	reg(&rt.Scenario{Name: "kept-connection", Props: []string{"C33"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: 4 * ns,
		Describe: func(v int) string { return sideName(v/ns) + ": " + keepSOps[v%ns].name },
		Run:      func(v int) { runKeepSio(v/ns, keepSOps[v%ns]) }})
	var all []keepOp
	for _, o := range keepEnds {
		if !strings.HasSuffix(o.name, "silence") {
			all = append(all, o)
		}
	}
	all = append(append(all, keepRefused...), keepTraffic...)
	na := len(all)
	reg(&rt.Scenario{Name: "kept-pairs", Props: []string{"C33"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: na * na,
		Describe: func(v int) string { return all[v/na].name + ", then " + all[v%na].name },
		Run:      func(v int) { runKeep(bigI, bigT, false, all[v/na], all[v%na]) }})
	reg(&rt.Scenario{Name: "kept-connection-triples", Props: []string{"C33"}, Quick: -1, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: 4 * ns * ns * ns,
		Describe: func(v int) string {
			return sideName(v/ns/ns/ns) + ": " + keepSOps[v/ns/ns%ns].name + ", " + keepSOps[v/ns%ns].name + ", " + keepSOps[v%ns].name
		},
		Run: func(v int) { runKeepSio(v/ns/ns/ns, keepSOps[v/ns/ns%ns], keepSOps[v/ns%ns], keepSOps[v%ns]) }})
	reg(&rt.Scenario{Name: "kept-connection-pairs", Props: []string{"C33"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: 4 * ns * ns,
		Describe: func(v int) string {
			return sideName(v/ns/ns) + ": " + keepSOps[v/ns%ns].name + ", " + keepSOps[v%ns].name
		},
		Run: func(v int) { runKeepSio(v/ns/ns, keepSOps[v/ns%ns], keepSOps[v%ns]) }})
}

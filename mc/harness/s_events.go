package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"net/http"
	"reflect"

	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C31: what Emit sends, and which callback an arriving packet runs

// esSide is a session of the library with a peer driven by hand.
type esSide struct {
	name string
	so   *engine.Socket
	send func(p Pkt)
	recv func() []Pkt // what has been sent by now
	on   func(kind int, c engine.Callable)
	cli  bool
	over func() bool
}

// event kinds, by packet type; -1 stands for none
var esEvents = []struct {
	name string
	typ  int
	emit func(so *engine.Socket, t engine.MessageType, a interface{}) error
}{
	{"message", 4, func(so *engine.Socket, t engine.MessageType, a interface{}) error {
		return so.Emit(engine.EventMessage, t, a)
	}},
	{"ping", 2, func(so *engine.Socket, t engine.MessageType, a interface{}) error {
		return so.Emit(engine.EventPing, t, a)
	}},
	{"pong", 3, func(so *engine.Socket, t engine.MessageType, a interface{}) error {
		return so.Emit(engine.EventPong, t, a)
	}},
	{"open", 0, func(so *engine.Socket, t engine.MessageType, a interface{}) error {
		return so.Emit(engine.EventOpen, t, a)
	}},
	{"close", 1, func(so *engine.Socket, t engine.MessageType, a interface{}) error {
		return so.Emit(engine.EventClose, t, a)
	}},
	{"upgrade", -1, func(so *engine.Socket, t engine.MessageType, a interface{}) error {
		return so.Emit(engine.EventUpgrade, t, a)
	}},
	{"error", -1, func(so *engine.Socket, t engine.MessageType, a interface{}) error {
		return so.Emit(engine.EventError, t, a)
	}},
	{"other", -1, func(so *engine.Socket, t engine.MessageType, a interface{}) error { return so.Emit("other", t, a) }},
	{"Send", 4, func(so *engine.Socket, t engine.MessageType, a interface{}) error {
		if t == engine.MessageTypeBinary {
			return so.Emit(engine.EventMessage, t, a)
		}
		return so.Send(a)
	}},
}

type esText string
type esBytes []byte
type esOwn struct{ bad bool }

func (o esOwn) MarshalJSON() ([]byte, error) {
	if o.bad {
		return nil, fmt.Errorf("no encoding")
	}
	return []byte(`{"own":[1,2]}`), nil
}

// esArg is an argument with its text, or its JSON if raw is false; bad ones have none.
type esArg struct {
	name string
	v    interface{}
	text string
	raw  bool
	bad  bool
}

func esArgs() []esArg {
	str := "pointed at"
	return []esArg{
		{"text", "hello", "hello", true, false},
		{"empty text", "", "", true, false},
		{"text like JSON", `{"a":"<&>"}`, `{"a":"<&>"}`, true, false},
		{"unicode", "日本\u2028\x00", "日本\u2028\x00", true, false},
		{"bytes", []byte("\x00\xffb4"), "\x00\xffb4", true, false},
		{"no bytes", []byte{}, "", true, false},
		{"nil bytes", []byte(nil), "", true, false},
		{"nil", nil, `null`, false, false},
		{"number", 42, `42`, false, false},
		{"float", 1.5, `1.5`, false, false},
		{"bool", true, `true`, false, false},
		{"struct", struct {
			A int    `json:"a"`
			B string `json:"b,omitempty"`
		}{7, "<x>"}, `{"a":7,"b":"<x>"}`, false, false},
		{"list", []interface{}{"e", 1, nil}, `["e",1,null]`, false, false},
		{"map", map[string]int{"k": 1, "j": 2}, `{"j":2,"k":1}`, false, false},
		{"pointer", &str, `"pointed at"`, false, false},
		{"raw JSON", json.RawMessage(`[1, 2]`), `[1,2]`, false, false},
		{"named text", esText("t"), `"t"`, false, false},
		{"named bytes", esBytes("t"), `"dA=="`, false, false},
		{"own encoding", esOwn{}, `{"own":[1,2]}`, false, false},
		{"channel", make(chan int), "", false, true},
		{"func", func() {}, "", false, true},
		{"infinity", math.Inf(1), "", false, true},
		{"bad in a list", []interface{}{1, func() {}}, "", false, true},
		{"failing encoding", esOwn{true}, "", false, true},
	}
}

func sameJSON(a, b string) bool {
	var x, y interface{}
	return json.Unmarshal([]byte(a), &x) == nil && json.Unmarshal([]byte(b), &y) == nil && reflect.DeepEqual(x, y)
}

var esNames = []string{"polling", "polling, base64", "websocket", "upgraded", "client"}

// newES makes the k-th kind of session.
func newES(k int) *esSide {
	x := &esSide{name: esNames[k]}
	var got []Pkt
	taken := 0
	x.recv = func() []Pkt {
		rt.Quiesce()
		g := got[taken:]
		taken = len(got)
		return g
	}
	reader := func(w *WS) {
		rt.HGo("peer reader", func() {
			for {
				p, err := w.Recv()
				if err != nil {
					return
				}
				got = append(got, p)
				rt.Note("peer got")
			}
		})
		x.send = func(p Pkt) { w.Send(p) }
	}
	if k == 4 {
		x.cli = true
		var w *WS
		ListenPeer("h:80", func(p *WS, _ *http.Request) {
			p.Send(Pkt{false, 0, openParamsJSON(bigI, bigT)})
			w = p
			rt.Note("peer")
		})
		over := false
		c, err := engine.Dial("ws://h:80/x/", nil, engine.WebsocketTransport, func(c *engine.Client) {
			c.On(engine.EventClose, engine.Callback(func(*engine.Socket, engine.MessageType, []byte) { over = true }))
		})
		if err != nil {
			rt.Fail("[dial] %v", err)
		}
		rt.Await("peer", func() bool { return w != nil })
		reader(w)
		x.so = c.Socket
		x.over = func() bool { return over }
		x.on = func(kind int, cb engine.Callable) {
			switch kind {
			case 1:
				c.On(engine.EventClose, cb)
			case 4:
				c.On(engine.EventMessage, cb)
			}
		}
		return x
	}
	var so *engine.Socket
	srv, err := engine.NewServer(bigI, bigT, func(s *engine.Socket) { so = s; rt.Note("open") })
	if err != nil {
		rt.Fail("[new] %v", err)
	}
	over := false
	closed := func(*engine.Socket, engine.MessageType, []byte) { over = true }
	srv.On(engine.EventClose, engine.Callback(closed))
	x.over = func() bool { return over }
	x.on = func(kind int, cb engine.Callable) {
		switch kind {
		case 1:
			srv.On(engine.EventClose, cb)
		case 2:
			srv.On(engine.EventPing, cb)
		case 3:
			srv.On(engine.EventPong, cb)
		case 4:
			srv.On(engine.EventMessage, cb)
		case 5:
			srv.On(engine.EventUpgrade, cb)
		}
	}
	e := &Eng{Server: srv}
	switch k {
	case 2:
		w, _ := e.WSSession()
		reader(w)
	default:
		flav := ""
		if k == 1 {
			flav = "&b64=1"
		}
		s := e.OpenF(flav)
		if k == 3 {
			w := WSOpen(e, qWS+"&sid="+s.Sid, nil)
			if !w.Handshake() {
				rt.Fail("[upgrade] refused: %d", w.Status)
			}
			w.Send(Pkt{Type: 2, Data: "probe"})
			if p, err := w.Recv(); err != nil || p.Type != 3 {
				rt.Fail("[upgrade] probe answered %v (%v)", p, err)
			}
			w.Send(Pkt{Type: 5})
			rt.Quiesce()
			reader(w)
			break
		}
		rt.HGo("poller", func() {
			for s.Poll() {
				got = append(got, s.Got...)
				s.Got = nil
			}
		})
		x.send = func(p Pkt) { s.Post(p) }
	}
	rt.Await("open", func() bool { return so != nil })
	x.so = so
	rt.Quiesce()
	x.recv()
	return x
}

// esCall is a Callable of its own.
type esCall struct {
	name string
	log  *[]string
	so   *engine.Socket
	then func()
	kept *[]Ev
}

func (c *esCall) Call(so *engine.Socket, t engine.MessageType, d []byte) {
	if so != c.so {
		rt.Fail("[event-socket] %s called with another session's socket", c.name)
	}
	*c.log = append(*c.log, fmt.Sprintf("%s(%d %q)", c.name, t, d))
	*c.kept = append(*c.kept, Ev{Kind: c.name, Data: string(d), raw: d})
	if c.then != nil {
		c.then()
	}
}

func init() {
	args := esArgs()
	na, ne := len(args), len(esEvents)
	// every pair of emissions
	reg(&rt.Scenario{Name: "emit-contents", Props: []string{"C31"}, Cfg: rt.Config{MaxSteps: 400000000, QuietLib: true}, N: 5 * 2 * ne,
		Describe: func(v int) string {
			return fmt.Sprintf("%s, %s, bin=%v", esNames[v%5], esEvents[v/10].name, v/5%2 == 1)
		},
		Run: func(v int) {
			x := newES(v % 5)
			first := esEvents[v/10]
			n := 0
			one := func(name string, typ int, emit func(*engine.Socket, engine.MessageType, interface{}) error, bin bool, a esArg, want []Pkt) []Pkt {
				mt := engine.MessageTypeString
				if bin {
					mt = engine.MessageTypeBinary
				}
				err := emit(x.so, mt, a.v)
				switch {
				case typ >= 0 && a.bad:
					if err == nil {
						rt.Fail("[emit-error] %s: Emit of %s with a %s returned no error", x.name, name, a.name)
					}
					return want
				case err != nil:
					if typ < 0 {
						return want // nothing is promised about the error
					}
					rt.Fail("[emit-refused] %s: Emit of %s with a %s: %v", x.name, name, a.name, err)
				}
				if typ >= 0 {
					want = append(want, Pkt{bin, typ, a.text})
				}
				return want
			}
			for _, a := range args {
				for j, ev2 := range esEvents {
					for m := 0; m < 2; m++ {
						b := args[(n*7+3)%na]
						var want []Pkt
						var as []esArg
						want = one(first.name, first.typ, first.emit, v/5%2 == 1, a, want)
						if len(want) > len(as) {
							as = append(as, a)
						}
						want = one(ev2.name, ev2.typ, ev2.emit, m == 1, b, want)
						if len(want) > len(as) {
							as = append(as, b)
						}
						got := x.recv()
						ok := len(got) == len(want)
						for i := 0; ok && i < len(got); i++ {
							if as[i].raw {
								ok = got[i] == want[i]
							} else {
								ok = got[i].Bin == want[i].Bin && got[i].Type == want[i].Type && sameJSON(got[i].Data, want[i].Data)
							}
						}
						if !ok {
							rt.Fail("[emit-contents] %s: %s of a %s and %s (%d) of a %s sent %s instead of %s", x.name, first.name, a.name, esEvents[j].name, m, b.name, show(got), show(want))
						}
						n++
					}
				}
			}
			if x.over() {
				rt.Fail("[emit-over] %s: the session ended by emitting", x.name)
			}
			rt.Outcome("%d", n)
		}})

	// every sequence of packets against the callbacks registered
	type pk struct {
		p Pkt
		c engine.MessageType
	}
	var al []Pkt
	for typ := 0; typ <= 6; typ++ {
		if typ == 1 {
			continue // ends the session
		}
		al = append(al, Pkt{false, typ, ""}, Pkt{false, typ, "d"}, Pkt{true, typ, "\x00\xff"})
	}
	evName := map[int]string{1: "close", 2: "ping", 3: "pong", 4: "message", 5: "upgrade"}
	reg(&rt.Scenario{Name: "event-callbacks", Props: []string{"C31"}, Cfg: rt.Config{MaxSteps: 400000000, QuietLib: true}, N: 5 * len(al),
		Describe: func(v int) string { return fmt.Sprintf("%s, first %s", esNames[v%5], al[v/5]) },
		Run: func(v int) {
			x := newES(v % 5)
			var log []string
			var kept []Ev
			n := 0
			gen := map[int]int{} // the callback registered last, 0 for none
			set := func(kind int, then func()) {
				gen[kind]++
				x.on(kind, &esCall{name: fmt.Sprintf("%s%d", evName[kind], gen[kind]), log: &log, so: x.so, then: then, kept: &kept})
			}
			expect := func(p Pkt) []string {
				if x.cli && p.Type != 4 || p.Type == 5 || gen[p.Type] == 0 {
					return nil
				}
				t := 0
				if p.Bin {
					t = 1
				}
				return []string{fmt.Sprintf("%s%d(%d %q)", evName[p.Type], gen[p.Type], t, p.Data)}
			}
			// nothing registered, then some, then others in their place, then ones that register others
			for stage := 0; stage < 5; stage++ {
				switch stage {
				case 1:
					set(4, nil)
				case 2:
					set(2, nil)
					set(3, nil)
				case 3:
					set(4, nil)
					set(2, nil)
				case 4:
					for _, k := range []int{2, 3, 4} {
						k := k
						var again func()
						again = func() { set(k, again) }
						set(k, again)
					}
				}
				for _, q := range al {
					for _, p := range []Pkt{al[v/5], q} {
						want := expect(p)
						log = nil
						x.send(p)
						rt.Quiesce()
						if fmt.Sprint(log) != fmt.Sprint(want) {
							rt.Fail("[event-callbacks] %s: packet %s ran %v instead of %v", x.name, p, log, want)
						}
						var pongs []Pkt
						if p.Type == 2 && !x.cli {
							pongs = []Pkt{{p.Bin, 3, p.Data}}
						}
						if got := x.recv(); !pktsEqual(got, pongs) {
							rt.Fail("[event-reply] %s: packet %s was answered by %s", x.name, p, show(got))
						}
						n++
					}
				}
			}
			if x.over() {
				rt.Fail("[event-over] %s: the session is over", x.name)
			}
			// the end: its callback, once
			set(1, nil)
			for _, p := range []Pkt{{false, 1, "bye"}} {
				log = nil
				x.send(p)
				rt.Quiesce()
				if len(log) != 1 || log[0] != `close1(0 "bye")` {
					rt.Fail("[event-close] %s: packet %s ran %v", x.name, p, log)
				}
			}
			for _, e := range kept {
				e.still()
			}
			rt.Outcome("%d", n)
		}})
}

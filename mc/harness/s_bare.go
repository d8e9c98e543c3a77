package harness

import (
	"fmt"
	"net/http"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C26: a connection is set up whatever callbacks the application has, or has not, registered

var bareKinds = []string{"nothing registered", "another namespace registered", "the root namespace registered without callbacks", "a connect callback only", "an event handler only", "a disconnect and an error callback only"}

func bareSetup(k int, ns func(string) socketio.Namespace, log *[]string) {
	add := func(s string) { *log = append(*log, s); rt.Note("cb") }
	switch k {
	case 1:
		ns("/other").OnConnect(func(socketio.Socket) { add("connect /other") }).OnEvent("q", func() { add("q /other") })
	case 2:
		ns("/")
	case 3:
		ns("/").OnConnect(func(socketio.Socket) { add("connect") })
	case 4:
		ns("/").OnEvent("q", func(s string) { add("q " + s) })
	case 5:
		ns("/").OnDisconnect(func(socketio.Socket) { add("disconnect") }).OnError(func(_ socketio.Socket, err ...interface{}) { add(fmt.Sprint("error ", err)) })
	}
}

func runBare(v int) {
	k, mp, cli := v/4, v&1 != 0, v&2 != 0
	var log []string
	var p *SPeer
	var emit func(ev string, args ...interface{}) error
	if cli {
		c := socketio.NewClient()
		bareSetup(k, c.Namespace, &log)
		ListenPeer("h:80", func(w *WS, _ *http.Request) {
			q := &SPeer{W: w, MP: mp, Sid: "S1"}
			w.Send(Pkt{Data: openParamsJSON(bigI, bigT)})
			q.Pkt(0, "/", "", "")
			p = q
			rt.Note("peer up")
			q.read()
		})
		if err := c.Dial("ws://h/socket.io/", nil, engine.WebsocketTransport, parserOf(mp)); err != nil {
			rt.Fail("[dial] %v", err)
		}
		rt.Await("peer", func() bool { return p != nil })
		rt.Quiesce()
		emit = func(ev string, args ...interface{}) error { return c.Emit("/", ev, args...) }
	} else {
		s, err := socketio.NewServer(bigI, bigT, parserOf(mp))
		if err != nil {
			rt.Fail("[new] NewServer: %v", err)
		}
		var so socketio.Socket
		if k != 3 {
			bareSetup(k, s.Namespace, &log)
		} else {
			s.Namespace("/").OnConnect(func(x socketio.Socket) { log = append(log, "connect"); so = x; rt.Note("cb") })
		}
		p = (&Sio{Server: s, MP: mp}).Peer()
		rt.Quiesce()
		if g := p.Take(); gots(g) != "0/" {
			rt.Fail("[bare] %s: the greeting is %s", bareKinds[k], gots(g))
		}
		if so != nil {
			emit = so.Emit
		}
	}
	want := []string{}
	if k == 3 {
		want = append(want, "connect")
	}
	check := func(what string) {
		if fmt.Sprint(log) != fmt.Sprint(want) {
			rt.Fail("[bare] %s: after %s the callbacks run are %q instead of %q", bareKinds[k], what, log, want)
		}
		if p.Closed {
			rt.Fail("[bare] %s: %s ended the connection", bareKinds[k], what)
		}
	}
	check("the greeting")
	for i := 0; i < 2; i++ {
		if emit != nil {
			if err := emit("hi", "x", i); err != nil {
				rt.Fail("[bare] %s: Emit into the connected root namespace: %v", bareKinds[k], err)
			}
			if g := p.Take(); gots(g) != fmt.Sprintf(`2/ hi("x" %d)`, i) && gots(g) != fmt.Sprintf(`2/ hi("x",%d)`, i) {
				rt.Fail("[bare] %s: Emit sent %s", bareKinds[k], gots(g))
			}
			acked := ""
			if err := emit("req", func(s string) { acked = s; rt.Note("ack") }); err != nil {
				rt.Fail("[bare] %s: Emit with a callback: %v", bareKinds[k], err)
			}
			g := p.Take()
			if len(g) != 1 || g[0].ID == "" {
				rt.Fail("[bare] %s: Emit with a callback sent %s", bareKinds[k], gots(g))
			}
			p.Pkt(3, "/", g[0].ID, "", `"yes"`)
			rt.Quiesce()
			if acked != "yes" {
				rt.Fail("[bare] %s: the acknowledgement did not run its callback", bareKinds[k])
			}
		}
		p.Pkt(2, "/", "", "q", fmt.Sprintf(`"%d"`, i))
		rt.Quiesce()
		if k == 4 {
			want = append(want, fmt.Sprintf("q %d", i))
		}
		check("an event")
		p.Pkt(2, "/", "", "unknown")
		p.Pkt(4, "/", "", "", `"oops"`)
		rt.Quiesce()
		if k == 5 {
			want = append(want, "error [oops]")
		}
		check("an error packet")
		p.Take()
	}
	p.W.C.Close()
	rt.Quiesce()
	if k == 5 {
		want = append(want, "disconnect")
	}
	if fmt.Sprint(log) != fmt.Sprint(want) {
		rt.Fail("[bare] %s: after the end the callbacks run are %q instead of %q", bareKinds[k], log, want)
	}
	rt.Outcome("%v", log)
}

func init() {
	reg(&rt.Scenario{Name: "bare", Props: []string{"C26", "C24"}, Quick: 1, Thorough: 2, Cfg: rt.Config{QuietLib: true, MaxSteps: 1000000}, N: 4 * len(bareKinds),
		Describe: func(v int) string {
			return fmt.Sprintf("%s, msgpack %v, %s", []string{"server", "client"}[v/2%2], v&1 != 0, bareKinds[v/4])
		},
		Run: runBare})
}

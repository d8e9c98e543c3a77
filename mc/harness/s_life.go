package harness

import (
	"fmt"
	"strings"
	"time"

	"github.com/zyxar/socketio"

	"vmc/rt"
)

// ---- C24: connects and disconnects against everything that ends a connection, all schedules

type lifePlan struct {
	peer  []string // what the peer sends, in order: C connect /n, D disconnect /n, e event, E event on /n, d disconnect /
	ender string   // concurrently: "cut", "reset", "close packet", "close frame", "Close", "silence", ""
	cb    int      // 0 nothing, 1 connect callbacks call Close, 2 event callbacks call Close, 3 disconnect callbacks emit and Close, 4 connect callback of /n calls Close
	start bool     // from the very start of the connection
}

var lifePlans = func() (out []lifePlan) {
	enders := []string{"cut", "reset", "close packet", "close frame", "Close", "Close twice", "silence"}
	for i, e := range enders {
		out = append(out, lifePlan{peer: []string{"C", "E"}, ender: e, cb: []int{0, 3}[i&1]})
		out = append(out, lifePlan{peer: []string{"C", "D", "e"}, ender: e, cb: []int{3, 0}[i&1]})
		out = append(out, lifePlan{peer: []string{"E"}, ender: e, start: true, cb: 3})
		out = append(out, lifePlan{peer: []string{"C", "D", "C"}, ender: e, start: true})
	}
	for cb := 1; cb <= 4; cb++ {
		out = append(out, lifePlan{peer: []string{"C", "E", "e"}, cb: cb, ender: "silence"}, lifePlan{peer: []string{"C", "E", "D"}, cb: cb, ender: "Close", start: true})
	}
	out = append(out, lifePlan{peer: []string{"d", "e", "C", "E"}, ender: "Close"}, lifePlan{peer: []string{"C", "d"}, ender: "cut", cb: 3})
	return
}()

func (c lifePlan) String() string {
	return fmt.Sprintf("peer %v against %q, callbacks %s, from the start %v", c.peer, c.ender, []string{"idle", "close in connect", "close in event", "emit and close in disconnect", "close in connect of /n"}[c.cb], c.start)
}

func runLife(kind int, c lifePlan) {
	mp := kind&2 != 0
	var log []string
	busy := ""
	cb := func(f string, a ...interface{}) {
		log = append(log, fmt.Sprintf(f, a...))
		rt.Note("cb")
	}
	socks := map[string]socketio.Socket{}
	dialed := make(map[string]bool)
	setup := func(ns func(string) socketio.Namespace) {
		for _, n := range []string{"/", "/n"} {
			n := n
			ns(n).OnConnect(func(so socketio.Socket) {
				socks[n] = so
				cb("connect %s", n)
				so.Emit("hi")
				if c.cb == 1 || c.cb == 4 && n == "/n" {
					so.Close()
				}
				cb("connected %s", n)
			}).OnDisconnect(func(so socketio.Socket) {
				cb("disconnect %s", n)
				if c.cb == 3 {
					so.Emit("bye", 1)
					so.Close()
					so.Sid()
					so.RemoteAddr()
				}
				cb("disconnected %s", n)
			}).OnEvent("v", func(so socketio.Socket) {
				cb("event %s", n)
				so.Emit("re")
				if c.cb == 2 {
					so.Close()
				}
			}).OnError(func(so socketio.Socket, err ...interface{}) { rt.Note("nsp error") })
		}
	}
	_ = busy
	_ = dialed
	var p *SPeer
	const iv, to = 25 * time.Second, 60 * time.Second
	var srv *Sio
	var cli *SioCli
	open := func() {
		if kind&1 == 0 {
			srv = NewSio(iv, to, mp)
			setup(srv.Namespace)
			p = srv.Peer()
			p.NoPong = true
		} else {
			cli = DialSio("h", iv, to, mp, func(c *socketio.Client) { setup(c.Namespace) })
			p = cli.P
			p.NoPong = true
			p.Pkt(0, "/", "", "")
		}
	}
	if c.start {
		open()
	} else {
		rt.Atomically(func() { open(); rt.Quiesce() })
	}
	done := 0
	rt.HGo("peer", func() {
		for _, o := range c.peer {
			switch o {
			case "C":
				p.Pkt(0, "/n", "", "")
			case "D":
				p.Pkt(1, "/n", "", "")
			case "d":
				p.Pkt(1, "/", "", "")
			case "e":
				p.Pkt(2, "/", "", "v")
			case "E":
				p.Pkt(2, "/n", "3", "v")
			}
		}
		done++
		rt.Note("peer done")
	})
	rt.HGo("ender", func() {
		switch c.ender {
		case "cut":
			p.W.Close()
		case "reset":
			p.W.C.Reset()
		case "close packet":
			p.W.Send(Pkt{Type: 1})
		case "close frame":
			p.W.CloseFrame()
		case "Close", "Close twice":
			rt.Await("socket", func() bool { return socks["/"] != nil || len(rt.Live()) == 0 })
			if socks["/"] != nil {
				socks["/"].Close()
				if c.ender == "Close twice" {
					socks["/"].Close()
				}
			}
		}
		done++
		rt.Note("ender done")
	})
	sleep(1000 * time.Second)
	rt.Quiesce()
	if done != 2 {
		rt.Fail("[life-stuck] Close does not return; callbacks %q", log)
	}
	// each namespace: connect connected (events) disconnect disconnected, any number of times
	state := map[string]int{}
	conns := map[string]int{}
	depth := ""
	for i, l := range log {
		f := strings.Fields(l)
		n := f[1]
		bad := false
		switch f[0] {
		case "connect":
			bad = state[n] != 0 || depth != ""
			state[n], depth = 1, l
			conns[n]++
		case "connected":
			bad = depth != "connect "+n
			depth = ""
			state[n] = 2
		case "event":
			bad = state[n] != 2 || depth != ""
		case "disconnect":
			bad = state[n] != 2 || depth != ""
			depth = l
			state[n] = 3
		case "disconnected":
			bad = depth != "disconnect "+n
			depth = ""
			state[n] = 0
		}
		if bad {
			rt.Fail("[life-pair] callback %d (%s) is out of order: %q", i, l, log)
		}
	}
	for n, s := range state {
		if s != 0 {
			rt.Fail("[life-pair] connected to %s but not disconnected once the connection has ended: %q", n, log)
		}
	}
	maxN := strings.Count(strings.Join(c.peer, ""), "C")
	if conns["/"] > 1 || conns["/n"] > maxN {
		rt.Fail("[life-pair] too many connects: %q", log)
	}
	if kind&1 == 0 && conns["/"] != 1 {
		rt.Fail("[life-pair] no connect callback: %q", log)
	}
	for _, so := range socks {
		if so.Emit("late") == nil {
			rt.Fail("[life-late] Emit succeeds although the connection has ended")
		}
	}
	if srv != nil {
		srv.Server.Close()
	}
	rt.Quiesce()
	if l := rt.Live(); len(l) > 0 {
		rt.Fail("[life-leak] left after the end: %v", l)
	}
	if srv != nil {
		if n := weigh(srv.Server)["*engine.Socket"]; n > 0 {
			rt.Fail("[life-leak] the connection is kept after its end")
		}
	}
	rt.Outcome("%v", log)
}

func init() {
	reg(&rt.Scenario{Name: "lifecycle", Props: []string{"C24", "C33"}, Split: true, Quick: 1, Thorough: 2, Cfg: rt.Config{QuietLib: true}, N: 3 * len(lifePlans),
		Describe: func(v int) string { return sideName(v%3) + ", " + lifePlans[v/3].String() },
		Run:      func(v int) { runLife(v%3, lifePlans[v/3]) }})
}

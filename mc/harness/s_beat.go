package harness

import (
	"fmt"
	"net/http"
	"time"

	"vmc/rt"
)

// ---- C13: heartbeats in virtual time

const (
	beatI = 25 * time.Second
	beatT = 60 * time.Second
	beatW = beatI + beatT
)

func sleep(d time.Duration) { rt.AwaitFor("time", int64(d), func() bool { return false }) }

var beatGaps = []time.Duration{0, time.Second, 25 * time.Second, 60 * time.Second, beatW - time.Millisecond, beatW + time.Millisecond, 300 * time.Second}
var beatPkts = []Pkt{{Type: 2}, {Type: 2, Data: "probe"}, {true, 2, "\x00b"}, msg("m"), {Type: 6}, {Type: 3, Data: "p"}}

// beatConn is one end of the library with a peer that sends packets and sees what is sent.
type beatConn struct {
	send   func(p Pkt) bool // false: refused
	got    func() []Pkt
	closes func() int
	alive  func() bool // as the peer sees it
}

// beatServer: mode 0 polling, 1 websocket, 2 upgraded.
func beatServer(mode int) *beatConn {
	e := NewEng(beatI, beatT)
	switch mode {
	case 1:
		w, sid := e.WSSession()
		e.Sock(sid)
		u := &upCli{Sess: &Sess{E: e, Sid: sid}, w: w}
		rt.HGo("ws loop", u.wsLoop)
		return &beatConn{func(p Pkt) bool { return w.Send(p) == nil }, func() []Pkt { return u.wsGot }, func() int { return e.Count("close", sid) }, func() bool { return !u.wsClosed }}
	case 2:
		u := newUpCli(e, "")
		e.Sock(u.Sid)
		u.upgrade()
		rt.HGo("ws loop", u.wsLoop)
		return &beatConn{func(p Pkt) bool { return u.w.Send(p) == nil }, func() []Pkt { return u.wsGot }, func() int { return e.Count("close", u.Sid) }, func() bool { return !u.wsClosed }}
	}
	u := newUpCli(e, "")
	e.Sock(u.Sid)
	rt.HGo("poll loop", u.pollLoop)
	return &beatConn{func(p Pkt) bool { return u.Post(p).Code == 200 }, func() []Pkt { return u.Got }, func() int { return e.Count("close", u.Sid) }, func() bool { return !u.refused }}
}

func runBeat(mode int, seq []int) {
	b := beatServer(mode)
	last := rt.Now()
	alive := true
	var hist string
	for _, k := range seq {
		g, p := beatGaps[k%len(beatGaps)], beatPkts[k/len(beatGaps)]
		hist += fmt.Sprintf(" %v later %v,", g, p)
		if g >= beatW && alive {
			// not before the window has elapsed, and then
			sleep(beatW - time.Millisecond)
			rt.Quiesce()
			if n := b.closes(); n != 0 {
				rt.Fail("[beat-early] %s: closed %v after the last packet", hist, time.Duration(rt.Now()-last))
			}
			sleep(g - beatW + time.Millisecond)
			rt.Quiesce()
			if n := b.closes(); n != 1 || b.alive() {
				rt.Fail("[beat-late] %s: %v after the last packet, %d close events, the peer sees it open: %v", hist, time.Duration(rt.Now()-last), n, b.alive())
			}
			alive = false
		} else {
			sleep(g)
		}
		n := len(b.got())
		ok := b.send(p)
		rt.Quiesce()
		if !alive {
			if mode == 0 && ok {
				rt.Fail("[beat-late] %s: a packet is accepted after the timeout", hist)
			}
			if len(b.got()) != n {
				rt.Fail("[beat-late] %s: answered %s after the timeout", hist, show(b.got()[n:]))
			}
			continue
		}
		if !ok || b.closes() > 0 || !b.alive() {
			rt.Fail("[beat-early] %s: the session is over", hist)
		}
		last = rt.Now()
		var want []Pkt
		if p.Type == 2 {
			want = []Pkt{{p.Bin, 3, p.Data}}
		}
		if got := b.got()[n:]; !pktsEqual(got, want) {
			rt.Fail("[beat-pong] %s: answered %s, should be %s", hist, show(got), show(want))
		}
	}
	// the window runs from the last packet
	if alive {
		sleep(beatW - time.Millisecond)
		rt.Quiesce()
		if b.closes() != 0 {
			rt.Fail("[beat-early] %s then silence: closed before the window has elapsed", hist)
		}
		sleep(2 * time.Millisecond)
		rt.Quiesce()
		if b.closes() != 1 {
			rt.Fail("[beat-late] %s then silence: not closed when the window has elapsed", hist)
		}
	}
}

// what the server does towards a client, packet by packet
var cliGaps = []time.Duration{0, 10 * time.Second, beatW - time.Millisecond, beatW + time.Millisecond}
var cliPkts = []Pkt{{Type: 3}, msg("m"), {Type: 6}, {Type: 3, Data: "x"}}

func runCliBeat(seq []int) {
	var w *WS
	over := false
	var pings []int64
	ListenPeer("h:80", func(p *WS, _ *http.Request) {
		p.Send(Pkt{Data: openParamsJSON(beatI, beatT)})
		w = p
		rt.Note("peer")
		for {
			k, err := p.Recv()
			if err != nil {
				over = true
				rt.Note("peer over")
				p.Close()
				return
			}
			if k != (Pkt{Type: 2}) && k != (Pkt{Type: 2, Data: "null"}) {
				rt.Fail("[beat-client] the client sent %v", k)
			}
			pings = append(pings, rt.Now())
			rt.Note("ping")
		}
	})
	r, err := DialEng("ws://h:80/x/", nil, nil)
	if err != nil {
		rt.Fail("[dial] %v", err)
	}
	rt.Await("peer", func() bool { return w != nil })
	start := rt.Now()
	last, alive, end := start, true, int64(0)
	hist := ""
	wait := func(d time.Duration) {
		to := rt.Now() + int64(d)
		if alive && to > last+int64(beatW) {
			sleep(time.Duration(last + int64(beatW) - int64(time.Millisecond) - rt.Now()))
			rt.Quiesce()
			if over || r.Count("close") > 0 {
				rt.Fail("[beat-client] %s: the client gave up %v after the last packet", hist, time.Duration(rt.Now()-last))
			}
			sleep(2 * time.Millisecond)
			rt.Quiesce()
			if !over || r.Count("close") != 1 {
				rt.Fail("[beat-client] %s: the client has not given up %v after the last packet (%d close events)", hist, time.Duration(rt.Now()-last), r.Count("close"))
			}
			alive = false
			end = rt.Now()
		}
		if to > rt.Now() {
			sleep(time.Duration(to - rt.Now()))
		}
		rt.Quiesce()
	}
	for _, k := range seq {
		g, p := cliGaps[k%len(cliGaps)], cliPkts[k/len(cliGaps)]
		hist += fmt.Sprintf(" %v later %v,", g, p)
		wait(g)
		if w.Send(p) == nil && alive {
			last = rt.Now()
		}
		rt.Quiesce()
	}
	wait(200 * time.Second)
	// one ping per interval while it lived
	n := int((end - start) / int64(beatI))
	if len(pings) != n {
		rt.Fail("[beat-client] %s: %d pings in %v", hist, len(pings), time.Duration(end-start))
	}
	for i, t := range pings {
		if t != start+int64(i+1)*int64(beatI) {
			rt.Fail("[beat-client] %s: ping %d at %v", hist, i+1, time.Duration(t-start))
		}
	}
	if l := rt.Live(); len(l) > 0 {
		rt.Fail("[beat-client] %s: workers left: %v", hist, l)
	}
}

func init() {
	na, nc := len(beatGaps)*len(beatPkts), len(cliGaps)*len(cliPkts)
	reg(&rt.Scenario{Name: "beat-server", Props: []string{"C13"}, Cfg: rt.Config{QuietLib: true, MaxSteps: 50000000}, N: 3 * na,
		Describe: func(v int) string { return fmt.Sprintf("mode %d, first step %d", v%3, v/3) },
		Run: func(v int) {
			runBeat(v%3, []int{v / 3})
			n := 1
			for a := 0; a < na; a++ {
				runBeat(v%3, []int{v / 3, a})
				n++
			}
			rt.Count("sequences of packets and pauses", n)
		}})
	reg(&rt.Scenario{Name: "beat-steady", Props: []string{"C13"}, Cfg: rt.Config{QuietLib: true, MaxSteps: 50000000}, N: 3 * len(beatPkts),
		Describe: func(v int) string { return fmt.Sprintf("mode %d, %v for hours", v%3, beatPkts[v/3]) },
		Run: func(v int) {
			for g := range beatGaps {
				if beatGaps[g] > beatW {
					break
				}
				var seq []int
				for i := 0; i < 60; i++ {
					seq = append(seq, g+v/3*len(beatGaps))
				}
				runBeat(v%3, seq)
				rt.Count("sequences of packets and pauses", 1)
			}
		}})
	// the two halves of the library keep each other alive
	pairs := [][2]time.Duration{{beatI, beatT}, {time.Second, time.Second}, {60 * time.Second, time.Second}, {time.Second, 100 * time.Second}, {500 * time.Millisecond, 10 * time.Millisecond}}
	reg(&rt.Scenario{Name: "beat-pair", Props: []string{"C13"}, Cfg: rt.Config{QuietLib: true, MaxSteps: 50000000}, N: len(pairs),
		Describe: func(v int) string { return fmt.Sprintf("interval %v timeout %v", pairs[v][0], pairs[v][1]) },
		Run: func(v int) {
			e := NewEng(pairs[v][0], pairs[v][1])
			ListenServer("h:80", e)
			r, err := DialEng("ws://h:80/x/", nil, nil)
			if err != nil {
				rt.Fail("[dial] %v", err)
			}
			sleep(300*pairs[v][0] + pairs[v][0]/2)
			rt.Quiesce()
			if e.Count("close", "") > 0 || r.Count("close") > 0 {
				rt.Fail("[beat-pair] an idle connection was closed after %v", time.Duration(rt.Now()))
			}
			if n := e.Count("ping", ""); n != 300 {
				rt.Fail("[beat-pair] %d pings in %v", n, time.Duration(rt.Now()))
			}
		}})
	reg(&rt.Scenario{Name: "beat-server-deep", Props: []string{"C13"}, Quick: -1, Cfg: rt.Config{QuietLib: true, MaxSteps: 500000000}, N: 3 * na * na,
		Describe: func(v int) string { return fmt.Sprintf("mode %d, first steps %d %d", v%3, v/3%na, v/3/na) },
		Run: func(v int) {
			n := 0
			for a := 0; a < na; a++ {
				runBeat(v%3, []int{v / 3 % na, v / 3 / na, a})
				n++
			}
			rt.Count("sequences of packets and pauses", n)
		}})
	reg(&rt.Scenario{Name: "beat-client", Props: []string{"C13"}, Cfg: rt.Config{QuietLib: true}, N: nc * nc * nc,
		Describe: func(v int) string { return fmt.Sprintf("steps %d %d %d", v%nc, v/nc%nc, v/nc/nc) },
		Run: func(v int) {
			runCliBeat([]int{v % nc, v / nc % nc, v / nc / nc})
			rt.Count("sequences of packets and pauses", 1)
		}})
}

package harness

import (
	"fmt"
	"time"

	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C08, C09: upgrades by a conforming client

// upCli is a polling client that keeps polling and upgrades to websocket.
type upCli struct {
	*Sess
	w        *WS
	step     int // 1 asked, 2 connected, 3 probed, 4 probe answered, 5 polling drained, 6 upgrade sent
	pausing  bool
	polling  bool
	posting  bool
	upgraded bool
	wsGot    []Pkt
	wsClosed bool
	stop     bool
	refused  bool
}

func newUpCli(e *Eng, flav string) *upCli {
	return &upCli{Sess: e.OpenF(flav)}
}

func (u *upCli) to(step int) {
	u.step = step
	rt.Note(fmt.Sprintf("upgrade step %d", step))
}

// pollLoop polls until the client pauses polling for an upgrade.
func (u *upCli) pollLoop() {
	for wait := 50 * time.Millisecond; !u.pausing && !u.stop; {
		u.polling = true
		n := len(u.Got)
		ok := u.Poll()
		u.polling = false
		rt.Note("poll done")
		if !ok {
			u.refused = true
			return
		}
		if u.Got[n].Type == 6 {
			// the server asks for an end of polling; leave the upgrade time to go on
			rt.AwaitFor("upgrade to go on", int64(wait), func() bool { return u.pausing || u.stop })
			if rt.Naps() > 0 { // not for an hour
				wait *= 2
			}
		}
	}
}

// post sends packets by POST, one request at a time; false once polling is paused.
func (u *upCli) post(ps ...Pkt) bool {
	rt.Await("previous post", func() bool { return !u.posting })
	if u.pausing {
		return false
	}
	u.posting = true
	r := u.Post(ps...)
	u.posting = false
	rt.Note("posted")
	if r.Code != 200 {
		rt.Fail("[in-post] POST of %s answered %v", show(ps), r)
	}
	return true
}

// upgrade performs the client's part of an upgrade; it returns once the client may use the websocket.
func (u *upCli) upgrade() {
	u.to(1)
	rt.Nap()
	u.w = WSOpen(u.E, qWS+"&sid="+u.Sid, nil)
	if !u.w.Handshake() {
		rt.Fail("[upgrade] the websocket request is refused: %d", u.w.Status)
	}
	u.to(2)
	u.w.Send(Pkt{Type: 2, Data: "probe"})
	u.to(3)
	p, err := u.w.Recv()
	if err != nil || p != (Pkt{Type: 3, Data: "probe"}) {
		rt.Fail("[upgrade] probe answered %v (%v)", p, err)
	}
	u.pausing = true
	u.to(4)
	rt.Await("polling drained", func() bool { return !u.polling && !u.posting })
	u.to(5)
	u.w.Send(Pkt{Type: 5})
	u.upgraded = true
	u.to(6)
}

// wsLoop collects what arrives over the websocket.
func (u *upCli) wsLoop() {
	for {
		p, err := u.w.Recv()
		if err != nil {
			u.wsClosed = true
			rt.Note("ws over")
			return
		}
		u.wsGot = append(u.wsGot, p)
		rt.Note("ws received")
	}
}

// arrived is what the application got, polling first.
func (u *upCli) arrived() []Pkt {
	return append(messages(u.Got), messages(u.wsGot)...)
}

// settled checks that the session lives on the websocket: both directions work.
func (u *upCli) settled(code string) {
	so := u.E.Socks[u.Sid]
	if u.refused {
		rt.Fail("[%s] a poll of the conforming client was refused: %v", code, u.Errs)
	}
	if n := u.E.Count("close", u.Sid); n > 0 || u.wsClosed {
		rt.Fail("[%s-close] the upgrade ended the session (%d close events, websocket closed %v)", code, n, u.wsClosed)
	}
	n, m := len(u.wsGot), len(u.E.Got(u.Sid))
	if err := emit(so, msg("after")); err != nil {
		rt.Fail("[%s] Emit after the upgrade: %v", code, err)
	}
	u.w.Send(bmsg("back"))
	rt.Quiesce()
	if l := u.wsGot[n:]; len(l) != 1 || l[0] != msg("after") {
		rt.Fail("[%s] a message emitted after the upgrade arrives as %s", code, show(l))
	}
	if l := u.E.Got(u.Sid)[m:]; len(l) != 1 || l[0] != bmsg("back") {
		rt.Fail("[%s] a message sent after the upgrade is delivered as %s", code, show(l))
	}
}

type upOut struct {
	name  string
	pre   int
	lists []int
	at    []int // step at which each emitter starts (0: at once)
	idle  bool  // no poll pending when the upgrade starts
	flav  string
	tight bool // a nap is longer than the server's write timeout
}

var upOuts = func() (out []upOut) {
	for _, pre := range []int{0, 1, 4, 9, 17} {
		out = append(out, upOut{name: "one emitter", pre: pre, lists: []int{2}, at: []int{0}})
	}
	out = append(out, upOut{name: "two emitters", lists: []int{2, 1}, at: []int{0, 0}})
	out = append(out, upOut{name: "two emitters", lists: []int{1, 1}, at: []int{0, 3}, flav: "&b64=1"})
	for at := 1; at <= 6; at++ {
		out = append(out, upOut{name: "one emitter", lists: []int{2}, at: []int{at}})
	}
	out = append(out, upOut{name: "no poll pending", pre: 3, lists: []int{1}, at: []int{2}, idle: true},
		upOut{name: "no poll pending", pre: 17, lists: []int{1}, at: []int{0}, idle: true},
		upOut{name: "connection queue full", pre: 9, lists: []int{1, 1}, at: []int{0, 4}},
		upOut{name: "emitters around the switch", lists: []int{1, 1}, at: []int{4, 6}},
		upOut{name: "emitters around the switch", pre: 9, lists: []int{1, 1}, at: []int{5, 6}, idle: true},
		upOut{name: "slow client, no poll pending", pre: 2, lists: []int{1}, at: []int{2}, idle: true, tight: true},
		upOut{name: "slow client", pre: 3, lists: []int{1}, at: []int{4}, tight: true},
		upOut{name: "slow client", lists: []int{1, 1}, at: []int{0, 6}, tight: true})
	return
}()

func (c upOut) String() string {
	return fmt.Sprintf("%s %v from steps %v, %d queued, %s idle=%v", c.name, c.lists, c.at, c.pre, c.flav, c.idle)
}

func runUpOut(c upOut) {
	timeout := bigT
	if c.tight {
		timeout = nap * 3 / 4
	}
	e := NewEng(bigI, timeout)
	var u *upCli
	var so *engine.Socket
	pre := tags("p", c.pre)
	rt.Atomically(func() {
		u = newUpCli(e, c.flav)
		so = e.Sock(u.Sid)
		rt.Quiesce()
		for _, p := range pre {
			if err := emit(so, p); err != nil {
				rt.Fail("[out-emit] Emit: %v", err)
			}
		}
		rt.Quiesce()
	})
	em := &emitters{n: len(c.lists), ok: make([][]Pkt, len(c.lists))}
	var lists [][]Pkt
	for i, n := range c.lists {
		i, l, at := i, tags(string(rune('a'+i)), n), c.at[i]
		lists = append(lists, l)
		rt.HGo(fmt.Sprintf("emitter %d", i), func() {
			if at > 0 {
				rt.Await("upgrade step", func() bool { return u.step >= at })
			}
			for _, p := range l {
				if err := emit(so, p); err == nil {
					em.ok[i] = append(em.ok[i], p)
				}
				rt.Note("emitted")
			}
			em.done++
			rt.Note("emitter done")
		})
	}
	if !c.idle {
		rt.HGo("poll loop", u.pollLoop)
	}
	u.upgrade()
	rt.HGo("ws loop", u.wsLoop)
	rt.Quiesce()
	if !em.finished() {
		rt.Fail("[up-out] an Emit never returns although the client keeps reading (%d of %d emitters done)", em.done, em.n)
	}
	em.allOK("up-out", lists)
	flow("up-out", append([][]Pkt{pre}, em.ok...), u.arrived(), true)
	u.settled("up-out")
	rt.Outcome("%s | %s", show(u.Got), show(u.wsGot))
}

type upIn struct {
	name  string
	posts [][]Pkt // requests, one after the other
	ws    int     // messages over the websocket, right after the upgrade packet
	yield int
	late  bool // the posts start when the probe has been answered... or as soon as the loop gets there
	idle  bool // no polling
	emits bool // callbacks emit
}

var upIns = []upIn{
	{name: "one post", posts: [][]Pkt{tags("a", 1)}, ws: 1, yield: 1},
	{name: "post of three", posts: [][]Pkt{tags("a", 3)}, ws: 2, yield: 2},
	{name: "two posts", posts: [][]Pkt{tags("a", 2), tags("b", 2)}, ws: 1, yield: 2},
	{name: "slow callback", posts: [][]Pkt{tags("a", 3), tags("b", 1)}, ws: 2, yield: 2},
	{name: "no post", ws: 3, yield: 1},
	{name: "posts while probing", posts: [][]Pkt{tags("a", 2), tags("b", 1)}, ws: 1, yield: 2, late: true},
	{name: "not polling", posts: [][]Pkt{tags("a", 2), tags("b", 1)}, ws: 2, yield: 2, idle: true},
	{name: "six in flight", posts: [][]Pkt{tags("a", 6)}, ws: 1, yield: 2},
	{name: "callbacks emit", posts: [][]Pkt{tags("a", 2)}, ws: 2, yield: 1, emits: true},
	{name: "more than the session buffers", posts: [][]Pkt{tags("a", 12)}, ws: 1, yield: 2},
	{name: "more than the session buffers, twice", posts: [][]Pkt{tags("a", 10), tags("b", 9)}, ws: 2, yield: 1, late: true},
	{name: "more than the session buffers, callbacks emit", posts: [][]Pkt{tags("a", 20)}, ws: 1, emits: true},
	{name: "ping among the messages", posts: [][]Pkt{{msg("a"), {Type: 2, Data: "hb"}, msg("b")}}, ws: 1, yield: 1},
	{name: "control packets behind messages", posts: [][]Pkt{{msg("a"), msg("b"), bmsg("c"), {Type: 2, Data: "hb"}, msg("d"), {Type: 3}}}, ws: 1, yield: 2},
}

func runUpIn(c upIn) {
	e := NewEng(bigI, bigT)
	e.OnMsg = func(so *engine.Socket, bin bool, data string) {
		for i := 0; i < c.yield; i++ {
			rt.Yield()
		}
		if c.emits {
			emit(so, msg("re "+data))
		}
	}
	var u *upCli
	rt.Atomically(func() {
		u = newUpCli(e, "")
		e.Sock(u.Sid)
		rt.Quiesce()
	})
	var sent []Pkt
	done := false
	rt.HGo("poster", func() {
		if c.late {
			rt.Await("probe", func() bool { return u.step >= 3 })
		}
		for _, l := range c.posts {
			if u.post(l...) {
				sent = append(sent, messages(l)...)
			}
		}
		done = true
		rt.Note("posts done")
	})
	if !c.idle {
		rt.HGo("poll loop", u.pollLoop)
	}
	u.upgrade()
	for _, p := range tags("w", c.ws) {
		u.w.Send(p)
		sent = append(sent, p)
	}
	rt.HGo("ws loop", u.wsLoop)
	rt.Quiesce()
	if !done {
		rt.Fail("[up-in] a POST is never answered")
	}
	if got := e.Got(u.Sid); !pktsEqual(got, sent) {
		rt.Fail("[up-in] the client sent %s, delivered %s", show(sent), show(got))
	}
	if n := e.Count("upgrade", u.Sid); n != 1 {
		rt.Fail("[up-event] the upgrade event fired %d times", n)
	}
	if c.emits {
		var want []Pkt
		for _, p := range sent {
			want = append(want, msg("re "+p.Data))
		}
		if got := u.arrived(); !pktsEqual(got, want) {
			rt.Fail("[up-in] the callbacks emitted %s, arrived %s", show(want), show(got))
		}
	}
	e.OnMsg = nil
	u.settled("up-in")
	// the session id is still known, and is not a polling session any more
	if r := Do(e, Req{Method: "GET", Query: qPoll + "&sid=" + u.Sid}); r.Code == 200 {
		rt.Fail("[up-in] a poll of the upgraded session is answered %v", r)
	}
	u.settled("up-in")
	rt.Outcome("%s", show(e.Got(u.Sid)))
}

func init() {
	reg(&rt.Scenario{Name: "upgrade-out", Props: []string{"C08"}, Split: true, Quick: 2, Thorough: 3, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: len(upOuts),
		Describe: func(v int) string { return upOuts[v].String() },
		Run:      func(v int) { runUpOut(upOuts[v]) }})
	reg(&rt.Scenario{Name: "upgrade-in", Props: []string{"C09"}, Split: true, Quick: 2, Thorough: 3, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: len(upIns),
		Describe: func(v int) string { return upIns[v].name },
		Run:      func(v int) { runUpIn(upIns[v]) }})
}

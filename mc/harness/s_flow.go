package harness

import (
	"fmt"
	"strings"

	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C06, C07: messages of a session staying on one transport, all schedules

func tags(prefix string, n int) (ps []Pkt) {
	for i := 0; i < n; i++ {
		ps = append(ps, Pkt{i&1 == 1, 4, fmt.Sprintf("%s%d", prefix, i)})
	}
	return
}

func isSubseq(want, got []Pkt) bool {
	for _, g := range got {
		if len(want) > 0 && want[0] == g {
			want = want[1:]
		}
	}
	return len(want) == 0
}

func sameSet(a, b []Pkt) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[Pkt]int{}
	for _, p := range a {
		m[p]++
	}
	for _, p := range b {
		m[p]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return true
}

// flow judges what arrived against what each goroutine emitted successfully.
func flow(code string, sent [][]Pkt, got []Pkt, ordered bool) {
	var all []Pkt
	for _, l := range sent {
		all = append(all, l...)
	}
	if !sameSet(all, got) {
		rt.Fail("[%s] sent %v, arrived %s", code, showAll(sent), show(got))
	}
	if ordered {
		for _, l := range sent {
			if !isSubseq(l, got) {
				rt.Fail("[%s-order] one goroutine sent %s, arrived %s", code, show(l), show(got))
			}
		}
	}
}

func showAll(l [][]Pkt) string {
	var s []string
	for _, x := range l {
		s = append(s, show(x))
	}
	return strings.Join(s, " | ")
}

// emitters starts one goroutine per list; ok collects what was emitted successfully.
type emitters struct {
	ok   [][]Pkt
	done int
	n    int
}

func startEmitters(so *engine.Socket, lists [][]Pkt) *emitters {
	em := &emitters{ok: make([][]Pkt, len(lists)), n: len(lists)}
	for i, l := range lists {
		i, l := i, l
		rt.HGo(fmt.Sprintf("emitter %d", i), func() {
			for _, p := range l {
				if err := emit(so, p); err == nil {
					em.ok[i] = append(em.ok[i], p)
				}
				rt.Note("emitted")
			}
			em.done++
			rt.Note("emitter done")
		})
	}
	return em
}

func (em *emitters) finished() bool { return em.done == em.n }

func (em *emitters) allOK(code string, lists [][]Pkt) {
	for i := range lists {
		if len(em.ok[i]) != len(lists[i]) {
			rt.Fail("[%s-emit] %d of %d emits succeeded on a live session", code, len(em.ok[i]), len(lists[i]))
		}
	}
}

type emitVar struct {
	name  string
	pre   int   // messages emitted before anybody reads
	lists []int // messages of each concurrent emitter
	poll  int   // pollers, 0: websocket
	slow  int   // websocket: bytes in flight
	flav  string
	reply int // messages posted/sent by the client meanwhile, each answered by the callback, with a ping among them
}

var emitVars = []emitVar{
	{name: "two emitters", lists: []int{2, 2}, poll: 1},
	{name: "two emitters, base64", lists: []int{2, 1}, poll: 1, flav: "&b64=1"},
	{name: "three emitters", lists: []int{1, 1, 1}, poll: 1},
	{name: "two emitters, two pollers", lists: []int{2, 2}, poll: 2},
	{name: "one emitter, three pollers", lists: []int{4}, poll: 3},
	{name: "queue half full", pre: 6, lists: []int{1, 1}, poll: 1},
	{name: "connection queue full", pre: 9, lists: []int{2, 1}, poll: 1},
	{name: "all queues full", pre: 17, lists: []int{1, 1}, poll: 1},
	{name: "all queues full, two pollers", pre: 17, lists: []int{1}, poll: 2},
	{name: "replies from callbacks", lists: []int{2}, poll: 1, reply: 2},
	{name: "replies from callbacks, queues full", pre: 16, lists: []int{1}, poll: 1, reply: 2},
	{name: "websocket, two emitters", lists: []int{2, 2}},
	{name: "websocket, three emitters", lists: []int{2, 1, 1}},
	{name: "websocket, slow reader", lists: []int{2, 2}, slow: 5},
	{name: "websocket, slow reader, queue full", pre: 8, lists: []int{2, 2}, slow: 3},
	{name: "websocket, replies", lists: []int{2}, reply: 2},
	{name: "websocket, replies, slow reader", lists: []int{2, 1}, reply: 2, slow: 4},
}

func runEmit(c emitVar) {
	e := NewEng(bigI, bigT)
	replies := []Pkt{}
	e.OnMsg = func(so *engine.Socket, bin bool, data string) {
		p := Pkt{bin, 4, "re " + data}
		if err := emit(so, p); err == nil {
			replies = append(replies, p)
		}
		rt.Note("replied")
	}
	var so *engine.Socket
	var w *WS
	s := &Sess{E: e}
	rt.Atomically(func() {
		if c.poll == 0 {
			w, s.Sid = e.WSSession()
			if c.slow > 0 {
				w.S.LimitOut(c.slow)
			}
		} else {
			s = e.OpenF(c.flav)
		}
		so = e.Sock(s.Sid)
		rt.Quiesce()
	})
	var lists [][]Pkt
	for i, n := range c.lists {
		lists = append(lists, tags(string(rune('a'+i)), n))
	}
	pre := tags("p", c.pre)
	rt.Atomically(func() {
		for _, p := range pre {
			if err := emit(so, p); err != nil {
				rt.Fail("[out-emit] Emit: %v", err)
			}
		}
		rt.Quiesce()
	})
	em := startEmitters(so, lists)
	var got []Pkt
	if c.poll == 0 {
		rt.HGo("reader", func() {
			for {
				p, err := w.Recv()
				if err != nil {
					rt.Fail("[out] the session ended: %v", err)
				}
				got = append(got, p)
				rt.Note("received")
			}
		})
	}
	for i := 0; i < c.poll; i++ {
		rt.HGo(fmt.Sprintf("poller %d", i), func() {
			for s.Poll() {
			}
			rt.Fail("[out] poll refused: %v", s.Errs)
		})
	}
	sent := 0
	if c.reply > 0 {
		ms := append(tags("m", c.reply), Pkt{false, 2, "hb"})
		ms[c.reply-1], ms[c.reply] = ms[c.reply], ms[c.reply-1] // the ping goes before the last message
		for _, p := range ms {
			if c.poll == 0 {
				w.Send(p)
			} else if r := s.Post(p); r.Code != 200 {
				rt.Fail("[in-post] POST answered %v", r)
			}
			sent++
		}
	}
	rt.Quiesce()
	if !em.finished() || len(replies) != c.reply {
		rt.Fail("[out] an Emit never returns although the client keeps reading (%d of %d emitters done)", em.done, em.n)
	}
	em.allOK("out", lists)
	if c.poll > 0 {
		got = s.Got
	}
	want := append([][]Pkt{pre, replies}, em.ok...)
	if c.reply > 0 {
		want = append(want, []Pkt{{false, 3, "hb"}})
	}
	flow("out", want, got, c.poll <= 1)
	rt.Outcome("%s", show(got))
}

type postVar struct {
	name  string
	posts [][]Pkt // overlapping POSTs of one session (or single-packet websocket sends, see ws)
	two   bool    // a second session posts the same, marked
	ws    bool
	yield int // scheduling points within the callback
	text  bool
	reply bool // callbacks emit, nobody polls
}

var postVars = []postVar{
	{name: "two overlapping posts", posts: [][]Pkt{tags("a", 2), tags("b", 2)}, yield: 1},
	{name: "two overlapping text posts", posts: [][]Pkt{tags("a", 2), tags("b", 1)}, yield: 1, text: true},
	{name: "three overlapping posts", posts: [][]Pkt{tags("a", 1), tags("b", 1), tags("c", 2)}, yield: 1},
	{name: "more than the buffer", posts: [][]Pkt{tags("a", 10), tags("b", 2)}, yield: 1},
	{name: "more than the buffer, slow callback", posts: [][]Pkt{tags("a", 11)}, yield: 3},
	{name: "empty data and other packets", posts: [][]Pkt{{msg(""), {Type: 3, Data: "x"}, bmsg("")}, {{Type: 6}, msg("b"), {Type: 2, Data: "hb"}}}, yield: 1},
	{name: "two sessions", posts: [][]Pkt{tags("a", 2)}, two: true, yield: 2},
	{name: "two sessions, overlapping posts", posts: [][]Pkt{tags("a", 2), tags("b", 1)}, two: true, yield: 1},
	{name: "websocket", posts: [][]Pkt{tags("a", 4)}, ws: true, yield: 2},
	{name: "websocket, two sessions", posts: [][]Pkt{tags("a", 3)}, ws: true, two: true, yield: 1},
	{name: "callbacks emit", posts: [][]Pkt{tags("a", 2), tags("b", 2)}, yield: 1, reply: true},
}

func runPosts(c postVar) {
	e := NewEng(bigI, bigT)
	e.OnMsg = func(so *engine.Socket, bin bool, data string) {
		for i := 0; i < c.yield; i++ {
			rt.Yield()
		}
		if c.reply {
			emit(so, msg(data))
		}
	}
	type one struct {
		s *Sess
		w *WS
	}
	var ss []one
	rt.Atomically(func() {
		n := 1
		if c.two {
			n = 2
		}
		for i := 0; i < n; i++ {
			var o one
			if c.ws {
				w, sid := e.WSSession()
				o = one{&Sess{E: e, Sid: sid}, w}
			} else {
				o.s = e.Open()
				if c.text {
					o.s.Flav = "&b64=1"
				}
			}
			e.Sock(o.s.Sid)
			ss = append(ss, o)
		}
		rt.Quiesce()
	})
	total, done := 0, 0
	mark := func(l []Pkt, i int) (out []Pkt) {
		for _, p := range l {
			if i > 0 && p.Type == 4 {
				p.Data += "'"
			}
			out = append(out, p)
		}
		return
	}
	for i, o := range ss {
		for _, l := range c.posts {
			l := mark(l, i)
			o := o
			total++
			rt.HGo("client", func() {
				if c.ws {
					for _, p := range l {
						o.w.Send(p)
					}
				} else if r := o.s.Post(l...); r.Code != 200 {
					rt.Fail("[in-post] POST of %s answered %v", show(l), r)
				}
				done++
				rt.Note("posted")
			})
		}
	}
	rt.Quiesce()
	if done != total {
		rt.Fail("[in-post] %d of %d requests are never answered", total-done, total)
	}
	for i, o := range ss {
		var sent [][]Pkt
		for _, l := range c.posts {
			sent = append(sent, messages(mark(l, i)))
		}
		flow("in", sent, e.Got(o.s.Sid), true)
		if e.Count("close", o.s.Sid) > 0 {
			rt.Fail("[in-close] the session was closed")
		}
	}
	rt.Outcome("%v", e.Evs)
}

func init() {
	reg(&rt.Scenario{Name: "emit-flow", Split: true, Props: []string{"C06"}, Quick: 2, Thorough: 3, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: len(emitVars),
		Describe: func(v int) string { return emitVars[v].name },
		Run:      func(v int) { runEmit(emitVars[v]) }})
	reg(&rt.Scenario{Name: "post-flow", Props: []string{"C07"}, Quick: 2, Thorough: 3, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: len(postVars),
		Describe: func(v int) string { return postVars[v].name },
		Run:      func(v int) { runPosts(postVars[v]) }})
}

package harness

import (
	"fmt"
	"strings"

	"github.com/zyxar/socketio"

	"vmc/rt"
)

// ---- C25, C21: concurrent emitters on one connection, all schedules

// live is one connected side with its sockets by namespace.
type live struct {
	s     *SSide
	p     *SPeer
	socks map[string]socketio.Socket
	cbs   []string
}

func (l *live) cb(f string, a ...interface{}) {
	l.cbs = append(l.cbs, fmt.Sprintf(f, a...))
	rt.Note("cb")
	rt.Nap()
}

func bytesArg(mp bool, s string) interface{} {
	if mp {
		return []byte(s)
	}
	return &socketio.Bytes{Data: []byte(s)}
}

// newLive connects namespaces "/" and "/n" on the given kind of side; no scheduling decisions are taken.
func newLive(kind int, more func(l *live, ns func(string) socketio.Namespace)) *live {
	l := &live{socks: map[string]socketio.Socket{}}
	rt.Atomically(func() {
		l.s = newSSide(kind, func(ns func(string) socketio.Namespace) {
			for _, n := range []string{"/", "/n"} {
				n := n
				ns(n).OnConnect(func(so socketio.Socket) {
					if l.socks[n] == nil {
						l.socks[n] = so
					}
					rt.Note("connect")
				})
			}
			if more != nil {
				more(l, ns)
			}
		})
		l.p = l.s.Peers[0]
		l.p.Pkt(0, "/n", "", "")
		l.p.Take()
		if l.socks["/"] == nil || l.socks["/n"] == nil {
			rt.Fail("[setup] no connect callback")
		}
	})
	return l
}

type emitOp struct {
	nsp, ev string
	args    []string // JSON strings' contents, or "bin:..."
}

func (o emitOp) want() string {
	var a []string
	for _, s := range o.args {
		if strings.HasPrefix(s, "bin:") {
			a = append(a, s)
		} else {
			a = append(a, canon(s))
		}
	}
	return fmt.Sprintf("2%s %s(%s)", o.nsp, o.ev, strings.Join(a, " "))
}

func (l *live) emit(o emitOp, fn ...interface{}) error {
	var a []interface{}
	for _, s := range o.args {
		if strings.HasPrefix(s, "bin:") {
			a = append(a, bytesArg(l.s.MP, s[4:]))
		} else {
			a = append(a, s)
		}
	}
	a = append(a, fn...)
	return l.socks[o.nsp].Emit(o.ev, a...)
}

// emitPlans: what each goroutine emits.
var emitPlans = [][][]emitOp{
	{{{"/", "a", []string{"bin:A1", "bin:A2"}}}, {{"/", "b", []string{"bin:B1"}}}},
	{{{"/", "a", []string{"bin:A1", "x", "bin:A2"}}}, {{"/n", "b", []string{"bin:B1"}}, {"/", "c", nil}}},
	{{{"/n", "a", []string{"bin:A1"}}, {"/", "a2", []string{"bin:A2"}}}, {{"/", "c", []string{"y"}}, {"/n", "b", []string{"bin:B1", "bin:B2"}}}},
	{{{"/", "a", []string{"bin:A1"}}}, {{"/", "b", []string{"bin:B1"}}}, {{"/n", "c", []string{"bin:C1"}}}},
	{{{"/", "a", []string{"bin:A1", "bin:A2", "bin:A3"}}}, {{"/n", "b", nil}}, {{"/", "c", []string{"z"}}}},
}

func framesVariant(v int) (kind, plan, mode int) {
	n := 2 * len(emitPlans) * 3
	if v >= n { // a msgpack packet is one frame: fewer of those
		v -= n
		return 2 + v&1, 1, v / 2
	}
	return v & 1, v / 2 % len(emitPlans), v / 2 / len(emitPlans)
}

func subseq(want, got []string) bool {
	for _, g := range got {
		if len(want) > 0 && want[0] == g {
			want = want[1:]
		}
	}
	return len(want) == 0
}

func init() {
	reg(&rt.Scenario{Name: "emit-frames", Props: []string{"C25"}, Quick: 2, Thorough: 3, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: 2*len(emitPlans)*3 + 4,
		Describe: func(v int) string {
			k, pl, m := framesVariant(v)
			return fmt.Sprintf("%s, plan %d, %s", sideName(k), pl, []string{"emitters only", "with an acknowledged request", "with a small send window"}[m])
		},
		Run: func(v int) {
			kind, pl, mode := framesVariant(v)
			plan := emitPlans[pl]
			mp := kind&2 != 0
			l := newLive(kind, func(l *live, ns func(string) socketio.Namespace) {
				for _, n := range []string{"/", "/n"} {
					if mp {
						ns(n).OnEvent("q", func(b []byte) ([]byte, []byte) { rt.Nap(); return b, []byte("R2") })
					} else {
						ns(n).OnEvent("q", func(b *socketio.Bytes) (*socketio.Bytes, *socketio.Bytes) {
							rt.Nap()
							return b, &socketio.Bytes{Data: []byte("R2")}
						})
					}
				}
			})
			if mode == 2 {
				l.p.W.S.LimitOut(7)
			}
			done, total := 0, 0
			for i, ops := range plan {
				ops := ops
				total += len(ops)
				rt.HGo(fmt.Sprintf("emitter %d", i), func() {
					for _, o := range ops {
						if err := l.emit(o); err != nil {
							rt.Fail("[emit] Emit %s: %v", o.want(), err)
						}
					}
					done++
					rt.Note("emitted")
				})
			}
			if mode == 1 {
				l.p.Pkt(2, "/n", "7", "q", "bin:Q")
				l.p.Pkt(2, "/", "8", "q", "bin:P")
				total += 2
			}
			rt.Await("emitters", func() bool { return done == len(plan) })
			var got []string
			for _, g := range l.p.Take() {
				got = append(got, g.String())
			}
			if len(got) != total {
				rt.Fail("[mixed] %d packets emitted, the peer decodes %q", total, got)
			}
			seqs := [][]string{}
			for _, ops := range plan {
				var w []string
				for _, o := range ops {
					w = append(w, o.want())
				}
				seqs = append(seqs, w)
			}
			if mode == 1 {
				seqs = append(seqs, []string{"3/n#7 (bin:Q bin:R2)", "3/#8 (bin:P bin:R2)"})
			}
			for _, w := range seqs {
				if !subseq(w, got) {
					rt.Fail("[mixed] one goroutine emitted %q, the peer decodes %q", w, got)
				}
			}
			if len(l.p.Ctl) > 0 || len(l.s.Errs()) > 0 {
				rt.Fail("[mixed] errors %v, control packets %v", l.s.Errs(), l.p.Ctl)
			}
			rt.Outcome("%v", got)
		}})

	// concurrent requests: distinct ids, each callback runs once with its own answer
	type areq struct{ nsp, tag string }
	ackPlans := [][][]areq{
		{{{"/", "a"}, {"/", "b"}}, {{"/", "c"}}},
		{{{"/", "a"}, {"/n", "b"}}, {{"/n", "c"}, {"/", "d"}}},
		{{{"/", "a"}}, {{"/", "b"}}, {{"/n", "c"}}},
	}
	reg(&rt.Scenario{Name: "emit-acks", Props: []string{"C21"}, Quick: 2, Thorough: 3, Cfg: rt.Config{QuietLib: true, Nap: nap}, N: 4 * len(ackPlans) * 3,
		Describe: func(v int) string {
			return fmt.Sprintf("%s, plan %d, %s", sideName(v&3), v/4%len(ackPlans), []string{"answered at once", "answered in reverse, twice", "namespace left meanwhile"}[v/4/len(ackPlans)])
		},
		Run: func(v int) {
			plan, mode := ackPlans[v/4%len(ackPlans)], v/4/len(ackPlans)
			l := newLive(v&3, nil)
			ran := map[string]int{}
			running := map[string]bool{}
			done, total := 0, 0
			failed := map[string]bool{}
			for i, rs := range plan {
				rs := rs
				total += len(rs)
				rt.HGo(fmt.Sprintf("emitter %d", i), func() {
					for _, q := range rs {
						q := q
						err := l.emit(emitOp{nsp: q.nsp, ev: q.tag}, func(ans string) {
							if running[q.tag] {
								rt.Fail("[ack] the callback of request %s runs twice at once", q.tag)
							}
							running[q.tag] = true
							ran[q.tag]++
							if ans != "re "+q.tag {
								rt.Fail("[ack] the callback of request %s runs with the answer %q", q.tag, ans)
							}
							l.cb("ack %s", q.tag)
							running[q.tag] = false
						})
						if err != nil {
							if mode != 2 || q.nsp != "/n" {
								rt.Fail("[emit] Emit %s: %v", q.tag, err)
							}
							failed[q.tag] = true
						}
					}
					done++
					rt.Note("emitted")
				})
			}
			answered := 0
			ids := map[string]string{}
			check := func(g SGot) {
				if g.Typ != 2 || g.ID == "" {
					rt.Fail("[ack] request sent as %s", g)
				}
				if o, ok := ids[g.ID]; ok {
					rt.Fail("[ack-id] requests %s and %s carry the same id %s", o, g.Ev, g.ID)
				}
				ids[g.ID] = g.Ev
			}
			switch mode {
			case 0:
				for answered < total {
					rt.Await("request", func() bool { return len(l.p.Got) > answered })
					for answered < len(l.p.Got) {
						g := l.p.Got[answered]
						check(g)
						l.p.Pkt(3, g.Nsp, g.ID, "", canon("re "+g.Ev))
						answered++
					}
				}
			case 1:
				rt.Await("emitters", func() bool { return done == len(plan) })
				gs := l.p.Take()
				for _, g := range gs {
					check(g)
				}
				for k := 0; k < 2; k++ {
					for i := len(gs) - 1; i >= 0; i-- {
						l.p.Pkt(3, gs[i].Nsp, gs[i].ID, "", canon("re "+gs[i].Ev))
					}
				}
				answered = len(gs)
			case 2:
				// the peer leaves /n while requests go out, and answers them all afterwards
				l.p.Pkt(1, "/n", "", "")
				rt.Await("emitters", func() bool { return done == len(plan) })
				gs := l.p.Take()
				for _, g := range gs {
					check(g)
					l.p.Pkt(3, g.Nsp, g.ID, "", canon("re "+g.Ev))
				}
				answered = len(gs)
			}
			rt.Await("emitters", func() bool { return done == len(plan) })
			rt.Quiesce()
			if mode < 2 && answered != total {
				rt.Fail("[ack] %d requests made, %d sent", total, answered)
			}
			for _, rs := range plan {
				for _, q := range rs {
					want := 1
					if mode == 2 && q.nsp == "/n" {
						want = 0
					}
					if ran[q.tag] != want {
						rt.Fail("[ack] the callback of request %s in %s ran %d times (should be %d)", q.tag, q.nsp, ran[q.tag], want)
					}
				}
			}
			rt.Outcome("%v %v", l.cbs, failed)
		}})
}

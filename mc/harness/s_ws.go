package harness

import (
	"fmt"
	"net/http"
	"time"

	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// peer side helpers that work over either end of the library
type wsSide struct {
	name string
	w    *WS
	emit func(p Pkt) error
	got  func() []Pkt
	dead func() bool // the library has given the session up
}

func openParamsJSON(i, t time.Duration) string {
	return fmt.Sprintf(`{"sid":"S1","upgrades":["websocket"],"pingInterval":%d,"pingTimeout":%d}`, i/time.Millisecond, t/time.Millisecond)
}

// CliRec records what an engine.io client under test observes.
type CliRec struct {
	C   *engine.Client
	Evs []Ev
}

// DialEng dials h:80 with the Go engine client.
func DialEng(url string, hdr http.Header, on func(c *engine.Client)) (*CliRec, error) {
	r := &CliRec{}
	_, err := engine.Dial(url, hdr, engine.WebsocketTransport, func(c *engine.Client) {
		r.C = c
		busy := false
		rec := func(kind string) engine.Callback {
			return func(_ *engine.Socket, typ engine.MessageType, data []byte) {
				if busy {
					rt.Fail("[concurrent] two callbacks of one client run at the same time")
				}
				busy = true
				r.Evs = append(r.Evs, Ev{Kind: kind, Bin: typ == engine.MessageTypeBinary, Data: string(data), raw: data})
				rt.Note("ccb " + kind)
				busy = false
			}
		}
		c.On(engine.EventMessage, rec("message"))
		c.On(engine.EventClose, rec("close"))
		if on != nil {
			on(c)
		}
	})
	return r, err
}

func (r *CliRec) Msgs() []Pkt {
	var out []Pkt
	for _, v := range r.Evs {
		if v.Kind == "message" {
			v.still()
			out = append(out, Pkt{v.Bin, 4, v.Data})
		}
	}
	return out
}

func (r *CliRec) Count(kind string) int {
	n := 0
	for _, v := range r.Evs {
		if v.Kind == kind {
			n++
		}
	}
	return n
}

// side 0: a server session with a raw client peer; side 1: a Go client with a raw server peer.
func newSide(k int) *wsSide {
	if k == 0 {
		e := NewEng(bigI, bigT)
		w, sid := e.WSSession()
		so := e.Sock(sid)
		return &wsSide{"server", w, func(p Pkt) error { return emit(so, p) }, func() []Pkt { return e.Got(sid) }, func() bool { return e.Count("close", sid) > 0 }}
	}
	var w *WS
	ListenPeer("h:80", func(p *WS, _ *http.Request) {
		p.Send(Pkt{false, 0, openParamsJSON(bigI, bigT)})
		w = p
		rt.Note("peer")
	})
	r, err := DialEng("ws://h:80/x/", nil, nil)
	if err != nil {
		rt.Fail("[ws-dial] %v", err)
	}
	rt.Await("peer", func() bool { return w != nil })
	return &wsSide{"client", w, func(p Pkt) error { return emit(r.C.Socket, p) }, r.Msgs, func() bool { return r.Count("close") > 0 }}
}

var wsSizes = []int{0, 1, 2, 3, 4, 5, 100, 121, 122, 123, 124, 125, 126, 127, 128, 129, 254, 255, 256, 510, 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 4080, 4085, 4086, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4100, 8190, 8191, 8192, 16384, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 70001, 131072}

func body(p Pkt) (op byte, b []byte) {
	if p.Bin {
		return 2, append([]byte{byte(p.Type)}, p.Data...)
	}
	return 1, append([]byte{byte('0' + p.Type)}, p.Data...)
}

// sendFrag sends p as one message cut at the given offsets, with control frames between the fragments.
func sendFrag(w *WS, p Pkt, cuts []int, ctl []byte) {
	op, b := body(p)
	prev := 0
	for _, c := range cuts {
		w.WriteFrame(false, op, b[prev:c])
		for _, o := range ctl {
			w.WriteFrame(true, o, []byte("hb"))
		}
		op, prev = 0, c
	}
	w.WriteFrame(true, op, b[prev:])
}

func wsDeliver(s *wsSide, p Pkt, what string, send func()) {
	n := len(s.got())
	send()
	rt.Quiesce()
	got := s.got()[n:]
	if len(got) != 1 || got[0] != p {
		rt.Fail("[ws-in] %s: %s sent as %s, delivered %s (session over: %v)", s.name, p, what, show(got), s.dead())
	}
}

func init() {
	reg(&rt.Scenario{Name: "ws-in-sizes", Props: []string{"C04"}, Cfg: rt.Config{MaxSteps: 40000000}, N: 2 * 2 * 4,
		Describe: func(v int) string { return fmt.Sprintf("side %d bin=%v part %d", v&1, v&2 != 0, v/4) },
		Run: func(v int) {
			s := newSide(v & 1)
			n := 0
			for i := v / 4; i < len(wsSizes); i += 4 {
				sz := wsSizes[i]
				p := Pkt{v&2 != 0, 4, pattern(sz, v&2 != 0, i)}
				for _, chunk := range []int{0, 1, 2, 3, 5, 125, 1000, 4096} {
					if sz > 5000 && chunk > 0 && chunk < 100 {
						continue
					}
					s.w.S.Chunk = chunk
					wsDeliver(s, p, fmt.Sprintf("one frame, read in chunks of %d", chunk), func() { sendFrag(s.w, p, nil, nil) })
					n++
				}
				s.w.S.Chunk = 0
				total := sz + 1
				for _, c := range []int{0, 1, 2, total / 2, total - 1, total} {
					if c < 0 || c > total {
						continue
					}
					for _, ctl := range [][]byte{nil, {9}, {10}, {9, 10, 9}} {
						wsDeliver(s, p, fmt.Sprintf("fragments cut at %d with control frames %v between", c, ctl), func() { sendFrag(s.w, p, []int{c}, ctl) })
						n++
					}
				}
			}
			rt.Outcome("%d", n)
		}})
	reg(&rt.Scenario{Name: "ws-in-fragments", Props: []string{"C04"}, Cfg: rt.Config{MaxSteps: 40000000}, N: 2 * 2,
		Describe: func(v int) string { return fmt.Sprintf("side %d bin=%v", v&1, v&2 != 0) },
		Run: func(v int) {
			// every way to cut a message of 6 bytes (type included) into fragments, empty ones too
			s := newSide(v & 1)
			p := Pkt{v&2 != 0, 4, "4ab\x00z"}
			n := 0
			var rec func(cuts []int, from int)
			rec = func(cuts []int, from int) {
				for _, ctl := range [][]byte{nil, {9}} {
					for _, chunk := range []int{0, 1} {
						s.w.S.Chunk = chunk
						wsDeliver(s, p, fmt.Sprintf("cuts %v ctl %v chunk %d", cuts, ctl, chunk), func() { sendFrag(s.w, p, cuts, ctl) })
						n++
					}
				}
				if len(cuts) == 5 {
					return
				}
				for c := from; c <= 6; c++ {
					if k := len(cuts); k > 1 && cuts[k-1] == c && cuts[k-2] == c {
						continue
					}
					rec(append(append([]int{}, cuts...), c), c)
				}
			}
			rec(nil, 0)
			rt.Outcome("%d", n)
		}})
	reg(&rt.Scenario{Name: "ws-in-mixed", Props: []string{"C04", "C07"}, Cfg: rt.Config{MaxSteps: 40000000}, N: 2 * 4,
		Describe: func(v int) string { return fmt.Sprintf("side %d part %d", v&1, v/2) },
		Run: func(v int) {
			// sequences of packets, unknown types among them, written at once
			s := newSide(v & 1)
			type item struct {
				op   byte
				b    string
				want *Pkt
			}
			m := func(p Pkt) item { op, b := body(p); return item{op, string(b), &p} }
			al := []item{m(msg("")), m(msg("a")), m(bmsg("")), m(bmsg("\x00\xff")), m(msg("日")),
				{1, "9x", nil}, {1, "zzz", nil}, {1, "7", nil}, {2, "\x07", nil}, {2, "\xffabc", nil}, {2, "4", nil}, {1, "/", nil},
				{9, "p", nil}, {10, "", nil}, {1, "6", nil}, {2, "\x06", nil}, {1, "3probe", nil}, {1, "\x04x", nil}, {1, "0{}", nil}}
			n := 0
			for i, a := range al {
				if i%4 != v/2 {
					continue
				}
				for _, b := range al {
					for _, c := range al {
						var want []Pkt
						k := len(s.got())
						for _, it := range []item{a, b, c} {
							s.w.WriteFrame(true, it.op, []byte(it.b))
							if it.want != nil {
								want = append(want, *it.want)
							}
						}
						rt.Quiesce()
						if s.dead() {
							rt.Fail("[ws-unknown] %s: session ended by the messages %q %q %q", s.name, a.b, b.b, c.b)
						}
						if got := s.got()[k:]; !pktsEqual(got, want) {
							rt.Fail("[ws-in] %s: messages %q %q %q delivered as %s", s.name, a.b, b.b, c.b, show(got))
						}
						n++
					}
				}
			}
			rt.Outcome("%d", n)
		}})
	reg(&rt.Scenario{Name: "ws-out", Props: []string{"C04"}, Cfg: rt.Config{MaxSteps: 40000000}, N: 2 * 2 * 2,
		Describe: func(v int) string { return fmt.Sprintf("side %d bin=%v chunked=%v", v&1, v&2 != 0, v&4 != 0) },
		Run: func(v int) {
			s := newSide(v & 1)
			if v&4 != 0 {
				s.w.S.LimitOut(1000) // the library's writes fill the connection
			}
			n := 0
			for i, sz := range wsSizes {
				for salt := 0; salt < 3; salt++ {
					p := Pkt{v&2 != 0, 4, pattern(sz, v&2 != 0, i+salt)}
					q := Pkt{v&2 == 0, 4, "t"}
					for _, l := range [][]Pkt{{p}, {p, q}, {q, p, p}} {
						for _, x := range l {
							if err := s.emit(x); err != nil {
								rt.Fail("[ws-out] %s: Emit(%v): %v", s.name, x, err)
							}
						}
						for j, x := range l {
							got, err := s.w.Recv()
							if err != nil || got != x {
								rt.Fail("[ws-out] %s: emitted %s, message %d on the wire is %v (%v)", s.name, show(l), j, got, err)
							}
						}
						rt.Quiesce()
						if s.w.C.Buffered() > 0 || s.w.br.Buffered() > 0 {
							rt.Fail("[ws-out] %s: more than one message on the wire for each packet of %s", s.name, show(l))
						}
						n++
					}
				}
			}
			rt.Outcome("%d", n)
		}})
}

package harness

import (
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

var flavs = []string{"", "&b64=1", "&j=0", "&j=17", "&b64=1&j=3"}

func flavKey(f string) string {
	if i := strings.Index(f, "&j="); i >= 0 {
		return f[i:]
	}
	return f
}

// strictPoll polls and decodes as a conforming client of that flavour would.
func strictPoll(s *Sess, flav string, what string) []Pkt {
	r := Do(s.E, Req{Method: "GET", Query: qPoll + flav + "&sid=" + s.Sid})
	if r.Code != 200 {
		rt.Fail("[resp-status] poll %q of %s answered %v", flav, what, r)
	}
	ps, err := decodePoll(flavKey(flav), r)
	if err != nil {
		rt.Fail("[resp-decode] poll %q of %s: %v\n  response %v", flav, what, err, r)
	}
	if len(ps) == 0 {
		rt.Fail("[resp-empty] poll %q of %s answered with no packet", flav, what)
	}
	return ps
}

// emitAll emits ps and polls them back one flavour at a time.
func emitAll(s *Sess, ps []Pkt, flav func(i int) string) {
	so := s.Sock()
	for _, p := range ps {
		if err := emit(so, p); err != nil {
			rt.Fail("[resp-emit] Emit of %v: %v", p, err)
		}
	}
	var got []Pkt
	for i := 0; len(got) < len(ps); i++ {
		f := flav(i)
		got = append(got, strictPoll(s, f, show(ps))...)
		for j := range got {
			if j >= len(ps) || got[j] != ps[j] {
				rt.Fail("[resp-content] polls (last %q)\n  emitted  %s\n  received %s", f, show(ps), show(got))
			}
		}
	}
}

func init() {
	sizes := append([]int{}, c01sizes...)
	reg(&rt.Scenario{Name: "resp-sizes", Props: []string{"C03"}, Cfg: rt.Config{MaxSteps: 4000000}, N: len(flavs) * 2 * 4,
		Describe: func(v int) string { return fmt.Sprintf("flavour %q bin=%v part %d", flavs[v/8], v&1 == 1, v/2%4) },
		Run: func(v int) {
			f, bin := flavs[v/8], v&1 == 1
			e := NewEng(bigI, bigT)
			s := e.OpenF("")
			for i := v / 2 % 4; i < len(sizes); i += 4 {
				for salt := 0; salt < 12; salt++ {
					if sizes[i] > 9000 && salt > 2 {
						break
					}
					emitAll(s, []Pkt{{bin, 4, pattern(sizes[i], bin, salt)}}, func(int) string { return f })
				}
			}
			rt.Outcome("%d", s.Polls)
		}})

	// every byte, every interesting code point, every pair over a nasty alphabet
	var texts, bins []string
	for c := rune(0); c < 0x180; c++ {
		texts = append(texts, string(c), "x"+string(c)+"y")
	}
	for _, c := range []rune{0x7ff, 0x800, 0x2027, 0x2028, 0x2029, 0x202a, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff} {
		texts = append(texts, string(c), "a"+string(c), string(c)+string(c))
	}
	nasty := []string{"\"", "\\", "\n", "\r", "\u2028", "</script>", "'", "\x00", ":", "b4", "€", "&", "\t", "\\n", "\xc2\x85"}
	for _, a := range nasty {
		for _, b := range nasty {
			texts = append(texts, a+b)
		}
	}
	for i := 0; i < 256; i++ {
		bins = append(bins, string([]byte{byte(i)}), string([]byte{4, byte(i)}), string([]byte{byte(i), byte(255 - i), 0xff}))
	}
	reg(&rt.Scenario{Name: "resp-contents", Props: []string{"C03"}, Cfg: rt.Config{MaxSteps: 8000000}, N: len(flavs) * 2,
		Describe: func(v int) string { return fmt.Sprintf("flavour %q bin=%v", flavs[v/2], v&1 == 1) },
		Run: func(v int) {
			f, bin := flavs[v/2], v&1 == 1
			e := NewEng(bigI, bigT)
			s := e.OpenF("")
			l := texts
			if bin {
				l = bins
			}
			for _, t := range l {
				emitAll(s, []Pkt{{bin, 4, t}}, func(int) string { return f })
			}
			rt.Outcome("%d", len(l))
		}})

	// several queued packets, polled in every combination of flavours
	alpha := []Pkt{msg(""), msg("a\"\\\n"), bmsg(""), bmsg("\x00\x01"), bmsg("abc"), msg("日\u2028")}
	reg(&rt.Scenario{Name: "resp-sequences", Props: []string{"C03"}, Cfg: rt.Config{MaxSteps: 8000000}, N: len(alpha),
		Run: func(v int) {
			e := NewEng(bigI, bigT)
			s := e.OpenF("")
			n := 0
			for _, b := range alpha {
				for _, c := range alpha {
					for k := 0; k < len(flavs)*len(flavs)*len(flavs); k++ {
						k := k
						emitAll(s, []Pkt{alpha[v], b, c}, func(i int) string {
							return flavs[k/[]int{1, len(flavs), len(flavs) * len(flavs)}[i%3]%len(flavs)]
						})
						n++
					}
				}
			}
			rt.Outcome("%d", n)
		}})

	// the handshake itself, pongs and non-byte arguments, in every flavour
	reg(&rt.Scenario{Name: "resp-other", Props: []string{"C03"}, Cfg: rt.Config{MaxSteps: 8000000}, N: len(flavs),
		Describe: func(v int) string { return fmt.Sprintf("flavour %q", flavs[v]) },
		Run: func(v int) {
			f := flavs[v]
			e := NewEng(bigI, bigT)
			r := Do(e, Req{Method: "GET", Query: qPoll + f})
			if r.Code != 200 {
				rt.Fail("[resp-open] handshake %q answered %v", f, r)
			}
			ps, err := decodePoll(flavKey(f), r)
			if err != nil || len(ps) < 1 || ps[0].Type != 0 || ps[0].Bin {
				rt.Fail("[resp-open] handshake %q answered %v: %v", f, r, err)
			}
			var op openParams
			if err := json.Unmarshal([]byte(ps[0].Data), &op); err != nil {
				rt.Fail("[resp-open] OPEN data %q: %v", ps[0].Data, err)
			}
			s := &Sess{E: e, Sid: op.SID}
			for _, d := range []Pkt{{false, 2, ""}, {false, 2, "probe"}, {false, 2, "\"\\\u2028€"}, {true, 2, "\x00\x01\xff"}, {true, 2, ""}} {
				if r := s.Post(d); r.Code != 200 {
					rt.Fail("[resp-ping] ping %v answered %v", d, r)
				}
				got := strictPoll(s, f, "pong")
				want := Pkt{d.Bin, 3, d.Data}
				if len(got) != 1 || got[0] != want {
					rt.Fail("[resp-pong] ping %v answered in flavour %q by %s", d, f, show(got))
				}
			}
			so := s.Sock()
			type arg struct {
				v    interface{}
				want string
			}
			for _, a := range []arg{{"str\u2028\"", "str\u2028\""}, {[]byte("bytes"), "bytes"}, {map[string]int{"a": 1}, `{"a":1}`}, {[]interface{}{1, "x", nil}, `[1,"x",null]`}, {nil, "null"}, {3.5, "3.5"}, {true, "true"}, {struct {
				A string `json:"a"`
			}{"é"}, `{"a":"é"}`}} {
				if err := so.Send(a.v); err != nil {
					rt.Fail("[resp-send] Send(%v): %v", a.v, err)
				}
				got := strictPoll(s, f, fmt.Sprintf("Send(%v)", a.v))
				if len(got) != 1 || got[0] != msg(a.want) {
					rt.Fail("[resp-send] Send(%v) received in flavour %q as %s", a.v, f, show(got))
				}
			}
			rt.Outcome("ok")
		}})
}

// ---- C05

type originFn func(*http.Request) bool

func (f originFn) CheckOrigin(r *http.Request) bool { return f(r) }

type hsReq struct {
	eio, transport, sid, method string
	up                          string // websocket upgrade headers: "ok", "none", "badver", "nokey", "noconn"
	origin                      string
}

func (q hsReq) String() string {
	return fmt.Sprintf("%s EIO=%s transport=%s sid=%s upgrade=%s origin=%s", q.method, q.eio, q.transport, q.sid, q.up, q.origin)
}

func (q hsReq) headers() http.Header {
	h := http.Header{}
	if q.up != "none" {
		for k, v := range wsHdr {
			h[k] = v
		}
	}
	switch q.up {
	case "badver":
		h["Sec-Websocket-Version"] = []string{"8"}
	case "nokey":
		delete(h, "Sec-Websocket-Key")
	case "noconn":
		delete(h, "Connection")
	}
	if q.origin != "" {
		h.Set("Origin", q.origin)
	}
	return h
}

func init() {
	// checkers: which combination of verdicts; the origin header decides
	cfgs := []struct {
		name string
		oc   func() []engine.OriginChecker
		ok   func(o string) bool
	}{
		{"none", func() []engine.OriginChecker { return nil }, func(string) bool { return true }},
		{"nil", func() []engine.OriginChecker { return []engine.OriginChecker{nil} }, func(string) bool { return true }},
		{"one", func() []engine.OriginChecker { return []engine.OriginChecker{has("good")} }, func(o string) bool { return o == "good" || o == "both" }},
		{"two", func() []engine.OriginChecker { return []engine.OriginChecker{has("good"), nil, has("best")} }, func(o string) bool { return o == "both" }},
		{"never", func() []engine.OriginChecker {
			return []engine.OriginChecker{originFn(func(*http.Request) bool { return true }), originFn(func(*http.Request) bool { return false })}
		}, func(string) bool { return false }},
	}
	eios := []string{"3", "", "2", "4", "03", "3.0", "33"}
	trs := []string{"polling", "websocket", "", "Polling", "flashsocket", "polling2", "websocket "}
	sids := []string{"", "livepoll", "livews", "unknown", "prefix", "lower", "ended"}
	methods := []string{"GET", "POST", "PUT", "OPTIONS", "HEAD", "DELETE"}
	ups := []string{"ok", "none", "badver", "nokey", "noconn"}
	origins := []string{"", "good", "best", "both"}
	reg(&rt.Scenario{Name: "routing", Props: []string{"C05"}, Cfg: rt.Config{MaxSteps: 80000000}, N: len(cfgs) * len(sids),
		Describe: func(v int) string {
			return fmt.Sprintf("checkers %s, sid %s", cfgs[v/len(sids)].name, sids[v%len(sids)])
		},
		Run: func(v int) {
			cfg := cfgs[v/len(sids)]
			sidKind := sids[v%len(sids)]
			e := NewEng(25*time.Second, 60*time.Second, cfg.oc()...)
			hdr := func() http.Header { return http.Header{"Origin": {"both"}} }
			var s *Sess
			var w *WS
			sid := map[string]string{"": "", "unknown": "0123456789ABCDEFGHJKMNPQRS"}
			if cfg.name != "never" {
				open := func() string {
					r := Do(e, Req{Method: "GET", Query: qPoll, Hdr: hdr()})
					ps, err := decodeAny("", r)
					if r.Code != 200 || err != nil || len(ps) != 1 {
						rt.Fail("[route-open] valid handshake answered %v", r)
					}
					var op openParams
					json.Unmarshal([]byte(ps[0].Data), &op)
					return op.SID
				}
				s = &Sess{E: e, Sid: open()}
				sid["livepoll"] = s.Sid
				sid["prefix"] = s.Sid[:len(s.Sid)-1]
				sid["lower"] = strings.ToLower(s.Sid)
				w = WSOpen(e, qWS, hdr())
				if !w.Handshake() {
					rt.Fail("[route-open] valid websocket handshake answered %d", w.Status)
				}
				p, err := w.Recv()
				if err != nil {
					rt.Fail("[route-open] no OPEN on websocket: %v", err)
				}
				var op openParams
				json.Unmarshal([]byte(p.Data), &op)
				sid["livews"] = op.SID
				x := &Sess{E: e, Sid: open()}
				x.Sock().Close()
				sid["ended"] = x.Sid
			} else if sidKind != "" && sidKind != "unknown" {
				rt.Outcome("-")
				return
			}
			rt.Quiesce()
			live := rt.LiveCount()
			n, served := 0, 0
			try := func(q hsReq) {
				n++
				if s != nil {
					emit(s.Sock(), msg("held"))
					emit(e.Sock(sid["livews"]), msg("w"))
					if p, err := w.Recv(); err != nil || p != msg("w") {
						rt.Fail("[route-disturb] after %d requests the websocket session received %v, %v", n, p, err)
					}
				}
				rt.Quiesce()
				before := len(e.Evs)
				c, sc := rt.Pipe("x")
				query := "EIO=" + q.eio + "&transport=" + strings.Replace(q.transport, " ", "%20", -1)
				if q.sid != "" {
					query += "&sid=" + sid[q.sid]
				}
				body := []byte(nil)
				if q.method == "POST" {
					body = []byte(encBin(msg("in")))
				}
				r := Start(e, Req{Method: q.method, Query: query, Hdr: q.headers(), CT: ctBin, Body: body, Conn: sc})
				rt.Quiesce()
				hijackOK := false
				if r.Hijacked {
					b := make([]byte, 4096)
					k, _ := c.Read(b)
					hijackOK = strings.HasPrefix(string(b[:k]), "HTTP/1.1 101")
				} else if !r.Done {
					rt.Fail("[route-hang] %v: not answered", q)
				}
				okOrigin := cfg.ok(q.origin)
				valid := q.eio == "3" && (q.transport == "polling" || q.transport == "websocket")
				switch {
				case valid && q.sid == "" && q.transport == "polling" && okOrigin && q.method == "GET":
					served++
					ps, err := decodeAny("", r)
					if r.Code != 200 || err != nil || len(ps) != 1 || ps[0].Type != 0 {
						rt.Fail("[route-refused] valid handshake %v answered %v", q, r)
					}
					var op openParams
					json.Unmarshal([]byte(ps[0].Data), &op)
					checkOpen(e, op)
					e.Sock(op.SID).Close()
					rt.Quiesce()
				case valid && q.sid == "" && q.transport == "polling" && okOrigin:
					// the method of a handshake is not specified: whatever opened is ended
					if e.Count("open", "") > 0 {
						for _, v := range e.Evs[before:] {
							if v.Kind == "open" {
								e.Socks[v.Sid].Close()
							}
						}
						rt.Quiesce()
					}
				case valid && q.sid == "" && q.transport == "websocket" && okOrigin && q.up == "ok" && q.method == "GET":
					served++
					if !hijackOK {
						rt.Fail("[route-refused] valid websocket handshake %v answered %v", q, r)
					}
					c.Close()
					rt.Quiesce()
				case valid && q.sid == "livepoll" && q.transport == "polling" && (q.method == "GET" || q.method == "POST"):
					served++
					if r.Code != 200 {
						rt.Fail("[route-refused] request %v of a live session answered %v", q, r)
					}
					if q.method == "GET" {
						ps, err := decodeAny("", r)
						if err != nil || !pktsEqual(ps, []Pkt{msg("held")}) {
							rt.Fail("[route-content] %v answered %v", q, r)
						}
						return
					}
					found := 0
					for _, v := range e.Evs[before:] {
						if v.Kind == "message" && v.Sid == s.Sid && v.Data == "in" {
							found++
						}
					}
					if found != 1 || len(e.Evs) != before+1 {
						rt.Fail("[route-content] %v: events %v", q, e.Evs[before:])
					}
				case valid && q.sid == "livepoll" && q.transport == "websocket" && q.up == "ok" && okOrigin && q.method == "GET":
					// an upgrade attempt: ended here, looked at by C08-C10
					served++
					if !hijackOK {
						rt.Fail("[route-refused] valid upgrade request %v answered %v", q, r)
					}
					c.Close()
					rt.Quiesce()
				case valid && q.sid == "livepoll" && q.transport == "polling":
					// other methods on a live session: nothing may be consumed
					if r.Code < 400 && q.method != "HEAD" && q.method != "OPTIONS" {
						rt.Fail("[route-accepted] %v answered %v", q, r)
					}
				default:
					if r.Hijacked {
						rt.Fail("[route-accepted] %v was switched to websocket", q)
					}
					if r.Code < 400 {
						rt.Fail("[route-accepted] invalid request %v answered %v", q, r)
					}
					if len(e.Evs) != before {
						rt.Fail("[route-effect] refused request %v had effects %v", q, e.Evs[before:])
					}
				}
				c.Close()
				rt.Quiesce()
				if l := rt.LiveCount(); l != live {
					rt.Fail("[route-leak] %v: %d goroutines before, %d after: %v", q, live, l, rt.Live())
				}
				if s != nil {
					if !s.Poll() || !pktsEqual(s.Got[len(s.Got)-1:], []Pkt{msg("held")}) {
						rt.Fail("[route-consumed] after %v the session's poll brings %s %v", q, show(s.Got), s.Errs)
					}
				}
			}
			for _, eio := range eios {
				for _, tr := range trs {
					for _, m := range methods {
						for _, up := range ups {
							if tr != "websocket" && up != "ok" && up != "none" {
								continue
							}
							for _, o := range origins {
								if (eio != "3" || m == "PUT" || m == "DELETE") && o != "both" {
									continue
								}
								try(hsReq{eio, tr, sidKind, m, up, o})
							}
						}
					}
				}
			}
			rt.Outcome("%d requests, %d served", n, served)
		}})

	// what OPEN carries, and that session ids are unique
	pings := [][2]time.Duration{{25 * time.Second, 60 * time.Second}, {time.Second, time.Second}, {time.Millisecond, 2 * time.Millisecond}, {1500 * time.Millisecond, 333 * time.Millisecond}, {time.Hour, 24 * time.Hour}, {2*time.Second + 500*time.Microsecond, 999 * time.Millisecond}, {7 * time.Second, 3 * time.Second}, {400 * 24 * time.Hour, 800 * 24 * time.Hour}}
	reg(&rt.Scenario{Name: "open-params", Props: []string{"C05"}, Cfg: rt.Config{MaxSteps: 400000}, N: len(pings) * 2,
		Describe: func(v int) string { return fmt.Sprint(pings[v/2]) },
		Run: func(v int) {
			e := NewEng(pings[v/2][0], pings[v/2][1])
			for i := 0; i < 3; i++ {
				if v&1 == 0 {
					r := Do(e, Req{Method: "GET", Query: qPoll + flavs[i]})
					ps, err := decodePoll(flavKey(flavs[i]), r)
					if r.Code != 200 || err != nil || len(ps) != 1 || ps[0].Type != 0 {
						rt.Fail("[open-params] handshake answered %v (%v)", r, err)
					}
					var op openParams
					if err := json.Unmarshal([]byte(ps[0].Data), &op); err != nil {
						rt.Fail("[open-params] %v", err)
					}
					checkOpen(e, op)
					checkUpgrades(op)
				} else {
					w := WSOpen(e, qWS, nil)
					w.Handshake()
					p, err := w.Recv()
					if err != nil || p.Type != 0 {
						rt.Fail("[open-params] first websocket packet %v (%v)", p, err)
					}
					var op openParams
					if err := json.Unmarshal([]byte(p.Data), &op); err != nil {
						rt.Fail("[open-params] %v", err)
					}
					checkOpen(e, op)
				}
			}
			rt.Outcome("ok")
		}})
	reg(&rt.Scenario{Name: "open-unique", Props: []string{"C05", "C14"}, Cfg: rt.Config{MaxSteps: 8000000}, N: 2,
		Run: func(v int) {
			e := NewEng(bigI, bigT)
			seen := map[string]bool{}
			for i := 0; i < 700; i++ {
				var sid string
				if v == 1 && i%3 == 0 {
					_, sid = e.WSSession()
				} else {
					sid = e.Open().Sid
				}
				if seen[sid] {
					rt.Fail("[open-unique] session id %q handed out twice", sid)
				}
				seen[sid] = true
				if e.Sock(sid).Sid() != sid {
					rt.Fail("[open-unique] socket of %q calls itself %q", sid, e.Sock(sid).Sid())
				}
			}
			if len(e.Socks) != 700 || e.Count("open", "") != 700 {
				rt.Fail("[open-unique] 700 sessions, %d sockets, %d open callbacks", len(e.Socks), e.Count("open", ""))
			}
			rt.Outcome("%d", len(seen))
		}})
}

func has(o string) engine.OriginChecker {
	return originFn(func(r *http.Request) bool { h := r.Header.Get("Origin"); return h == o || h == "both" })
}

func checkOpen(e *Eng, op openParams) {
	if op.SID == "" || e.Sock(op.SID) == nil {
		rt.Fail("[open-params] OPEN carries sid %q", op.SID)
	}
	if n := e.Count("open", op.SID); n != 1 {
		rt.Fail("[open-params] %d open callbacks for %q", n, op.SID)
	}
	if op.PingInterval != int(e.Interval/time.Millisecond) || op.PingTimeout != int(e.Timeout/time.Millisecond) {
		rt.Fail("[open-params] OPEN carries interval %d, timeout %d; configured %v, %v", op.PingInterval, op.PingTimeout, e.Interval, e.Timeout)
	}
}

func checkUpgrades(op openParams) {
	if len(op.Upgrades) != 1 || op.Upgrades[0] != "websocket" {
		rt.Fail("[open-params] OPEN offers upgrades %v", op.Upgrades)
	}
}

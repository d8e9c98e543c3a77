package harness

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/textproto"
	"strings"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C29: a session's id, addresses and headers

// hses is a session with what its headers must be.
type hses struct {
	name   string
	e      *Eng
	u      *Sess
	w      *WS
	ws     bool
	so     *engine.Socket
	hdr    map[string]string // canonical key to value
	remote string
	over   bool
}

var hKeys = []string{"X-A", "x-a", "X-a", "X-Multi", "x-MULTI", "User-Agent", "X-New", "x-new", "X-Up", "X-None", ""}

func hdrOf(name string) http.Header {
	return http.Header{"X-A": {name + "0"}, "X-Multi": {name + "m1", name + "m2"}, "User-Agent": {"agent " + name}, "X-Empty": {}}
}

func openH(e *Eng, name string, ws bool) *hses {
	s := &hses{name: name, e: e, ws: ws}
	h := hdrOf(name)
	if ws {
		s.w = WSOpen(e, qWS, h)
		s.w.S.Name = name
		if !s.w.Handshake() {
			rt.Fail("[open] websocket handshake refused: %d", s.w.Status)
		}
		p, err := s.w.Recv()
		var op openParams
		if err != nil || p.Type != 0 || jsonTo(p.Data, &op) != nil {
			rt.Fail("[open] first websocket packet is %v (%v)", p, err)
		}
		s.u = &Sess{E: e, Sid: op.SID}
		s.remote = name + "-remote"
	} else {
		q := Req{Method: "GET", Query: qPoll, Hdr: h, Remote: name + ":7"}
		r := q.build()
		resp := NewResp()
		e.ServeHTTP(resp, r)
		ps, err := decodeAny("", resp)
		var op openParams
		if resp.Code != 200 || err != nil || len(ps) == 0 || jsonTo(ps[0].Data, &op) != nil {
			rt.Fail("[open] handshake answered %v", resp)
		}
		s.u = &Sess{E: e, Sid: op.SID}
		s.remote = name + ":7"
		defer func() {
			if fmt.Sprint(r.Header) != fmt.Sprint(h) {
				rt.Fail("[request-header] the opening request's own headers became %v", r.Header)
			}
			r.Header.Set("X-A", "late") // the request's, no longer the session's
			r.Header["X-Multi"][0] = "late"
		}()
	}
	s.so = e.Sock(s.u.Sid)
	s.hdr = map[string]string{"X-A": name + "0", "X-Multi": name + "m1", "User-Agent": "agent " + name}
	return s
}

// check compares the session with what it must be.
func (s *hses) check(so interface {
	GetHeader(string) string
	Sid() string
}, after string) {
	for _, k := range hKeys {
		want := s.hdr[textproto.CanonicalMIMEHeaderKey(k)]
		if got := so.GetHeader(k); got != want {
			rt.Fail("[header] session %s: GetHeader(%q) is %q after %s, should be %q", s.name, k, got, after, want)
		}
	}
	if so.Sid() != s.u.Sid {
		rt.Fail("[sid] session %s: Sid is %q after %s, was %q", s.name, so.Sid(), after, s.u.Sid)
	}
}

func (s *hses) checkAll(after string) {
	s.check(s.so, after)
	if r := s.so.RemoteAddr(); r == nil || r.String() != s.remote {
		rt.Fail("[remote-addr] session %s: RemoteAddr is %v after %s, should be %s", s.name, r, after, s.remote)
	}
	if l := s.so.LocalAddr(); l == nil {
		rt.Fail("[local-addr] session %s: no LocalAddr after %s", s.name, after)
	}
}

var evil = http.Header{"X-A": {"evil"}, "X-Multi": {"evil"}, "User-Agent": {"evil"}, "X-New": {"evil"}, "X-None": {"evil"}}

func (s *hses) set(k, v string) {
	s.so.SetHeader(k, v)
	s.hdr[textproto.CanonicalMIMEHeaderKey(k)] = v
}

var hOps = []string{"set X-A", "set x-a of another", "set x-new", "set X-A empty", "post", "poll", "failed upgrade", "upgrade", "upgrade with own values", "end"}

func (s *hses) do(op int, no int) {
	v := fmt.Sprintf("%s.%d", s.name, no)
	switch op {
	case 0:
		s.set("X-A", v)
	case 2:
		s.set("x-new", v)
	case 3:
		s.set("X-a", "")
	case 4:
		if s.ws {
			s.w.Send(msg("x"))
			rt.Quiesce()
		} else if r := Do(s.e, Req{Method: "POST", Query: qPoll + "&sid=" + s.u.Sid, Remote: "evil:1", Hdr: evil, CT: ctBin, Body: []byte(encBin(msg("x")))}); r.Code != 200 && !s.over {
			rt.Fail("[post] answered %v", r)
		}
	case 5:
		if emit(s.so, msg("m")); !s.ws {
			Do(s.e, Req{Method: "GET", Query: qPoll + "&sid=" + s.u.Sid, Remote: "evil:1", Hdr: evil})
		}
	case 6, 7, 8:
		h := http.Header{}
		if op == 6 {
			h = evil.Clone()
		}
		if op == 8 {
			h.Set("X-Up", v)
			h.Set("X-A", v)
		}
		w := WSOpen(s.e, qWS+"&sid="+s.u.Sid, h)
		w.S.Name = s.name + "up" + fmt.Sprint(no)
		if !w.Handshake() {
			if !s.over && !s.ws {
				rt.Fail("[upgrade] refused: %d", w.Status)
			}
			return
		}
		if s.ws || s.over {
			w.Close()
			rt.Quiesce()
			return
		}
		w.Send(Pkt{Type: 2, Data: "probe"})
		if p, err := w.Recv(); err != nil || p.Type != 3 {
			rt.Fail("[upgrade] probe answered %v (%v)", p, err)
		}
		s.checkAll("a probe") // nothing is upgraded yet
		if op == 6 {
			w.Close()
			rt.Quiesce()
			return
		}
		w.Send(Pkt{Type: 5})
		rt.Quiesce()
		s.ws, s.w, s.remote = true, w, w.S.Name+"-remote"
		if op == 8 {
			s.hdr["X-Up"] = v
			if g := s.so.GetHeader("X-A"); g != v && g != s.hdr["X-A"] {
				rt.Fail("[header] session %s: X-A is %q after an upgrade with %q, was %q", s.name, g, v, s.hdr["X-A"])
			} else {
				s.hdr["X-A"] = g
			}
		}
	case 9:
		if s.over {
			return
		}
		s.over = true
		if s.ws {
			s.w.Send(Pkt{Type: 1})
		} else {
			Do(s.e, Req{Method: "POST", Query: qPoll + "&sid=" + s.u.Sid, Hdr: evil, CT: ctBin, Body: []byte(encBin(Pkt{Type: 1}))})
		}
		rt.Quiesce()
	}
}

func runHeaders(ws bool, ops []int) {
	e := NewEng(bigI, bigT)
	var a, b *hses
	at := ""
	cb := func(so *engine.Socket) {
		for _, s := range []*hses{a, b} {
			if s != nil && s.so == so && at != "" {
				if k := so.GetHeader("User-Agent"); k != s.hdr["User-Agent"] {
					rt.Fail("[header] session %s: User-Agent is %q in a callback during %s", s.name, k, at)
				}
			}
		}
	}
	e.OnOpen = func(so *engine.Socket) {
		if ua := so.GetHeader("user-agent"); !strings.HasPrefix(ua, "agent ") || so.GetHeader("x-a") != ua[6:]+"0" || so.GetHeader("x-multi") != ua[6:]+"m1" {
			rt.Fail("[header] the open callback finds User-Agent %q, X-A %q, X-Multi %q", ua, so.GetHeader("x-a"), so.GetHeader("x-multi"))
		}
		if so.Sid() == "" {
			rt.Fail("[sid] none in the open callback")
		}
		if r := so.RemoteAddr().String(); r != "a:7" && r != "a-remote" && r != "b:7" && r != "b-remote" {
			rt.Fail("[remote-addr] the open callback finds %s", r)
		}
	}
	e.OnMsg = func(so *engine.Socket, _ bool, _ string) { cb(so) }
	e.OnUpgr, e.OnClose = cb, cb
	a = openH(e, "a", ws)
	b = openH(e, "b", !ws)
	a.checkAll("opening")
	b.checkAll("opening")
	for i, o := range ops {
		at = hOps[o]
		if o == 1 {
			b.set("x-a", fmt.Sprintf("b.%d", i))
		} else {
			a.do(o, i)
		}
		if a.over {
			a.check(a.so, at)
		} else {
			a.checkAll(at)
		}
		b.checkAll(at + " of another session")
	}
	rt.Outcome("%v %v", a.hdr, a.ws)
}

// setters and readers during an upgrade
func runHeaderSched(v int) {
	kind, cb := v%3, v/3 == 1 // 0 upgrade, 1 failed upgrade, 2 upgrade the session outlives
	e := NewEng(bigI, bigT)
	a := openH(e, "a", false)
	put := func(k string, n int) {
		for i := 1; i <= n; i++ {
			x := fmt.Sprint(i)
			a.so.SetHeader(k, x)
			if g := a.so.GetHeader(k); g != x {
				rt.Fail("[header] %s was set to %s, and is %q right after", k, x, g)
			}
			rt.Yield()
		}
		a.hdr[textproto.CanonicalMIMEHeaderKey(k)] = fmt.Sprint(n)
	}
	done := 0
	if cb {
		e.OnUpgr = func(so *engine.Socket) { so.SetHeader("X-New", "upgraded") }
	}
	rt.HGo("setter", func() { put("x-A", 3); done++ })
	rt.HGo("setter of another", func() { put("X-Multi", 2); done++ })
	rt.HGo("reader", func() {
		last := ""
		for i := 0; i < 4; i++ {
			g := a.so.GetHeader("X-A")
			if last != "" && last != "a0" && (g == "a0" || g < last) {
				rt.Fail("[header] X-A goes back from %q to %q", last, g)
			}
			if u := a.so.GetHeader("User-Agent"); u != "agent a" {
				rt.Fail("[header] User-Agent is %q", u)
			}
			if r := a.so.RemoteAddr().String(); r != "a:7" && (kind == 1 || r != "up-remote") {
				rt.Fail("[remote-addr] %s", r)
			}
			last = g
		}
		done++
	})
	rt.HGo("client", func() {
		w := WSOpen(e, qWS+"&sid="+a.u.Sid, nil)
		w.S.Name = "up"
		if !w.Handshake() {
			rt.Fail("[upgrade] refused: %d", w.Status)
		}
		w.Send(Pkt{Type: 2, Data: "probe"})
		if p, err := w.Recv(); err != nil || p.Type != 3 {
			rt.Fail("[upgrade] probe answered %v (%v)", p, err)
		}
		if kind == 1 {
			w.Close()
		} else {
			w.Send(Pkt{Type: 5})
			a.remote = "up-remote"
		}
		done++
	})
	rt.Quiesce()
	if done != 4 {
		rt.Fail("[stuck] %d of 4 get through", done)
	}
	if cb && kind != 1 {
		a.hdr["X-New"] = "upgraded"
	}
	a.checkAll("all")
	if kind == 2 {
		a.w, a.ws = nil, true
		emit(a.so, msg("x"))
		rt.Quiesce()
		a.checkAll("traffic after an upgrade")
	}
}

func runHeaderSio(v int) {
	mp := v&1 != 0
	s := NewSio(bigI, bigT, mp)
	socks := map[string]socketio.Socket{}
	var bad []string
	chk := func(so socketio.Socket, k, want string) {
		if g := so.GetHeader(k); g != want {
			bad = append(bad, fmt.Sprintf("%s in %s is %q, should be %q", k, so.Namespace(), g, want))
		}
	}
	for _, n := range []string{"/", "/n"} {
		n := n
		s.Namespace(n).OnConnect(func(so socketio.Socket) {
			socks[so.Sid()+n] = so
			chk(so, "user-agent", "ua"+so.GetHeader("X-Who"))
			if n == "/" {
				so.SetHeader("X-Root", so.Sid())
			} else {
				chk(so, "x-root", so.Sid())
			}
			if so.RemoteAddr() == nil || so.LocalAddr() == nil {
				bad = append(bad, "no address")
			}
		}).OnEvent("set", func(so socketio.Socket, k, x string) string {
			so.SetHeader(k, x)
			return so.GetHeader(k)
		}).OnEvent("get", func(so socketio.Socket, k string) string { return so.GetHeader(k) }).
			OnDisconnect(func(so socketio.Socket) { chk(so, "X-Root", so.Sid()) })
	}
	peer := func(who string) *SPeer {
		w := WSOpen(s, qWS, http.Header{"User-Agent": {"ua" + who}, "X-Who": {who}})
		w.S.Name = who
		if !w.Handshake() {
			rt.Fail("[open] refused: %d", w.Status)
		}
		k, err := w.Recv()
		var op openParams
		if err != nil || jsonTo(k.Data, &op) != nil {
			rt.Fail("[open] %v %v", k, err)
		}
		p := &SPeer{W: w, Sid: op.SID, MP: mp}
		rt.HGo("peer reader", p.read)
		return p
	}
	a, b := peer("a"), peer("b")
	seq := []struct {
		p            *SPeer
		nsp, ev      string
		k, x         string
		want, forget string
	}{
		{a, "/", "set", "X-K", "1", "1", ""},
		{a, "/", "get", "x-k", "", "1", ""},
		{b, "/", "get", "X-K", "", "", ""},
		{a, "/n", "get", "x-k", "", "1", ""},
		{a, "/n", "set", "x-k", "2", "2", ""},
		{a, "/", "get", "X-K", "", "2", ""},
		{b, "/n", "set", "X-K", "3", "3", ""},
		{a, "/n", "get", "X-K", "", "2", ""},
		{b, "/", "get", "X-k", "", "3", ""},
		{b, "/n", "get", "user-agent", "", "uab", ""},
	}
	a.Pkt(0, "/n", "", "")
	b.Pkt(0, "/n", "", "")
	rt.Quiesce()
	for i, q := range seq {
		args := []string{canon(q.k)}
		if q.ev == "set" {
			args = append(args, canon(q.x))
		}
		n := len(q.p.Got)
		q.p.Pkt(2, q.nsp, fmt.Sprint(i+1), q.ev, args...)
		rt.Quiesce()
		got := q.p.Got[n:]
		want := fmt.Sprintf("3%s#%d (%s)", q.nsp, i+1, canon(q.want))
		if len(got) != 1 || got[0].String() != want {
			rt.Fail("[header] step %d: %s %s of %s in %s is answered %s, should be %s", i, q.ev, q.k, q.p.Sid, q.nsp, gots(got), want)
		}
	}
	for _, p := range []*SPeer{a, b} {
		for _, n := range []string{"/", "/n"} {
			so := socks[p.Sid+n]
			if so == nil || so.Sid() != p.Sid {
				rt.Fail("[sid] the socket of %s%s", p.Sid, n)
			}
			who := "a"
			if p == b {
				who = "b"
			}
			if so.RemoteAddr().String() != who+"-remote" {
				rt.Fail("[remote-addr] %v", so.RemoteAddr())
			}
		}
	}
	if v/2 == 1 {
		a.Pkt(1, "/n", "", "")
		b.W.Close()
		rt.Quiesce()
	}
	if len(bad) > 0 {
		rt.Fail("[header] %s", strings.Join(bad, "; "))
	}
}

func jsonTo(s string, v interface{}) error { return json.Unmarshal([]byte(s), v) }

func init() {
	n := len(hOps)
	reg(&rt.Scenario{Name: "header-histories", Props: []string{"C29"}, Quick: 0, Thorough: 0, Cfg: rt.Config{QuietLib: true}, N: 2 * n * n * n,
		Describe: func(v int) string {
			return fmt.Sprintf("websocket %v, %s, %s, %s, every one more", v&1 != 0, hOps[v/2/n/n], hOps[v/2/n%n], hOps[v/2%n])
		},
		Run: func(v int) {
			c := 0
			for x := 0; x < n; x++ {
				runHeaders(v&1 != 0, []int{v / 2 / n / n, v / 2 / n % n, v / 2 % n, x})
				c++
			}
			rt.Count("operation sequences", c)
		}})
	reg(&rt.Scenario{Name: "header-schedules", Props: []string{"C29"}, Split: true, Quick: 2, Thorough: 3, N: 6,
		Describe: func(v int) string {
			return fmt.Sprintf("upgrade kind %d, set in the upgrade callback %v", v%3, v/3 == 1)
		},
		Run: runHeaderSched})
	reg(&rt.Scenario{Name: "header-namespaces", Props: []string{"C29"}, Quick: 0, Thorough: 1, Cfg: rt.Config{QuietLib: true}, N: 4,
		Describe: func(v int) string { return fmt.Sprintf("msgpack %v, with an end %v", v&1 != 0, v/2 == 1) },
		Run:      runHeaderSio})
}

package harness

import (
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// SGot is a socket.io packet as the peer sees it; values are canonical text.
type SGot struct {
	Typ  int // 5 and 6 are reported as 2 and 3
	Nsp  string
	ID   string
	Ev   string
	Args []string
	Data string
}

func (g SGot) String() string {
	s := strconv.Itoa(g.Typ) + g.Nsp
	if g.ID != "" {
		s += "#" + g.ID
	}
	if g.Typ == 2 || g.Typ == 3 {
		return s + " " + g.Ev + "(" + strings.Join(g.Args, " ") + ")"
	}
	return s + g.Data
}

func gots(gs []SGot) string {
	var s []string
	for _, g := range gs {
		s = append(s, g.String())
	}
	return strings.Join(s, "; ")
}

// canon is the canonical text of a value.
func canon(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return fmt.Sprint(x)
	case string:
		return strconv.Quote(x)
	case mpBin:
		return "bin:" + string(x)
	case []byte:
		return "bin:" + string(x)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case mpF32:
		return strconv.FormatFloat(float64(x), 'g', -1, 64)
	case []interface{}:
		return canon(mpList(x))
	case mpList:
		var s []string
		for _, e := range x {
			s = append(s, canon(e))
		}
		return "[" + strings.Join(s, ",") + "]"
	case map[string]interface{}:
		var s []string
		for k, e := range x {
			s = append(s, strconv.Quote(k)+":"+canon(e))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ",") + "}"
	case mpMap:
		var s []string
		for _, e := range x {
			s = append(s, canon(e.k)+":"+canon(e.v))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ",") + "}"
	}
	return fmt.Sprint(v)
}

// SPeer is a hand-driven socket.io peer over a websocket.
type SPeer struct {
	W      *WS
	Sid    string
	MP     bool // msgpack
	Got    []SGot
	Ctl    []Pkt // engine packets other than messages
	Closed bool
	NoPong bool

	part *refPkt
	bins []string
}

// read takes frames in until the connection ends.
func (p *SPeer) read() {
	for {
		k, err := p.W.Recv()
		if err != nil {
			p.Closed = true
			if p.part != nil {
				rt.Cover("packet cut by the end of the connection")
			}
			rt.Note("peer eof")
			return
		}
		if k.Type != 4 {
			p.Ctl = append(p.Ctl, k)
			rt.Note("peer ctl")
			if k.Type == 2 && !p.NoPong && p.W.server {
				p.W.Send(Pkt{Type: 3, Data: k.Data})
			}
			continue
		}
		p.frame(dframe{k.Bin, k.Data})
		rt.Note("peer got")
	}
}

func (p *SPeer) frame(f dframe) {
	if p.MP {
		p.mpFrame(f)
		return
	}
	if f.bin {
		if p.part == nil {
			rt.Fail("[mixed] binary frame %q does not belong to a packet (after %s)", clip(f.s), gots(p.Got))
		}
		p.bins = append(p.bins, f.s)
		if len(p.bins) == p.part.n {
			p.done()
		}
		return
	}
	if p.part != nil {
		rt.Fail("[mixed] text frame %q while %d of %d attachments of %v are missing", clip(f.s), p.part.n-len(p.bins), p.part.n, *p.part)
	}
	q, v := refParse(f.s)
	if v != good {
		rt.Fail("[peer-frame] frame %q from the library is malformed", clip(f.s))
	}
	p.part, p.bins = &q, nil
	if q.n == 0 {
		p.done()
	}
}

func (p *SPeer) done() {
	q := p.part
	g := SGot{Typ: q.typ, Nsp: q.nsp, ID: q.id, Ev: q.ev}
	if g.Typ >= 5 {
		g.Typ -= 3
	}
	for _, a := range q.args {
		if n, ok := a.(binRef); ok {
			g.Args = append(g.Args, "bin:"+p.bins[int(n)])
		} else {
			g.Args = append(g.Args, canon(a))
		}
	}
	if q.has {
		g.Data = canon(q.data)
	}
	p.part = nil
	p.Got = append(p.Got, g)
}

func (p *SPeer) mpFrame(f dframe) {
	var g SGot
	if !f.bin {
		var m struct {
			Type *int
			Nsp  string
			Data interface{}
			ID   *uint64
		}
		if err := json.Unmarshal([]byte(f.s), &m); err != nil || m.Type == nil || *m.Type != 0 && *m.Type != 1 && *m.Type != 4 {
			rt.Fail("[peer-frame] text frame %q from the library is no CONNECT, DISCONNECT or ERROR packet", clip(f.s))
		}
		g = SGot{Typ: *m.Type, Nsp: m.Nsp}
		if m.Data != nil {
			g.Data = canon(m.Data)
		}
		p.Got = append(p.Got, g)
		return
	}
	v, rest, ok := mpRead([]byte(f.s))
	m, isMap := v.(mpMap)
	if !ok || len(rest) > 0 || !isMap {
		rt.Fail("[peer-frame] binary frame %x from the library is malformed", f.s)
	}
	for _, kv := range m {
		switch kv.k {
		case "type":
			n, _ := kv.v.(uint64)
			g.Typ = int(n)
		case "nsp":
			g.Nsp, _ = kv.v.(string)
		case "id":
			if kv.v != nil {
				g.ID = fmt.Sprint(kv.v)
			}
		case "data":
			l, isList := kv.v.(mpList)
			if !isList {
				rt.Fail("[peer-frame] binary frame %x from the library has no list of arguments", f.s)
			}
			if g.Typ == 2 || g.Typ == 5 {
				if len(l) == 0 {
					rt.Fail("[peer-frame] binary frame %x from the library has no event name", f.s)
				}
				g.Ev, _ = l[0].(string)
				l = l[1:]
			}
			for _, a := range l {
				g.Args = append(g.Args, canon(a))
			}
		}
	}
	if g.Typ >= 5 {
		g.Typ -= 3
	}
	p.Got = append(p.Got, g)
}

// Frames sends message frames.
func (p *SPeer) Frames(fs ...dframe) {
	for _, f := range fs {
		p.W.Send(Pkt{f.bin, 4, f.s})
	}
}

// Pkt sends a packet: args are JSON texts, or "bin:..." for binary ones.
func (p *SPeer) Pkt(typ int, nsp, id, ev string, args ...string) {
	p.Frames(p.pkt(typ, nsp, id, ev, args...)...)
}

func (p *SPeer) pkt(typ int, nsp, id, ev string, args ...string) []dframe {
	if p.MP {
		m := mpMap{{"type", typ}, {"nsp", nsp}}
		if typ == 2 || typ == 3 {
			l := mpList{}
			if typ == 2 {
				l = append(l, ev)
			}
			for _, a := range args {
				if strings.HasPrefix(a, "bin:") {
					l = append(l, mpBin(a[4:]))
				} else {
					l = append(l, mpJSON(a))
				}
			}
			m = append(m, mpKV{"data", l})
			if id != "" {
				n, _ := strconv.ParseUint(id, 10, 64)
				m = append(m, mpKV{"id", n})
			}
			return []dframe{{true, string(mpWrite(nil, m, false))}}
		}
		s := fmt.Sprintf(`{"type":%d,"nsp":%s`, typ, jsonStr(nsp))
		if len(args) > 0 {
			s += `,"data":` + args[0]
		}
		return []dframe{{s: s + "}"}}
	}
	q := sPkt{typ: typ, nsp: nsp, ev: ev}
	if id != "" {
		n, _ := strconv.ParseUint(id, 10, 64)
		q.id = &n
	}
	if typ == 2 || typ == 3 {
		for _, a := range args {
			if strings.HasPrefix(a, "bin:") {
				q.args = append(q.args, barg(a[4:], true))
			} else {
				q.args = append(q.args, sArg{js: a})
			}
		}
	} else if len(args) > 0 {
		q.err = args[0]
	}
	t, bs := q.frames(compact)
	fs := []dframe{{s: t}}
	for _, b := range bs {
		fs = append(fs, dframe{true, b})
	}
	return fs
}

// mpJSON turns JSON into what a msgpack peer sends for it.
func mpJSON(s string) interface{} {
	var v interface{}
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	var w func(v interface{}) interface{}
	w = func(v interface{}) interface{} {
		switch x := v.(type) {
		case json.Number:
			if n, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
				return n
			}
			f, _ := x.Float64()
			return f
		case []interface{}:
			l := mpList{}
			for _, e := range x {
				l = append(l, w(e))
			}
			return l
		case map[string]interface{}:
			m := mpMap{}
			for _, k := range sortedKeys(x) {
				m = append(m, mpKV{k, w(x[k])})
			}
			return m
		}
		return v
	}
	return w(v)
}

// Take returns what has arrived since the last Take, once everything is quiet.
func (p *SPeer) Take() []SGot {
	rt.Quiesce()
	g := p.Got
	p.Got = nil
	return g
}

// Sio is a socket.io server under test.
type Sio struct {
	*socketio.Server
	MP   bool
	Errs []string // of the server's OnError
}

func parserOf(mp bool) socketio.Parser {
	if mp {
		return socketio.MsgpackParser
	}
	return socketio.DefaultParser
}

func NewSio(interval, timeout time.Duration, mp bool) *Sio {
	s, err := socketio.NewServer(interval, timeout, parserOf(mp))
	if err != nil {
		rt.Fail("[new] NewServer: %v", err)
	}
	x := &Sio{Server: s, MP: mp}
	s.OnError(func(err error) { x.Errs = append(x.Errs, err.Error()); rt.Note("server error") })
	return x
}

// Peer connects a peer over websocket; what it receives is collected by a reader.
func (s *Sio) Peer() *SPeer {
	w := WSOpen(s, qWS, nil)
	if !w.Handshake() {
		rt.Fail("[open] websocket handshake refused: %d", w.Status)
	}
	p, err := w.Recv()
	if err != nil || p.Type != 0 || p.Bin {
		rt.Fail("[open] first websocket packet is %v (%v)", p, err)
	}
	var op openParams
	if err := json.Unmarshal([]byte(p.Data), &op); err != nil || op.SID == "" {
		rt.Fail("[open] OPEN packet %v: %v", p, err)
	}
	sp := &SPeer{W: w, Sid: op.SID, MP: s.MP}
	rt.HGo("peer reader", sp.read)
	return sp
}

// SioCli is a socket.io client under test with its hand-driven server.
type SioCli struct {
	*socketio.Client
	P    *SPeer
	Errs []string
}

// DialSio dials a peer which greets and reads.
func DialSio(host string, interval, timeout time.Duration, mp bool, setup func(c *socketio.Client)) *SioCli {
	x := &SioCli{Client: socketio.NewClient()}
	x.OnError(func(err interface{}) { x.Errs = append(x.Errs, fmt.Sprint(err)); rt.Note("client error") })
	setup(x.Client)
	ListenPeer(host+":80", func(w *WS, r *http.Request) {
		p := &SPeer{W: w, MP: mp, Sid: "S1"}
		w.Send(Pkt{Data: openParamsJSON(interval, timeout)})
		x.P = p
		rt.Note("peer up")
		p.read()
	})
	if err := x.Dial("ws://"+host+"/socket.io/", nil, engine.WebsocketTransport, parserOf(mp)); err != nil {
		rt.Fail("[dial] %v", err)
	}
	rt.Await("peer", func() bool { return x.P != nil })
	return x
}

// SSide is one end of the library with hand-driven peers.
type SSide struct {
	Name  string
	MP    bool
	Ns    func(nsp string) socketio.Namespace
	Peers []*SPeer // two for the server, one for the client
	Errs  func() []string
	H     Handler // the server
}

// SSides runs f's driver on one end of the library. kind: 0 server, 1 client; +2 for msgpack.
func newSSide(kind int, setup func(ns func(string) socketio.Namespace)) *SSide {
	mp := kind&2 != 0
	if kind&1 == 0 {
		s := NewSio(bigI, bigT, mp)
		setup(s.Namespace)
		x := &SSide{Name: "server", MP: mp, Ns: s.Namespace, Errs: func() []string { return s.Errs }, H: s}
		x.Peers = []*SPeer{s.Peer(), s.Peer()}
		for _, p := range x.Peers {
			if g := p.Take(); gots(g) != "0/" {
				rt.Fail("[greeting] a new connection's first packets are %s", gots(g))
			}
		}
		return x
	}
	c := DialSio("h", bigI, bigT, mp, func(c *socketio.Client) { setup(c.Namespace) })
	x := &SSide{Name: "client", MP: mp, Ns: c.Namespace, Peers: []*SPeer{c.P}, Errs: func() []string { return c.Errs }}
	c.P.Pkt(0, "/", "", "")
	rt.Quiesce()
	return x
}

func sideName(kind int) string {
	s := []string{"server", "client"}[kind&1]
	return s + []string{", default parser", ", msgpack parser"}[kind>>1]
}

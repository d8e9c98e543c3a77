package harness

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

func init() { log.SetOutput(io.Discard) }

// Ev is one observed server callback.
type Ev struct {
	Kind string // open message close upgrade ping pong
	Sid  string
	Bin  bool
	Data string
	raw  []byte // what the callback was given; the application may keep it
}

// still fails if what was given to a callback has changed since.
func (e Ev) still() {
	if string(e.raw) != e.Data {
		rt.Fail("[kept-data] the data of a %s changed after its callback was given it: %q became %q", e.Kind, clip(e.Data), clip(string(e.raw)))
	}
}

func (e Ev) String() string {
	k := "s"
	if e.Bin {
		k = "b"
	}
	return fmt.Sprintf("%s/%s:%s", e.Kind, k, clip(e.Data))
}

// Eng is an engine.io server under test with recording callbacks.
type Eng struct {
	*engine.Server
	Evs       []Ev
	Socks     map[string]*engine.Socket
	Order     []string
	inCB      map[string]int
	OnOpen    func(s *engine.Socket)
	OnMsg     func(s *engine.Socket, bin bool, data string)
	OnClose   func(s *engine.Socket)
	OnUpgr    func(s *engine.Socket)
	OnPing    func(s *engine.Socket)
	Interval  time.Duration
	Timeout   time.Duration
	SerialMsg bool
}

// NewEng makes a server with the given heartbeat.
func NewEng(interval, timeout time.Duration, oc ...engine.OriginChecker) *Eng {
	e := &Eng{Socks: map[string]*engine.Socket{}, inCB: map[string]int{}, Interval: interval, Timeout: timeout}
	srv, err := engine.NewServer(interval, timeout, func(s *engine.Socket) {
		e.Socks[s.Sid()] = s
		e.Order = append(e.Order, s.Sid())
		e.add(Ev{Kind: "open", Sid: s.Sid()})
		rt.Nap()
		if e.OnOpen != nil {
			e.OnOpen(s)
		}
	}, oc...)
	if err != nil {
		rt.Fail("[new] NewServer: %v", err)
	}
	e.Server = srv
	on := func(kind string, f func(so *engine.Socket, bin bool, data string)) engine.Callback {
		return func(so *engine.Socket, typ engine.MessageType, data []byte) {
			if kind == "message" {
				if e.inCB[so.Sid()] > 0 {
					rt.Fail("[concurrent] two message callbacks of one session run at the same time")
				}
				e.inCB[so.Sid()]++
				defer func() { e.inCB[so.Sid()]-- }()
			}
			e.add(Ev{Kind: kind, Sid: so.Sid(), Bin: typ == engine.MessageTypeBinary, Data: string(data), raw: data})
			rt.Nap()
			if f != nil {
				f(so, typ == engine.MessageTypeBinary, string(data))
			}
		}
	}
	srv.On(engine.EventMessage, on("message", func(so *engine.Socket, bin bool, data string) {
		if e.OnMsg != nil {
			e.OnMsg(so, bin, data)
		}
	}))
	srv.On(engine.EventClose, on("close", func(so *engine.Socket, _ bool, _ string) {
		if e.OnClose != nil {
			e.OnClose(so)
		}
	}))
	srv.On(engine.EventUpgrade, on("upgrade", func(so *engine.Socket, _ bool, _ string) {
		if e.OnUpgr != nil {
			e.OnUpgr(so)
		}
	}))
	srv.On(engine.EventPing, on("ping", func(so *engine.Socket, _ bool, _ string) {
		if e.OnPing != nil {
			e.OnPing(so)
		}
	}))
	srv.On(engine.EventPong, on("pong", nil))
	return e
}

func (e *Eng) add(v Ev) {
	e.Evs = append(e.Evs, v)
	rt.Note("cb " + v.Kind)
}

// Got lists the data of the messages delivered for a session.
func (e *Eng) Got(sid string) []Pkt {
	var out []Pkt
	for _, v := range e.Evs {
		if v.Kind == "message" && v.Sid == sid {
			v.still()
			out = append(out, Pkt{v.Bin, 4, v.Data})
		}
	}
	return out
}

// Count counts events of a kind.
func (e *Eng) Count(kind, sid string) int {
	n := 0
	for _, v := range e.Evs {
		if v.Kind == kind && (sid == "" || v.Sid == sid) {
			n++
		}
	}
	return n
}

// Sess is a polling client of the server.
type Sess struct {
	E     *Eng
	Sid   string
	Flav  string // extra query of polls: "", "&b64=1", "&j=0"
	Got   []Pkt  // packets received by polls, in order
	Polls int
	Gone  bool // a poll was answered with an error
	Errs  []string
}

type openParams struct {
	SID          string   `json:"sid"`
	Upgrades     []string `json:"upgrades"`
	PingInterval int      `json:"pingInterval"`
	PingTimeout  int      `json:"pingTimeout"`
}

const qPoll = "EIO=3&transport=polling"
const qWS = "EIO=3&transport=websocket"

// decodePoll decodes a poll response by the flavour it asked for.
func decodePoll(flav string, r *Resp) ([]Pkt, error) {
	ct := ""
	if r.Header_ != nil {
		ct = r.Header_.Get("Content-Type")
	}
	media := strings.TrimSpace(strings.SplitN(ct, ";", 2)[0])
	switch {
	case strings.HasPrefix(flav, "&j="):
		if media != "text/javascript" && media != "application/javascript" {
			return nil, fmt.Errorf("JSONP response has content type %q", ct)
		}
		s, err := decJSONP(string(r.Body), strings.TrimPrefix(flav, "&j="))
		if err != nil {
			return nil, err
		}
		return decText(s)
	case flav == "&b64=1":
		if media != "text/plain" {
			return nil, fmt.Errorf("base64 response has content type %q", ct)
		}
		return decText(string(r.Body))
	default:
		if media != "application/octet-stream" {
			return nil, fmt.Errorf("binary response has content type %q", ct)
		}
		return decBin(string(r.Body))
	}
}

// lenient decoding for drivers whose oracle is elsewhere
func decodeAny(flav string, r *Resp) ([]Pkt, error) {
	switch {
	case flav == "&b64=1":
		return decText(string(r.Body))
	default:
		return decBin(string(r.Body))
	}
}

// Open opens a polling session and checks the OPEN packet.
func (e *Eng) Open() *Sess { return e.OpenF("") }

// OpenF opens with a poll flavour.
func (e *Eng) OpenF(flav string) *Sess {
	r := Do(e, Req{Method: "GET", Query: qPoll + flav})
	if r.Code != 200 {
		rt.Fail("[open] handshake answered %v", r)
	}
	ps, err := decodeAny(flav, r)
	if err != nil || len(ps) == 0 || ps[0].Type != 0 {
		rt.Fail("[open] handshake response is not an OPEN packet: %v (%v)", r, err)
	}
	var p openParams
	if err := json.Unmarshal([]byte(ps[0].Data), &p); err != nil || p.SID == "" {
		rt.Fail("[open] OPEN packet %v: %v", ps[0], err)
	}
	s := &Sess{E: e, Sid: p.SID, Flav: flav}
	s.Got = append(s.Got, ps[1:]...)
	return s
}

// Sock is the server's socket of the session, once its open callback ran.
func (s *Sess) Sock() *engine.Socket {
	rt.Await("open callback", func() bool { return s.E.Socks[s.Sid] != nil })
	return s.E.Socks[s.Sid]
}

// Poll performs one poll; false when it was refused.
func (s *Sess) Poll() bool {
	rt.Nap()
	r := Do(s.E, Req{Method: "GET", Query: qPoll + s.Flav + "&sid=" + s.Sid})
	return s.take(r)
}

func (s *Sess) take(r *Resp) bool {
	s.Polls++
	if r.Code != 200 {
		s.Gone = true
		s.Errs = append(s.Errs, r.String())
		return false
	}
	ps, err := decodeAny(s.Flav, r)
	if err != nil {
		rt.Fail("[poll-decode] poll response %v: %v", r, err)
	}
	if len(ps) == 0 {
		rt.Fail("[poll-empty] empty poll response")
	}
	for _, p := range ps {
		s.Got = append(s.Got, p)
	}
	rt.Note("polled")
	return true
}

// Messages filters message packets.
func messages(ps []Pkt) []Pkt {
	var out []Pkt
	for _, p := range ps {
		if p.Type == 4 {
			out = append(out, p)
		}
	}
	return out
}

// Post posts packets in the session's encoding.
func (s *Sess) Post(ps ...Pkt) *Resp {
	rt.Nap()
	if s.Flav == "" {
		return Do(s.E, Req{Method: "POST", Query: qPoll + "&sid=" + s.Sid, CT: ctBin, Body: []byte(encBin(ps...))})
	}
	return Do(s.E, Req{Method: "POST", Query: qPoll + s.Flav + "&sid=" + s.Sid, CT: ctText, Body: []byte(encText(ps...))})
}

func msg(d string) Pkt  { return Pkt{false, 4, d} }
func bmsg(d string) Pkt { return Pkt{true, 4, d} }

// WSSession opens a session directly on websocket.
func (e *Eng) WSSession() (*WS, string) {
	w := WSOpen(e, qWS, nil)
	if !w.Handshake() {
		rt.Fail("[open] websocket handshake refused: %d", w.Status)
	}
	p, err := w.Recv()
	if err != nil || p.Type != 0 || p.Bin {
		rt.Fail("[open] first websocket packet is %v (%v)", p, err)
	}
	var op openParams
	if err := json.Unmarshal([]byte(p.Data), &op); err != nil || op.SID == "" {
		rt.Fail("[open] OPEN packet %v: %v", p, err)
	}
	return w, op.SID
}

func (e *Eng) Sock(sid string) *engine.Socket {
	rt.Await("open callback", func() bool { return e.Socks[sid] != nil })
	return e.Socks[sid]
}

func pktsEqual(a, b []Pkt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func show(ps []Pkt) string {
	var s []string
	for _, p := range ps {
		s = append(s, p.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}

var _ = sort.Strings
var _ http.Handler = (*Eng)(nil)

// emit sends a message through the server socket.
func emit(so *engine.Socket, p Pkt) error {
	t := engine.MessageTypeString
	if p.Bin {
		t = engine.MessageTypeBinary
	}
	return so.Emit(engine.EventMessage, t, []byte(p.Data))
}

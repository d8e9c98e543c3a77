
import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/zyxar/socketio/engine"
)

var _ = bytes.NewReader
var _ = sync.NewCond
var _ = fmt.Sprint
var _ = http.StatusOK

// rig is an engine server behind a real HTTP server.
type rig struct {
	t    *testing.T
	srv  *engine.Server
	url  string
	mu   sync.Mutex
	so   map[string]*engine.Socket
	msgs []string
	ends int
}

func newRig(t *testing.T, interval, timeout time.Duration, oc ...engine.OriginChecker) *rig {
	r := &rig{t: t, so: map[string]*engine.Socket{}}
	srv, err := engine.NewServer(interval, timeout, func(s *engine.Socket) {
		r.mu.Lock()
		r.so[s.Sid()] = s
		r.mu.Unlock()
	}, oc...)
	if err != nil {
		t.Fatal(err)
	}
	r.srv = srv
	srv.On(engine.EventMessage, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, data []byte) {
		r.mu.Lock()
		r.msgs = append(r.msgs, string(data))
		r.mu.Unlock()
	}))
	srv.On(engine.EventClose, engine.Callback(func(_ *engine.Socket, _ engine.MessageType, _ []byte) {
		r.mu.Lock()
		r.ends++
		r.mu.Unlock()
	}))
	h := httptest.NewServer(srv)
	r.url = h.URL
	return r
}

func (r *rig) got() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string(nil), r.msgs...)
}

func (r *rig) sock(sid string) *engine.Socket {
	for i := 0; i < 300; i++ {
		r.mu.Lock()
		s := r.so[sid]
		r.mu.Unlock()
		if s != nil {
			return s
		}
		time.Sleep(10 * time.Millisecond)
	}
	r.t.Fatal("no socket")
	return nil
}

// wait polls until f holds.
func wait(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

var hc = &http.Client{Timeout: 20 * time.Second}

func (r *rig) do(method, query, ct, body string) (int, string, http.Header) {
	req, _ := http.NewRequest(method, r.url+"/?EIO=3&"+query, strings.NewReader(body))
	if ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	resp, err := hc.Do(req)
	if err != nil {
		return 0, err.Error(), nil
	}
	defer resp.Body.Close()
	b, _ := ioutil.ReadAll(resp.Body)
	return resp.StatusCode, string(b), resp.Header
}

// packets decodes a text payload of ASCII packets.
func packets(s string) (out []string) {
	for len(s) > 0 {
		i := strings.IndexByte(s, ':')
		if i < 0 {
			return append(out, "?"+s)
		}
		n, err := strconv.Atoi(s[:i])
		if err != nil || i+1+n > len(s) {
			return append(out, "?"+s)
		}
		out = append(out, s[i+1:i+1+n])
		s = s[i+1+n:]
	}
	return
}

func sidOf(open string) string {
	var p struct {
		SID string `json:"sid"`
	}
	if len(open) > 0 {
		json.Unmarshal([]byte(open[1:]), &p)
	}
	return p.SID
}

func (r *rig) open() string {
	c, b, _ := r.do("GET", "transport=polling&b64=1", "", "")
	ps := packets(b)
	if c != 200 || len(ps) == 0 || sidOf(ps[0]) == "" {
		r.t.Fatalf("handshake: %d %q", c, b)
	}
	r.sock(sidOf(ps[0]))
	return sidOf(ps[0])
}

func (r *rig) poll(sid string) (int, []string) {
	c, b, _ := r.do("GET", "transport=polling&b64=1&sid="+sid, "", "")
	if c != 200 {
		return c, nil
	}
	return c, packets(b)
}

func (r *rig) post(sid string, pkts ...string) (int, string) {
	var b strings.Builder
	for _, p := range pkts {
		fmt.Fprintf(&b, "%d:%s", len(p), p)
	}
	c, s, _ := r.do("POST", "transport=polling&sid="+sid, "text/plain; charset=UTF-8", b.String())
	return c, s
}

func (r *rig) ws(sid string) *websocket.Conn {
	u := "ws" + r.url[4:] + "/?EIO=3&transport=websocket"
	if sid != "" {
		u += "&sid=" + sid
	}
	c, _, err := websocket.DefaultDialer.Dial(u, nil)
	if err != nil {
		r.t.Fatalf("websocket: %v", err)
	}
	return c
}

// wsOpen opens a websocket session.
func (r *rig) wsOpen() (*websocket.Conn, string) {
	c := r.ws("")
	sid := sidOf(recv(c))
	r.sock(sid)
	return c, sid
}

func send(c *websocket.Conn, s string) { c.WriteMessage(websocket.TextMessage, []byte(s)) }

// recv is the next message, "" when there is none within five seconds.
func recv(c *websocket.Conn) string {
	c.SetReadDeadline(time.Now().Add(5 * time.Second))
	_, b, err := c.ReadMessage()
	if err != nil {
		return ""
	}
	return string(b)
}

// probe does the first half of an upgrade.
func (r *rig) probe(sid string) *websocket.Conn {
	c := r.ws(sid)
	send(c, "2probe")
	if s := recv(c); s != "3probe" {
		r.t.Fatalf("probe answered %q", s)
	}
	return c
}

package harness

import (
	"bufio"
	"crypto/sha1"
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"

	"vmc/rt"
)

// ---- C30: what comes of a Dial, whatever the server answers

type dialAns struct {
	name string
	ok   bool
	lost bool   // the connection ends right after
	resp string // instead of the websocket response
	send func(w *WS)
}

func bytesOf(s string) func(w *WS) { return func(w *WS) { io.WriteString(w.C, s) } }
func textFrame(s string) func(w *WS) {
	return func(w *WS) { w.WriteFrame(true, 1, []byte(s)) }
}

const accepted = "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"

func openFrame() string { return "0" + openParamsJSON(bigI, bigT) }

var dialAnswers = func() []dialAns {
	l := []dialAns{
		{name: "OPEN", ok: true, send: func(w *WS) { textFrame(openFrame())(w) }},
		{name: "OPEN in a binary frame", ok: true, send: func(w *WS) { w.WriteFrame(true, 2, []byte("\x00"+openFrame()[1:])) }},
		{name: "OPEN in fragments", ok: true, send: func(w *WS) {
			o := openFrame()
			w.WriteFrame(false, 1, []byte(o[:1]))
			w.WriteFrame(false, 0, []byte(o[1:9]))
			w.WriteFrame(true, 0, []byte(o[9:]))
		}},
		{name: "a ping frame, then OPEN", ok: true, send: func(w *WS) { w.WriteFrame(true, 9, []byte("p")); textFrame(openFrame())(w) }},
		{name: "a pong frame within OPEN", ok: true, send: func(w *WS) {
			o := openFrame()
			w.WriteFrame(false, 1, []byte(o[:5]))
			w.WriteFrame(true, 10, nil)
			w.WriteFrame(true, 0, []byte(o[5:]))
		}},
		{name: "OPEN with more in it", ok: true, send: func(w *WS) {
			textFrame(`0 {"x":[{}],"upgrades":["webtransport"],"maxPayload":1e6,` + openFrame()[2:])(w)
		}},
		{name: "OPEN, then the connection lost", ok: true, lost: true, send: func(w *WS) { textFrame(openFrame())(w); w.Close() }},
		{name: "OPEN, then a close frame", ok: true, lost: true, send: func(w *WS) { textFrame(openFrame())(w); w.CloseFrame() }},
		{name: "OPEN, then a CLOSE packet", ok: true, lost: true, send: func(w *WS) { textFrame(openFrame())(w); w.Send(Pkt{Type: 1}) }},
		{name: "nothing, connection lost", resp: "", send: func(w *WS) { w.Close() }},
		{name: "websocket, connection lost", send: func(w *WS) { w.Close() }},
		{name: "websocket, reset", send: func(w *WS) { w.C.Reset() }},
		{name: "websocket, close frame", send: func(w *WS) { w.CloseFrame() }},
		{name: "OPEN cut off", send: func(w *WS) { io.WriteString(w.C, string(frame(true, 1, false, []byte(openFrame())))[:20]); w.Close() }},
		{name: "OPEN without its last fragment", send: func(w *WS) { w.WriteFrame(false, 1, []byte(openFrame())); w.Close() }},
		{name: "empty message, then OPEN", send: func(w *WS) { textFrame("")(w); textFrame(openFrame())(w); w.Close() }},
		{name: "OPEN with masked frames", send: func(w *WS) { w.C.Write(frame(true, 1, true, []byte(openFrame()))) }},
		{name: "reserved opcode", send: func(w *WS) { w.WriteFrame(true, 3, []byte(openFrame())) }},
		{name: "broken accept key", resp: accepted + "Sec-WebSocket-Accept: AAAA\r\n\r\n", send: func(w *WS) { textFrame(openFrame())(w) }},
		{name: "no upgrade header", resp: "HTTP/1.1 101 Switching Protocols\r\n\r\n"},
		{name: "no HTTP", resp: "SSH-2.0-x\r\n\r\n"},
		{name: "truncated HTTP", resp: "HTTP/1.1 101 Swi", send: func(w *WS) { w.Close() }},
	}
	for _, c := range []int{200, 204, 301, 400, 401, 403, 404, 500, 502} {
		l = append(l, dialAns{name: fmt.Sprint("HTTP ", c), resp: fmt.Sprintf("HTTP/1.1 %d X\r\nContent-Length: 4\r\nLocation: /x\r\n\r\nbody", c)})
	}
	l = append(l, dialAns{name: "HTTP 400, body cut off", resp: "HTTP/1.1 400 X\r\nContent-Length: 40\r\n\r\nbody", send: func(w *WS) { w.Close() }})
	for _, p := range []string{"1", "2", "2probe", "3probe", "4hi", "5", "6", "7", "9", "x", " ", "0", "0{", "0x", `0"sid"`, "0[1]", "01", `0{"sid":5}`, `0{"sid":"a","pingInterval":"x"}`, `0{"sid":"a"`, `0{"sid":"a"}}`, "40", "40/n", `42["x"]`} {
		p := p
		l = append(l, dialAns{name: "first message " + p, send: textFrame(p)})
		l = append(l, dialAns{name: "first message " + p + ", then OPEN", send: func(w *WS) { textFrame(p)(w); textFrame(openFrame())(w) }})
	}
	for i := 1; i < 8; i++ {
		i := i
		l = append(l, dialAns{name: fmt.Sprint("binary packet ", i), send: func(w *WS) { w.WriteFrame(true, 2, []byte{byte(i), '{', '}'}) }})
	}
	return l
}()

// serveDial stands for the server of one connection.
func serveDial(c *rt.Conn, a *dialAns, saw func(r *http.Request), good func(w *WS)) {
	rt.HGo("peer", func() {
		w := &WS{C: c, S: c.Peer(), br: bufio.NewReaderSize(c, 65536), server: true}
		r, err := http.ReadRequest(w.br)
		if err != nil {
			return
		}
		saw(r)
		resp := ""
		if a != nil {
			resp = a.resp
		}
		if a == nil || a.name != "nothing, connection lost" && resp == "" {
			h := sha1.Sum([]byte(r.Header.Get("Sec-Websocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
			resp = accepted + "Sec-WebSocket-Accept: " + base64.StdEncoding.EncodeToString(h[:]) + "\r\n\r\n"
		}
		io.WriteString(c, resp)
		if a == nil {
			good(w)
			return
		}
		if a.send != nil {
			a.send(w)
		}
		if a.ok && !a.lost {
			good(w)
			return
		}
		io.Copy(io.Discard, w.br)
	})
}

// dials makes the Go client's side for engine and socket.io alike.
type dials struct {
	mp      bool
	sio     bool
	c       *socketio.Client
	ec      *engine.Client
	log     []string
	conns   []*rt.Conn
	reqs    []*http.Request
	answers []*dialAns // of the connections, nil for a good one
}

func (d *dials) add(f string, a ...interface{}) {
	d.log = append(d.log, fmt.Sprintf(f, a...))
	rt.Note("cb")
}

func newDials(v int) *dials {
	d := &dials{sio: v > 0, mp: v > 1}
	if d.sio {
		d.c = socketio.NewClient()
		d.c.Namespace("/").OnConnect(func(so socketio.Socket) { d.add("connect %s", so.Sid()) }).
			OnDisconnect(func(so socketio.Socket) { d.add("disconnect %s", so.Sid()) }).
			OnEvent("q", func(so socketio.Socket, x string) string { d.add("q %s", x); return x + "!" })
	}
	rt.Listen("h:80", func(c *rt.Conn) {
		var a *dialAns
		if len(d.answers) > len(d.conns) {
			a = d.answers[len(d.conns)]
		}
		d.conns = append(d.conns, c)
		serveDial(c, a, func(r *http.Request) { d.reqs = append(d.reqs, r) }, func(w *WS) { d.serve(w, a == nil) })
	})
	return d
}

// serve is a good server: it greets, and asks.
func (d *dials) serve(w *WS, greet bool) {
	p := &SPeer{W: w, MP: d.mp}
	if greet {
		textFrame(openFrame())(w)
	}
	rt.HGo("peer reader", func() {
		if d.sio {
			p.read()
			return
		}
		for {
			k, err := w.Recv()
			if err != nil {
				return
			}
			if k.Type == 4 {
				d.add("got %s", k.Data)
			}
		}
	})
	if d.sio {
		p.Pkt(0, "/", "", "")
		p.Pkt(2, "/", "7", "q", `"x"`)
		rt.Await("answer", func() bool { return len(p.Got) > 0 })
		d.add("answered %s", gots(p.Got))
	} else {
		w.Send(msg("hello"))
	}
}

func (d *dials) dial(url string, h http.Header, tr engine.Dialer) error {
	if d.sio {
		return d.c.Dial(url, h, tr, parserOf(d.mp))
	}
	c, err := engine.Dial(url, h, tr, func(c *engine.Client) {
		c.On(engine.EventMessage, engine.Callback(func(so *engine.Socket, _ engine.MessageType, b []byte) {
			d.add("message %s", b)
			so.Emit(engine.EventMessage, engine.MessageTypeString, []byte("re "+string(b)))
		}))
		c.On(engine.EventClose, engine.Callback(func(so *engine.Socket, _ engine.MessageType, _ []byte) { d.add("close %s", so.Sid()) }))
	})
	d.ec = c
	if (c == nil) != (err != nil) {
		rt.Fail("[dial] a client %v and an error %v", c != nil, err)
	}
	return err
}

// working checks a client that has just been dialled.
func (d *dials) working(what string) {
	rt.Quiesce()
	want := []string{"message hello", "got re hello"}
	if d.sio {
		want = []string{"connect S1", "q x", `answered 3/#7 ("x!")`}
	}
	if strings.Join(d.log, "; ") != strings.Join(want, "; ") {
		rt.Fail("[dial] %s: the client does %q, should do %q", what, d.log, want)
	}
	d.log = nil
	sid := ""
	if d.sio {
		sid = d.c.Sid()
	} else {
		sid = d.ec.Sid()
	}
	if sid != "S1" {
		rt.Fail("[dial] %s: the session id is %q", what, sid)
	}
}

func (d *dials) close() error {
	if d.sio {
		return d.c.Close()
	}
	return d.ec.Close()
}

// failed checks that nothing is left of a Dial.
func (d *dials) failed(what string, n int) {
	rt.Quiesce()
	if l := rt.Live(); len(l) > 0 {
		rt.Fail("[dial-worker] %s: Dial failed, and %d workers are left: %s", what, len(l), strings.Join(l, ", "))
	}
	for _, c := range d.conns[n:] {
		if !c.PeerClosed() {
			rt.Fail("[dial-conn] %s: Dial failed, and leaves its connection open", what)
		}
	}
	if len(d.log) > 0 {
		rt.Fail("[dial] %s: Dial failed, and the callbacks are %q", what, d.log)
	}
}

func (d *dials) attempt(a *dialAns) {
	d.answers = make([]*dialAns, len(d.conns)+1)
	d.answers[len(d.conns)] = a
	n := len(d.conns)
	err := d.dial("ws://h/socket.io/", nil, engine.WebsocketTransport)
	if a != nil && !a.ok {
		if err == nil {
			rt.Fail("[dial] the server answers %s, and Dial succeeds", a.name)
		}
		d.failed(a.name, n)
		return
	}
	what := "a good server"
	if a != nil {
		what = a.name
	}
	if err != nil {
		rt.Fail("[dial] the server answers %s, and Dial fails: %v", what, err)
	}
	if a == nil || !a.lost {
		d.working(what)
		d.close()
	}
	rt.Quiesce()
	rt.AwaitFor("heartbeat", int64(2*(bigI+bigT)), func() bool { return false })
	rt.Quiesce()
	if l := rt.Live(); len(l) > 0 {
		rt.Fail("[dial-worker] %s: %d workers are left after the end: %s", what, len(l), strings.Join(l, ", "))
	}
	if !d.conns[n].PeerClosed() && !(a != nil && a.lost) {
		rt.Fail("[dial-conn] %s: the connection is open after the end", what)
	}
	end := "close S1"
	if d.sio {
		end = "disconnect S1"
	}
	if a != nil && a.lost && d.sio {
		end = "" // no namespace was connected
	}
	if got := strings.Join(d.log, "; "); got != end {
		rt.Fail("[dial] %s: at its end, the client does %q, should do %q", what, got, end)
	}
	d.log = nil
}

type dialURL struct {
	url  string
	ok   bool
	path string
	q    string // other parameters it must keep, encoded
	tr   engine.Dialer
}

var dialURLs = []dialURL{
	{url: "ws://h/engine.io/", ok: true, path: "/engine.io/"},
	{url: "ws://h:80/a/b%20c/", ok: true, path: "/a/b c/"},
	{url: "ws://h/socket.io/?token=a%26b%3Dc&x=1&x=2", ok: true, path: "/socket.io/", q: "token=a%26b%3Dc&x=1&x=2"},
	{url: "ws://h/socket.io/?EIO=4&transport=polling&t=1", ok: true, path: "/socket.io/", q: "t=1"},
	{url: "ws://h/?q=%00%ff+x", ok: true, path: "/", q: "q=%00%FF+x"},
	{url: "ws://h", ok: true, path: "/"},
	{url: "ws://nowhere/"}, {url: "ws://h:81/"}, {url: "http://h/"}, {url: "ftp://h/"}, {url: "://h"}, {url: ""}, {url: "ws://h:port/"}, {url: "ws://u:p@h/"}, {url: "h/socket.io/"},
	{url: "ws://%zz/"}, {url: "ws://h/%zz"},
	{url: "ws://h/", tr: engine.PollingTransport},
}

func runDialURL(v int) {
	d := newDials(v % 3)
	c := dialURLs[v/3%len(dialURLs)]
	if c.tr == nil {
		c.tr = engine.WebsocketTransport
	}
	h := http.Header{"X-A": {"1", "2"}, "User-Agent": {"me"}, "Cookie": {"a=b"}}
	var give http.Header
	if v/3/len(dialURLs) == 1 {
		give = h.Clone()
	}
	err := d.dial(c.url, give, c.tr)
	if give != nil && fmt.Sprint(give) != fmt.Sprint(h) {
		rt.Fail("[dial-header] the caller's header became %v", give)
	}
	if !c.ok {
		if err == nil {
			rt.Fail("[dial] to %q succeeds", c.url)
		}
		d.failed(c.url, 0)
		d.attempt(nil)
		return
	}
	if err != nil {
		rt.Fail("[dial] to %q: %v", c.url, err)
	}
	r := d.reqs[0]
	q := r.URL.Query()
	if r.URL.Path != c.path || r.Method != "GET" || r.Host != "h" && r.Host != "h:80" {
		rt.Fail("[dial-request] to %q: %s %s to %s", c.url, r.Method, r.URL.Path, r.Host)
	}
	for k, x := range map[string]string{"EIO": "3", "transport": "websocket"} {
		if len(q[k]) != 1 || q[k][0] != x {
			rt.Fail("[dial-request] to %q: %s is %q", c.url, k, q[k])
		}
		q.Del(k)
	}
	if want, _ := url.ParseQuery(c.q); q.Encode() != want.Encode() {
		rt.Fail("[dial-request] to %q: the other parameters are %q", c.url, q.Encode())
	}
	for k := range h {
		want := fmt.Sprint(h[k])
		if give == nil {
			want = "[]"
		}
		if got := fmt.Sprint(r.Header[k]); got != want && !(give == nil && k == "User-Agent") {
			rt.Fail("[dial-header] %s is sent as %s, should be %s", k, got, want)
		}
	}
	d.working(c.url)
	// the session's headers are its own
	var so interface {
		GetHeader(string) string
		SetHeader(string, string)
	}
	if so = d.ec; d.sio {
		so = d.c
	}
	want := ""
	if give != nil {
		want = "1"
	}
	if g := so.GetHeader("x-a"); g != want {
		rt.Fail("[dial-header] GetHeader of X-A is %q, should be %q", g, want)
	}
	so.SetHeader("x-a", "3")
	so.SetHeader("X-new", "4")
	if so.GetHeader("X-A") != "3" || so.GetHeader("x-New") != "4" {
		rt.Fail("[dial-header] SetHeader has no effect")
	}
	if give != nil && fmt.Sprint(give) != fmt.Sprint(h) {
		rt.Fail("[dial-header] SetHeader makes the caller's header %v", give)
	}
	d.close()
	rt.Outcome("%v", q)
}

var _ = time.Second

func init() {
	n := len(dialAnswers)
	name := func(v int) string { return []string{"engine.io", "socket.io", "socket.io, msgpack"}[v] }
	reg(&rt.Scenario{Name: "dial-answers", Props: []string{"C30"}, Split: true, Quick: 1, Thorough: 2, Cfg: rt.Config{QuietLib: true}, N: 3 * n,
		Describe: func(v int) string { return name(v/n) + ": " + dialAnswers[v%n].name },
		Run: func(v int) {
			d := newDials(v / n)
			d.attempt(&dialAnswers[v%n])
			d.attempt(nil)
		}})
	reg(&rt.Scenario{Name: "dial-histories", Props: []string{"C30"}, Quick: 0, Thorough: 0, Cfg: rt.Config{QuietLib: true}, N: 3 * n,
		Describe: func(v int) string {
			return name(v/n) + ": " + dialAnswers[v%n].name + ", then each other, then a good one"
		},
		Run: func(v int) {
			d := newDials(v / n)
			for i := range dialAnswers {
				d.attempt(&dialAnswers[v%n])
				d.attempt(&dialAnswers[i])
				if i%8 == 0 {
					d.attempt(nil)
				}
			}
			rt.Count("histories", len(dialAnswers))
		}})
	u := len(dialURLs)
	reg(&rt.Scenario{Name: "dial-urls", Props: []string{"C30", "C29"}, Quick: 1, Thorough: 2, Cfg: rt.Config{QuietLib: true}, N: 3 * u * 2,
		Describe: func(v int) string {
			return fmt.Sprintf("%s: %q, headers %v", name(v%3), dialURLs[v/3%u].url, v/3/u == 1)
		}, Run: runDialURL})
}

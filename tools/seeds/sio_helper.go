
import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/gorilla/websocket"
	"github.com/tinylib/msgp/msgp"
	"github.com/zyxar/socketio"
	"github.com/zyxar/socketio/engine"
)

var _ = engine.WebsocketTransport
var _ = fmt.Sprint
var _ = strings.Contains
var _ = http.StatusOK
var _ = runtime.GC
var _ = msgp.NextType

// notes collects what callbacks report.
type notes struct {
	mu sync.Mutex
	l  []string
}

func (n *notes) add(f string, a ...interface{}) {
	n.mu.Lock()
	n.l = append(n.l, fmt.Sprintf(f, a...))
	n.mu.Unlock()
}
func (n *notes) all() []string {
	n.mu.Lock()
	defer n.mu.Unlock()
	return append([]string(nil), n.l...)
}
func (n *notes) count(s string) int {
	c := 0
	for _, x := range n.all() {
		if x == s {
			c++
		}
	}
	return c
}

func wait(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

func newServer(t *testing.T, p socketio.Parser) (*socketio.Server, string) {
	s, err := socketio.NewServer(25*time.Second, 60*time.Second, p)
	if err != nil {
		t.Fatal(err)
	}
	return s, "ws" + httptest.NewServer(s).URL[4:]
}

// peer is a hand-driven socket.io client.
type peer struct {
	t *testing.T
	c *websocket.Conn
}

func dial(t *testing.T, url string) *peer {
	c, _, err := websocket.DefaultDialer.Dial(url+"/?EIO=3&transport=websocket", nil)
	if err != nil {
		t.Fatal(err)
	}
	p := &peer{t, c}
	if s := p.recv(); !strings.HasPrefix(s, "0{") {
		t.Fatalf("no open packet: %q", s)
	}
	return p
}

func (p *peer) send(s string)   { p.c.WriteMessage(websocket.TextMessage, []byte(s)) }
func (p *peer) sendBin(s string) { p.c.WriteMessage(websocket.BinaryMessage, []byte("\x04"+s)) }

// recv is the next frame, "" when there is none within two seconds.
func (p *peer) recv() string {
	p.c.SetReadDeadline(time.Now().Add(2 * time.Second))
	_, b, err := p.c.ReadMessage()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(b))
}

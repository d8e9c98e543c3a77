package harness

import (
	"bufio"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net/http"
	"time"

	"vmc/rt"
)

// WS is a hand-written websocket client end over an in-memory connection.
type WS struct {
	C      *rt.Conn // client end
	S      *rt.Conn // server end
	br     *bufio.Reader
	Resp   *Resp // the server's handler run
	Status int
	Closed bool // saw a close frame or EOF
	server bool // this end is the server: frames are unmasked, the peer's are masked
}

var wsHdr = http.Header{
	"Connection": {"Upgrade"}, "Upgrade": {"websocket"}, "Sec-Websocket-Version": {"13"}, "Sec-Websocket-Key": {"dGhlIHNhbXBsZSBub25jZQ=="},
}

// WSOpen starts a websocket request; the handler runs in its own goroutine.
func WSOpen(h Handler, query string, hdr http.Header) *WS {
	c, s := rt.Pipe("ws")
	w := &WS{C: c, S: s, br: bufio.NewReaderSize(c, 65536)}
	m := wsHdr.Clone()
	for k, v := range hdr {
		m[k] = v
	}
	w.Resp = Start(h, Req{Method: "GET", Query: query, Hdr: m, Conn: s})
	return w
}

// Handshake waits for the 101 response (or for a refusal) and reports success.
func (w *WS) Handshake() bool {
	rt.Await("ws handshake", func() bool { return w.C.Buffered() > 0 || w.Resp.Done || w.C.PeerClosed() })
	if w.Resp.Done && !w.Resp.Hijacked {
		w.Status = w.Resp.Code
		return false
	}
	r, err := http.ReadResponse(w.br, nil)
	if err != nil {
		return false
	}
	w.Status = r.StatusCode
	return r.StatusCode == 101
}

func frame(fin bool, op byte, mask bool, p []byte) []byte {
	b0 := op
	if fin {
		b0 |= 0x80
	}
	out := []byte{b0}
	var m byte
	if mask {
		m = 0x80
	}
	switch {
	case len(p) < 126:
		out = append(out, m|byte(len(p)))
	case len(p) < 65536:
		out = append(out, m|126, byte(len(p)>>8), byte(len(p)))
	default:
		var l [8]byte
		binary.BigEndian.PutUint64(l[:], uint64(len(p)))
		out = append(append(out, m|127), l[:]...)
	}
	if mask {
		k := [4]byte{1, 2, 3, 4}
		out = append(out, k[:]...)
		i := len(out)
		out = append(out, p...)
		for j := range p {
			out[i+j] ^= k[j&3]
		}
		return out
	}
	return append(out, p...)
}

// WriteFrame sends one raw frame.
func (w *WS) WriteFrame(fin bool, op byte, p []byte) error {
	_, err := w.C.Write(frame(fin, op, !w.server, p))
	return err
}

// Send sends one engine.io packet as a websocket message.
func (w *WS) Send(p Pkt) error {
	rt.Nap()
	op := byte(1)
	t := byte('0' + p.Type)
	if p.Bin {
		op, t = 2, byte(p.Type)
	}
	return w.WriteFrame(true, op, append([]byte{t}, p.Data...))
}

var errWSClosed = errors.New("websocket closed")

// ReadMsg reads one complete message, answering nothing; control frames other
// than close are skipped.
func (w *WS) ReadMsg() (op byte, data []byte, err error) {
	first := true
	for {
		var h [2]byte
		if _, err = io.ReadFull(w.br, h[:]); err != nil {
			w.Closed = true
			return 0, nil, err
		}
		if h[0]&0x70 != 0 {
			rt.Fail("[ws-frame] reserved bits set in frame header %x", h)
		}
		n := uint64(h[1] & 0x7f)
		if (h[1]&0x80 != 0) != w.server {
			rt.Fail("[ws-frame] mask bit of %x (the reader is the server: %v)", h, w.server)
		}
		switch n {
		case 126:
			var l [2]byte
			if _, err = io.ReadFull(w.br, l[:]); err != nil {
				w.Closed = true
				return
			}
			n = uint64(binary.BigEndian.Uint16(l[:]))
		case 127:
			var l [8]byte
			if _, err = io.ReadFull(w.br, l[:]); err != nil {
				w.Closed = true
				return
			}
			n = binary.BigEndian.Uint64(l[:])
		}
		if n > 1<<26 {
			rt.Fail("[ws-frame] frame of %d bytes", n)
		}
		var key [4]byte
		if w.server {
			if _, err = io.ReadFull(w.br, key[:]); err != nil {
				w.Closed = true
				return
			}
		}
		p := make([]byte, n)
		if _, err = io.ReadFull(w.br, p); err != nil {
			w.Closed = true
			return
		}
		for i := range p {
			p[i] ^= key[i&3]
		}
		o := h[0] & 0xf
		if o >= 8 {
			if o == 8 {
				w.Closed = true
				return 8, p, errWSClosed
			}
			continue
		}
		if first {
			if o == 0 {
				rt.Fail("[ws-frame] continuation frame without a start")
			}
			op = o
			first = false
		} else if o != 0 {
			rt.Fail("[ws-frame] new message inside a fragmented one")
		}
		data = append(data, p...)
		if h[0]&0x80 != 0 {
			return op, data, nil
		}
	}
}

// Recv reads one engine.io packet.
func (w *WS) Recv() (Pkt, error) {
	rt.Nap()
	op, d, err := w.ReadMsg()
	if err != nil {
		return Pkt{}, err
	}
	if len(d) == 0 {
		rt.Fail("[ws-empty] empty websocket message from the library")
	}
	switch op {
	case 1:
		return Pkt{Type: int(d[0]) - '0', Data: string(d[1:])}, nil
	case 2:
		return Pkt{Bin: true, Type: int(d[0]), Data: string(d[1:])}, nil
	}
	return Pkt{}, fmt.Errorf("opcode %d", op)
}

// ReadDeadline bounds the next reads by virtual time.
func (w *WS) ReadDeadline(d time.Duration) { w.C.SetReadDeadline(rt.TimeNow().Add(d)) }

// Close drops the connection.
func (w *WS) Close() { w.C.Close() }

// CloseFrame sends a websocket close frame.
func (w *WS) CloseFrame() { w.WriteFrame(true, 8, []byte{0x03, 0xe8}) }

// ListenPeer accepts the Go client's websocket connections by hand; each is served by fn in a goroutine of its own.
func ListenPeer(hostport string, fn func(w *WS, r *http.Request)) {
	rt.Listen(hostport, func(c *rt.Conn) {
		rt.HGo("peer", func() {
			w := &WS{C: c, S: c.Peer(), br: bufio.NewReaderSize(c, 65536), server: true}
			r, err := http.ReadRequest(w.br)
			if err != nil {
				return
			}
			h := sha1.Sum([]byte(r.Header.Get("Sec-Websocket-Key") + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
			fmt.Fprintf(c, "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: %s\r\n\r\n", base64.StdEncoding.EncodeToString(h[:]))
			fn(w, r)
		})
	})
}

// ListenServer lets the Go client reach a server under test.
func ListenServer(hostport string, h Handler, onReq ...func(*http.Request, *rt.Conn)) {
	rt.Listen(hostport, func(c *rt.Conn) {
		rt.HGo("http server", func() {
			r, err := http.ReadRequest(bufio.NewReader(c))
			if err != nil {
				return
			}
			r.RemoteAddr = c.RemoteAddr().String()
			for _, f := range onReq {
				f(r, c)
			}
			w := NewResp()
			w.conn = c
			h.ServeHTTP(w, r)
			w.Done = true
			if !w.Hijacked {
				if !w.wrote {
					w.WriteHeader(200)
				}
				fmt.Fprintf(c, "HTTP/1.1 %d X\r\nContent-Length: %d\r\nConnection: close\r\n\r\n%s", w.Code, len(w.Body), w.Body)
				c.Close()
			}
		})
	})
}

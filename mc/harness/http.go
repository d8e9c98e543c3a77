// Package harness holds the closed drivers that stand around the library: HTTP
// requests, websocket peers, reference codecs, and one oracle set per property.
package harness

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"

	"vmc/rt"
)

// Resp is a recorded HTTP response with net/http's semantics.
type Resp struct {
	hdr      http.Header
	Header_  http.Header // as sent
	Code     int
	Body     []byte
	wrote    bool
	Done     bool
	Hijacked bool
	conn     *rt.Conn // server end, for hijacking
	OnDone   func()
	writes   int
	use      int // stands for the response in race detection
}

// touch marks a use of the response writer, which only one goroutine may use at a time.
func (r *Resp) touch() { rt.Wr(&r.use, "http.ResponseWriter") }

func NewResp() *Resp { return &Resp{hdr: http.Header{}} }

func (r *Resp) Header() http.Header { r.touch(); return r.hdr }
func (r *Resp) WriteHeader(c int) {
	r.touch()
	if r.Hijacked || r.wrote {
		return
	}
	r.wrote = true
	r.Code = c
	r.Header_ = r.hdr.Clone()
}
func (r *Resp) Write(p []byte) (int, error) {
	r.touch()
	if r.Hijacked {
		return 0, http.ErrHijacked
	}
	if r.Done {
		rt.Fail("[write-after-return] response written after its handler returned")
	}
	r.WriteHeader(200)
	r.writes++
	r.Body = append(r.Body, p...)
	return len(p), nil
}
func (r *Resp) Flush() {}
func (r *Resp) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	if r.conn == nil {
		return nil, nil, errors.New("connection cannot be hijacked")
	}
	if r.Hijacked {
		return nil, nil, http.ErrHijacked
	}
	r.Hijacked = true
	return r.conn, bufio.NewReadWriter(bufio.NewReaderSize(r.conn, 4096), bufio.NewWriterSize(r.conn, 4096)), nil
}

// Handler is what the drivers talk to.
type Handler interface {
	ServeHTTP(http.ResponseWriter, *http.Request)
}

// chunks is a request body delivered in reads of the given sizes (the last size repeats).
type chunks struct {
	b           []byte
	sizes       []int
	i           int
	end         error // returned at the end instead of EOF
	reads       int
	eofWithData bool
}

func (c *chunks) Read(p []byte) (int, error) {
	c.reads++
	if len(c.b) == 0 {
		if c.end != nil {
			return 0, c.end
		}
		return 0, io.EOF
	}
	n := len(c.b)
	if len(c.sizes) > 0 {
		k := c.sizes[len(c.sizes)-1]
		if c.i < len(c.sizes) {
			k = c.sizes[c.i]
			c.i++
		}
		if k > 0 && k < n {
			n = k
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 && c.eofWithData && c.end == nil {
		return n, io.EOF
	}
	return n, nil
}
func (c *chunks) Close() error { return nil }

// Req describes one request.
type Req struct {
	Method  string
	Query   string
	Body    []byte
	Split   []int
	End     error
	EOFData bool
	CT      string
	Hdr     http.Header
	Ctx     context.Context
	Conn    *rt.Conn
	Remote  string // the peer's address
}

func (q Req) build() *http.Request {
	u := &url.URL{Path: "/engine.io/", RawQuery: q.Query}
	h := http.Header{}
	for k, v := range q.Hdr {
		h[k] = append([]string(nil), v...)
	}
	if q.CT != "" {
		h.Set("Content-Type", q.CT)
	}
	remote := q.Remote
	if remote == "" {
		remote = "peer:1"
	}
	r := &http.Request{Method: q.Method, URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h,
		Body: &chunks{b: q.Body, sizes: q.Split, end: q.End, eofWithData: q.EOFData}, ContentLength: int64(len(q.Body)), Host: "test", RemoteAddr: remote, RequestURI: u.String()}
	if q.Body == nil && q.Method == "GET" {
		r.Body = http.NoBody
		r.ContentLength = 0
	}
	if q.Ctx != nil {
		r = r.WithContext(q.Ctx)
	}
	return r
}

// Do performs the request in the calling goroutine.
func Do(h Handler, q Req) *Resp {
	w := NewResp()
	w.conn = q.Conn
	serve(h, w, q)
	return w
}

func serve(h Handler, w *Resp, q Req) {
	h.ServeHTTP(w, q.build())
	if !w.Hijacked && !w.wrote {
		w.WriteHeader(200)
	}
	if len(w.Body) > 0 && w.Header_.Get("Content-Type") == "" { // net/http's sniffing
		w.Header_.Set("Content-Type", http.DetectContentType(w.Body))
	}
	w.Done = true
	rt.Note("resp")
	if w.OnDone != nil {
		w.OnDone()
	}
}

// Start performs the request in its own goroutine.
func Start(h Handler, q Req) *Resp {
	w := NewResp()
	w.conn = q.Conn
	rt.HGo("http "+q.Method, func() { serve(h, w, q) })
	return w
}

// Wait waits for the response.
func (r *Resp) Wait() *Resp {
	rt.Await("response", func() bool { return r.Done })
	return r
}

func (r *Resp) String() string {
	return fmt.Sprintf("%d %q %q", r.Code, r.Header_.Get("Content-Type"), clip(string(r.Body)))
}

func clip(s string) string {
	if len(s) > 120 {
		return s[:100] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

const (
	ctText = "text/plain; charset=UTF-8"
	ctBin  = "application/octet-stream"
)

var _ = bytes.NewReader
var _ = strings.Contains

var errBroken = errors.New("connection reset by peer")
var errUnexpected = io.ErrUnexpectedEOF

package rt

import (
	"fmt"
	"reflect"
	"runtime"
)

type waiter struct {
	g    *G
	sel  *selWait
	idx  int
	val  interface{} // *T slot holder for typed queues is kept in typed waiter
	done bool
}

// selWait is one blocked operation (a plain send/receive is a one-case select).
type selWait struct {
	g     *G
	fired int // index of the completed case, -1 while pending
	ok    bool
}

type sendW[T any] struct {
	w   *selWait
	idx int
	v   T
	vc  vclock
}
type recvW[T any] struct {
	w   *selWait
	idx int
	dst *T
	ok  *bool
}

// Chan is the controlled counterpart of a Go channel.
type Chan[T any] struct {
	obj    Obj
	cap    int
	buf    []T
	bvc    []vclock
	rvc    []vclock // clocks of the receives that freed slots
	closed bool
	cvc    vclock
	sendq  []*sendW[T]
	recvq  []*recvW[T]
	quiet  bool
	native reflect.Value // receive-only native channel, if valid
}

type nativeChan interface{ poll() bool }

func MakeChan[T any](n ...int) *Chan[T] {
	c := &Chan[T]{}
	if len(n) > 0 {
		if n[0] < 0 {
			panic("makechan: size out of range")
		}
		c.cap = n[0]
	}
	return c
}

// MakeChanQ makes a channel belonging to an instrumented third-party library.
func MakeChanQ[T any](n ...int) *Chan[T] {
	c := MakeChan[T](n...)
	c.quiet = true
	return c
}

// Native wraps a channel owned by uninstrumented code.
func Native[T any](ch <-chan T) *Chan[T] {
	if ch == nil {
		return nil
	}
	c := &Chan[T]{native: reflect.ValueOf(ch)}
	if S != nil {
		S.natives = append(S.natives, c)
	}
	return c
}

func (c *Chan[T]) poll() bool {
	if !c.native.IsValid() || c.closed {
		return false
	}
	any := false
	for {
		v, ok := c.native.TryRecv()
		if ok {
			c.deliver(v.Interface().(T), nil)
			any = true
			continue
		}
		if v.IsValid() { // closed
			if S.cfg.Race && S.cur != nil {
				c.cvc = S.cur.vc.clone()
			}
			c.doClose()
			any = true
		}
		return any
	}
}

func (s *Sched) pollNatives() {
	for _, n := range s.natives {
		n.poll()
	}
}

func (c *Chan[T]) doClose() {
	c.closed = true
	for _, r := range c.recvq {
		if r.w.fired >= 0 {
			continue
		}
		r.w.fired = r.idx
		var zero T
		*r.dst = zero
		*r.ok = false
		if S.cfg.Race {
			r.w.g.vc = r.w.g.vc.join(c.cvc)
		}
		S.unblock(r.w.g)
	}
	c.recvq = nil
	for _, w := range c.sendq {
		if w.w.fired >= 0 {
			continue
		}
		w.w.fired = w.idx
		w.w.ok = false // wakes up and panics
		S.unblock(w.w.g)
	}
	c.sendq = nil
}

// deliver puts v into the channel (buffer grows for native channels).
func (c *Chan[T]) deliver(v T, vc vclock) {
	for len(c.recvq) > 0 {
		r := c.recvq[0]
		c.recvq = c.recvq[1:]
		if r.w.fired >= 0 {
			continue
		}
		r.w.fired = r.idx
		*r.dst = v
		*r.ok = true
		if S.cfg.Race {
			r.w.g.vc = r.w.g.vc.join(vc)
		}
		S.unblock(r.w.g)
		return
	}
	c.buf = append(c.buf, v)
	c.bvc = append(c.bvc, vc)
}

func (c *Chan[T]) pendingRecv() bool {
	for len(c.recvq) > 0 {
		if c.recvq[0].w.fired >= 0 {
			c.recvq = c.recvq[1:]
			continue
		}
		return true
	}
	return false
}

func (c *Chan[T]) pendingSend() bool {
	for len(c.sendq) > 0 {
		if c.sendq[0].w.fired >= 0 {
			c.sendq = c.sendq[1:]
			continue
		}
		return true
	}
	return false
}

func (c *Chan[T]) canSend() bool {
	return c.closed || len(c.buf) < c.cap || c.pendingRecv()
}

func (c *Chan[T]) canRecv() bool {
	if c.native.IsValid() {
		c.poll()
	}
	return len(c.buf) > 0 || c.closed || c.pendingSend()
}

// doSend performs a send that canSend allows.
func (c *Chan[T]) doSend(v T) {
	s := S
	if s == nil {
		c.freeSend(v)
		return
	}
	if c.closed {
		panic("send on closed channel")
	}
	s.touch(&c.obj, 11)
	var vc vclock
	if s.cfg.Race {
		g := s.cur
		if c.cap > 0 && len(c.rvc) > 0 {
			g.vc = g.vc.join(c.rvc[0])
			c.rvc = c.rvc[1:]
		}
		vc = g.vc.clone()
		if c.cap == 0 && len(c.recvq) > 0 {
			g.vc = g.vc.join(c.recvq[0].w.g.vc)
		}
		g.vc = g.vc.tick(g.id)
	}
	c.deliver(v, vc)
}

// doRecv performs a receive that canRecv allows.
func (c *Chan[T]) doRecv() (v T, ok bool) {
	s := S
	if s == nil {
		return c.freeRecv()
	}
	s.touch(&c.obj, 12)
	if len(c.buf) > 0 {
		v = c.buf[0]
		ok = true
		if s.cfg.Race {
			g := s.cur
			g.vc = g.vc.join(c.bvc[0])
			if c.cap > 0 {
				c.rvc = append(c.rvc, g.vc.clone())
				g.vc = g.vc.tick(g.id)
			}
		}
		var zero T
		c.buf[0] = zero
		c.buf = c.buf[1:]
		c.bvc = c.bvc[1:]
		// a blocked sender moves into the freed slot
		if c.pendingSend() {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			w.w.fired = w.idx
			w.w.ok = true
			if s.cfg.Race && len(c.rvc) > 0 {
				w.w.g.vc = w.w.g.vc.join(c.rvc[0])
				c.rvc = c.rvc[1:]
			}
			c.buf = append(c.buf, w.v)
			c.bvc = append(c.bvc, w.vc)
			s.unblock(w.w.g)
		}
		return
	}
	if c.closed {
		if s.cfg.Race {
			s.cur.vc = s.cur.vc.join(c.cvc)
		}
		return
	}
	if c.pendingSend() { // unbuffered rendezvous
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		w.w.fired = w.idx
		w.w.ok = true
		if s.cfg.Race {
			g := s.cur
			og := g.vc.clone()
			g.vc = g.vc.join(w.vc)
			w.w.g.vc = w.w.g.vc.join(og)
			g.vc = g.vc.tick(g.id)
		}
		s.unblock(w.w.g)
		return w.v, true
	}
	panic("rt: doRecv not ready")
}

func (c *Chan[T]) String() string {
	if c == nil {
		return "chan(nil)"
	}
	return fmt.Sprintf("chan#%d(%d/%d)", c.obj.id, len(c.buf), c.cap)
}

func (c *Chan[T]) pt(what string) {
	s := S
	if c != nil && c.quiet && s.cfg.QuietLib {
		if s.dead {
			runtime.Goexit()
		}
		return
	}
	s.point(what)
}

// Send is `c <- v`.
func (c *Chan[T]) Send(v T) {
	if S == nil {
		c.freeSend(v)
		return
	}
	s := S
	c.pt("send")
	if c == nil {
		s.block("send on nil channel")
	}
	if c.canSend() {
		c.doSend(v)
		s.tr("send %v", c)
		return
	}
	w := &selWait{g: s.cur, fired: -1}
	s.touch(&c.obj, 13)
	sw := &sendW[T]{w: w, v: v}
	if s.cfg.Race {
		sw.vc = s.cur.vc.clone()
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
	c.sendq = append(c.sendq, sw)
	s.block("send " + c.String())
	if !w.ok {
		panic("send on closed channel")
	}
	s.touch(&c.obj, 14)
}

// Recv is `<-c`.
func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

// Recv2 is `v, ok := <-c`.
func (c *Chan[T]) Recv2() (v T, ok bool) {
	if S == nil {
		return c.freeRecv()
	}
	s := S
	c.pt("recv")
	if c == nil {
		s.block("recv on nil channel")
	}
	if c.canRecv() {
		v, ok = c.doRecv()
		s.tr("recv %v ok=%v", c, ok)
		return
	}
	w := &selWait{g: s.cur, fired: -1}
	s.touch(&c.obj, 15)
	c.recvq = append(c.recvq, &recvW[T]{w: w, dst: &v, ok: &ok})
	s.block("recv " + c.String())
	s.touch(&c.obj, 16)
	return
}

// RecvInto is used for `for v = range c`.
func (c *Chan[T]) RecvInto(p *T) bool {
	v, ok := c.Recv2()
	if ok {
		*p = v
	}
	return ok
}

// Close is close(c).
func (c *Chan[T]) Close() {
	s := S
	if s == nil {
		if c.closed {
			panic("close of closed channel")
		}
		c.closed = true
		return
	}
	if s.dead {
		c.closed = true
		return
	}
	c.pt("close")
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	s.touch(&c.obj, 17)
	if s.cfg.Race {
		c.cvc = s.cur.vc.clone()
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
	c.doClose()
	s.tr("close %v", c)
}

func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	if S != nil && !S.dead {
		c.pt("len")
		if c.native.IsValid() {
			c.poll()
		}
		S.touch(&c.obj, 18)
	}
	return len(c.buf)
}

func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.cap
}

func (c *Chan[T]) freeSend(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	if len(c.buf) >= c.cap {
		panic("rt: blocking send outside of an execution")
	}
	c.buf = append(c.buf, v)
	c.bvc = append(c.bvc, nil)
}

func (c *Chan[T]) freeRecv() (v T, ok bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		c.bvc = c.bvc[1:]
		return v, true
	}
	if c.closed {
		return
	}
	panic("rt: blocking receive outside of an execution")
}

// function forms, for defined channel types
func Send[T any](c *Chan[T], v T)            { c.Send(v) }
func Recv[T any](c *Chan[T]) T               { return c.Recv() }
func Recv2[T any](c *Chan[T]) (T, bool)      { return c.Recv2() }
func RecvInto[T any](c *Chan[T], p *T) bool  { return c.RecvInto(p) }
func Close[T any](c *Chan[T])                { c.Close() }
func Len[T any](c *Chan[T]) int              { return c.Len() }
func Cap[T any](c *Chan[T]) int              { return c.Cap() }
func RecvCaseOf[T any](c *Chan[T]) *RCase[T] { return c.RecvCase() }
func SendCaseOf[T any](c *Chan[T], v T) *SCase[T] {
	return c.SendCase(v)
}

// SelCase is one case of a select statement.
type SelCase interface {
	ready() bool
	exec()
	enqueue(w *selWait, idx int)
	finish(ok bool)
	label() string
	isQuiet() bool
}

// RCase is a receive case.
type RCase[T any] struct {
	c  *Chan[T]
	v  T
	ok bool
}

func (c *Chan[T]) RecvCase() *RCase[T] { return &RCase[T]{c: c} }

func (r *RCase[T]) V() T          { return r.v }
func (r *RCase[T]) V2() (T, bool) { return r.v, r.ok }
func (r *RCase[T]) ready() bool   { return r.c != nil && r.c.canRecv() }
func (r *RCase[T]) exec()         { r.v, r.ok = r.c.doRecv() }
func (r *RCase[T]) enqueue(w *selWait, idx int) {
	if r.c == nil {
		return
	}
	r.c.recvq = append(r.c.recvq, &recvW[T]{w: w, idx: idx, dst: &r.v, ok: &r.ok})
	S.touch(&r.c.obj, 19)
}
func (r *RCase[T]) finish(ok bool) { S.touch(&r.c.obj, 20) }
func (r *RCase[T]) label() string  { return "<-" + r.c.String() }
func (r *RCase[T]) isQuiet() bool  { return r.c == nil || r.c.quiet }

// SCase is a send case.
type SCase[T any] struct {
	c *Chan[T]
	v T
}

func (c *Chan[T]) SendCase(v T) *SCase[T] { return &SCase[T]{c: c, v: v} }
func (r *SCase[T]) ready() bool           { return r.c != nil && r.c.canSend() }
func (r *SCase[T]) exec()                 { r.c.doSend(r.v) }
func (r *SCase[T]) enqueue(w *selWait, idx int) {
	if r.c == nil {
		return
	}
	sw := &sendW[T]{w: w, idx: idx, v: r.v}
	if S.cfg.Race {
		sw.vc = S.cur.vc.clone()
		S.cur.vc = S.cur.vc.tick(S.cur.id)
	}
	r.c.sendq = append(r.c.sendq, sw)
	S.touch(&r.c.obj, 21)
}
func (r *SCase[T]) finish(ok bool) {
	if !ok {
		panic("send on closed channel")
	}
	S.touch(&r.c.obj, 22)
}
func (r *SCase[T]) label() string { return r.c.String() + "<-" }
func (r *SCase[T]) isQuiet() bool { return r.c == nil || r.c.quiet }

// Select executes a select statement; the result is the case index, -1 for default.
func Select(hasDefault bool, cases ...SelCase) int {
	s := S
	if s == nil {
		for i, c := range cases {
			if c.ready() {
				c.exec()
				return i
			}
		}
		if hasDefault {
			return -1
		}
		panic("rt: blocking select outside of an execution")
	}
	if s.dead {
		if hasDefault {
			return -1
		}
		runtime.Goexit()
	}
	quiet := s.cfg.QuietLib
	for _, c := range cases {
		if !c.isQuiet() {
			quiet = false
		}
	}
	if !quiet {
		s.point("select")
	}
	var rdy []int
	for i, c := range cases {
		if c.ready() {
			rdy = append(rdy, i)
		}
	}
	if len(rdy) > 0 {
		k := rdy[s.chooseN(len(rdy), false)]
		cases[k].exec()
		if s.cfg.Trace {
			s.tr("select takes %s", cases[k].label())
		}
		return k
	}
	if hasDefault {
		for _, c := range cases {
			c.(toucher).touchDefault()
		}
		return -1
	}
	w := &selWait{g: s.cur, fired: -1, ok: true}
	lbl := "select"
	for i, c := range cases {
		c.enqueue(w, i)
		lbl += " " + c.label()
	}
	s.block(lbl)
	if w.fired < 0 {
		panic("rt: select woken without a case")
	}
	cases[w.fired].finish(w.ok)
	if s.cfg.Trace {
		s.tr("select wakes with %s", cases[w.fired].label())
	}
	return w.fired
}

type toucher interface{ touchDefault() }

func (r *RCase[T]) touchDefault() {
	if r.c != nil {
		S.touch(&r.c.obj, 23)
	}
}
func (r *SCase[T]) touchDefault() {
	if r.c != nil {
		S.touch(&r.c.obj, 24)
	}
}

// BlockForever is `select {}`.
func BlockForever() { S.block("select {}") }

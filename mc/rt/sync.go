package rt

import (
	"runtime"
	"unsafe"
)

func (s *Sched) lockPoint(q bool, what string) {
	if q && s.cfg.QuietLib {
		if s.dead {
			runtime.Goexit()
		}
		return
	}
	s.point(what)
}

// Mutex mirrors sync.Mutex.
type Mutex struct {
	obj     Obj
	locked  bool
	waiters []*G
	q       bool
	owner   *G
}

func (m *Mutex) Lock() {
	s := S
	if s == nil {
		m.locked = true
		return
	}
	if m.obj.init(s) {
		m.locked, m.waiters = false, nil
	}
	s.lockPoint(m.q, "Lock")
	for m.locked {
		m.waiters = append(m.waiters, s.cur)
		s.block("Mutex.Lock")
	}
	m.locked = true
	m.owner = s.cur
	s.touch(&m.obj, 31)
	if s.cfg.Race {
		s.cur.vc = s.cur.vc.join(m.obj.vc)
	}
	s.tr("Mutex#%d.Lock", m.obj.id)
}

func (m *Mutex) TryLock() bool {
	s := S
	if s == nil {
		if m.locked {
			return false
		}
		m.locked = true
		return true
	}
	if m.obj.init(s) {
		m.locked, m.waiters = false, nil
	}
	s.lockPoint(m.q, "TryLock")
	s.touch(&m.obj, 32)
	if m.locked {
		return false
	}
	m.locked = true
	m.owner = s.cur
	if s.cfg.Race {
		s.cur.vc = s.cur.vc.join(m.obj.vc)
	}
	return true
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil || s.dead {
		m.locked = false
		return
	}
	if m.obj.init(s) {
		m.locked, m.waiters = false, nil
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.owner = nil
	s.touch(&m.obj, 33)
	if s.cfg.Race {
		m.obj.vc = s.cur.vc.clone()
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
	for _, g := range m.waiters {
		s.unblock(g)
	}
	m.waiters = nil
	s.tr("Mutex#%d.Unlock", m.obj.id)
	s.lockPoint(m.q, "after Unlock")
}

// RWMutex mirrors sync.RWMutex, including its writer preference.
type RWMutex struct {
	obj     Obj
	wheld   bool // w mutex held by a writer that is waiting or writing
	writing bool
	readers int
	wq      []*G // writers waiting for wheld
	rq      []*rwait
	wg      *G // writer waiting for readers
}

type rwait struct {
	g       *G
	granted bool
}

func (m *RWMutex) fresh(s *Sched) {
	if m.obj.init(s) {
		m.wheld, m.writing, m.readers, m.wq, m.rq, m.wg = false, false, 0, nil, nil, nil
	}
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil {
		return
	}
	m.fresh(s)
	s.point("RWMutex.Lock")
	for m.wheld {
		m.wq = append(m.wq, s.cur)
		s.block("RWMutex.Lock (writer queue)")
	}
	m.wheld = true
	s.touch(&m.obj, 34)
	for m.readers > 0 {
		m.wg = s.cur
		s.block("RWMutex.Lock (waiting for readers)")
	}
	m.wg = nil
	m.writing = true
	s.touch(&m.obj, 35)
	if s.cfg.Race {
		s.cur.vc = s.cur.vc.join(m.obj.vc).join(m.obj.vr)
	}
	s.tr("RWMutex#%d.Lock", m.obj.id)
}

func (m *RWMutex) TryLock() bool {
	s := S
	if s == nil {
		return true
	}
	m.fresh(s)
	s.point("RWMutex.TryLock")
	s.touch(&m.obj, 36)
	if m.wheld || m.readers > 0 {
		return false
	}
	m.wheld, m.writing = true, true
	if s.cfg.Race {
		s.cur.vc = s.cur.vc.join(m.obj.vc).join(m.obj.vr)
	}
	return true
}

func (m *RWMutex) Unlock() {
	s := S
	if s == nil || s.dead {
		m.wheld, m.writing = false, false
		return
	}
	m.fresh(s)
	if !m.writing {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writing, m.wheld = false, false
	s.touch(&m.obj, 37)
	if s.cfg.Race {
		m.obj.vc = s.cur.vc.clone()
		m.obj.vr = nil
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
	for _, r := range m.rq {
		r.granted = true
		m.readers++
		s.unblock(r.g)
	}
	m.rq = nil
	for _, g := range m.wq {
		s.unblock(g)
	}
	m.wq = nil
	s.tr("RWMutex#%d.Unlock", m.obj.id)
	s.point("after RWMutex.Unlock")
}

func (m *RWMutex) RLock() {
	s := S
	if s == nil {
		return
	}
	m.fresh(s)
	s.point("RLock")
	if m.wheld {
		r := &rwait{g: s.cur}
		m.rq = append(m.rq, r)
		s.touch(&m.obj, 38)
		for !r.granted {
			s.block("RWMutex.RLock")
		}
	} else {
		m.readers++
	}
	s.touch(&m.obj, 39)
	if s.cfg.Race {
		s.cur.vc = s.cur.vc.join(m.obj.vc)
	}
	s.tr("RWMutex#%d.RLock", m.obj.id)
}

func (m *RWMutex) TryRLock() bool {
	s := S
	if s == nil {
		return true
	}
	m.fresh(s)
	s.point("TryRLock")
	s.touch(&m.obj, 40)
	if m.wheld {
		return false
	}
	m.readers++
	if s.cfg.Race {
		s.cur.vc = s.cur.vc.join(m.obj.vc)
	}
	return true
}

func (m *RWMutex) RUnlock() {
	s := S
	if s == nil || s.dead {
		return
	}
	m.fresh(s)
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	s.touch(&m.obj, 41)
	if s.cfg.Race {
		m.obj.vr = m.obj.vr.clone().join(s.cur.vc)
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
	if m.readers == 0 && m.wg != nil {
		s.unblock(m.wg)
	}
	s.tr("RWMutex#%d.RUnlock", m.obj.id)
	s.point("after RUnlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Locker mirrors sync.Locker.
type Locker interface {
	Lock()
	Unlock()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct {
	obj     Obj
	n       int
	waiters []*G
}

func (w *WaitGroup) Add(d int) {
	s := S
	if s == nil || s.dead {
		return
	}
	if w.obj.init(s) {
		w.n, w.waiters = 0, nil
	}
	s.point("WaitGroup.Add")
	w.n += d
	s.touch(&w.obj, 42)
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if s.cfg.Race && d < 0 {
		w.obj.vc = w.obj.vc.clone().join(s.cur.vc)
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
	if w.n == 0 {
		for _, g := range w.waiters {
			s.unblock(g)
		}
		w.waiters = nil
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		return
	}
	if w.obj.init(s) {
		w.n, w.waiters = 0, nil
	}
	s.point("WaitGroup.Wait")
	s.touch(&w.obj, 43)
	if w.n > 0 {
		w.waiters = append(w.waiters, s.cur)
		s.block("WaitGroup.Wait")
	}
	s.touch(&w.obj, 44)
	if s.cfg.Race {
		s.cur.vc = s.cur.vc.join(w.obj.vc)
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	goNamed("", func() { defer w.Done(); f() }, false)
}

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done bool
	o    Obj
}

func (o *Once) Do(f func()) {
	s := S
	if s == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	if s.dead {
		return
	}
	// a Once fired before this execution (package level) stays fired
	s.point("Once.Do")
	s.touch(&o.o, 45)
	if o.done {
		if s.cfg.Race {
			s.cur.vc = s.cur.vc.join(o.o.vc)
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			if s.dead {
				return
			}
			o.done = true
			s.touch(&o.o, 46)
			if s.cfg.Race {
				o.o.vc = s.cur.vc.clone()
				s.cur.vc = s.cur.vc.tick(s.cur.id)
			}
		}()
		f()
	}
}

// Cond mirrors sync.Cond.
type Cond struct {
	L   Locker
	obj Obj
	ws  []*G
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	s := S
	s.touch(&c.obj, 47)
	g := s.cur
	c.ws = append(c.ws, g)
	// unlock and park atomically with respect to Signal: being in ws first is enough
	waiting := true
	_ = waiting
	c.L.Unlock()
	for contains(c.ws, g) {
		s.block("Cond.Wait")
	}
	s.touch(&c.obj, 48)
	if s.cfg.Race {
		g.vc = g.vc.join(c.obj.vc)
	}
	c.L.Lock()
}
func contains(l []*G, g *G) bool {
	for _, x := range l {
		if x == g {
			return true
		}
	}
	return false
}
func (c *Cond) Signal() {
	s := S
	if s == nil || s.dead {
		return
	}
	s.point("Cond.Signal")
	s.touch(&c.obj, 49)
	if s.cfg.Race {
		c.obj.vc = c.obj.vc.clone().join(s.cur.vc)
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
	if len(c.ws) > 0 {
		g := c.ws[0]
		c.ws = c.ws[1:]
		s.unblock(g)
	}
}
func (c *Cond) Broadcast() {
	s := S
	if s == nil || s.dead {
		return
	}
	s.point("Cond.Broadcast")
	s.touch(&c.obj, 50)
	if s.cfg.Race {
		c.obj.vc = c.obj.vc.clone().join(s.cur.vc)
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
	ws := c.ws
	c.ws = nil
	for _, g := range ws {
		s.unblock(g)
	}
}

// Pool mirrors sync.Pool without reuse across goroutines being random: LIFO.
type Pool struct {
	New   func() interface{}
	obj   Obj
	items []interface{}
}

func (p *Pool) Get() interface{} {
	s := S
	if s != nil && !s.dead {
		if p.obj.init(s) {
			p.items = nil
		}
		s.touch(&p.obj, 51)
		if s.cfg.Race {
			s.cur.vc = s.cur.vc.join(p.obj.vc)
		}
	}
	if n := len(p.items); n > 0 && s != nil {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	s := S
	if s == nil || s.dead || x == nil {
		return
	}
	if p.obj.init(s) {
		p.items = nil
	}
	s.touch(&p.obj, 52)
	if s.cfg.Race {
		p.obj.vc = p.obj.vc.clone().join(s.cur.vc)
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
	p.items = append(p.items, x)
}

// AtomicOp is the scheduling point and happens-before edge of an atomic
// operation on the object o.
func AtomicOp(o *Obj, write bool) {
	s := S
	if s == nil || s.dead {
		return
	}
	s.point("atomic")
	s.touch(o, 53)
	if s.cfg.Race {
		s.cur.vc = s.cur.vc.join(o.vc)
		if write {
			o.vc = o.vc.clone().join(s.cur.vc)
			s.cur.vc = s.cur.vc.tick(s.cur.id)
		}
	}
}

// AddrObj gives the object of an address used with sync/atomic functions.
func AddrObj(p unsafe.Pointer) *Obj {
	s := S
	if s == nil {
		return &Obj{}
	}
	if s.addrs == nil {
		s.addrs = map[unsafe.Pointer]*Obj{}
	}
	o := s.addrs[p]
	if o == nil {
		o = &Obj{}
		s.addrs[p] = o
	}
	return o
}

// QMutex is a Mutex of an instrumented third-party library.
type QMutex struct{ m Mutex }

func (m *QMutex) Lock()         { m.m.q = true; m.m.Lock() }
func (m *QMutex) Unlock()       { m.m.q = true; m.m.Unlock() }
func (m *QMutex) TryLock() bool { m.m.q = true; return m.m.TryLock() }

// SyncMap mirrors sync.Map with insertion-ordered iteration.
type SyncMap struct {
	o    Obj
	keys []interface{}
	m    map[interface{}]interface{}
}

func (m *SyncMap) op(w bool) {
	AtomicOp(&m.o, w)
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
}
func (m *SyncMap) del(k interface{}) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}
func (m *SyncMap) set(k, v interface{}) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys[:len(m.keys):len(m.keys)], k)
	}
	m.m[k] = v
}
func (m *SyncMap) Load(k interface{}) (v interface{}, ok bool) {
	m.op(false)
	v, ok = m.m[k]
	return
}
func (m *SyncMap) Store(k, v interface{}) { m.op(true); m.set(k, v) }
func (m *SyncMap) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.op(true)
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *SyncMap) LoadAndDelete(k interface{}) (v interface{}, ok bool) {
	m.op(true)
	v, ok = m.m[k]
	m.del(k)
	return
}
func (m *SyncMap) Delete(k interface{}) { m.op(true); m.del(k) }
func (m *SyncMap) Swap(k, v interface{}) (p interface{}, ok bool) {
	m.op(true)
	p, ok = m.m[k]
	m.set(k, v)
	return
}
func (m *SyncMap) CompareAndSwap(k, a, b interface{}) bool {
	m.op(true)
	if x, ok := m.m[k]; ok && x == a {
		m.set(k, b)
		return true
	}
	return false
}
func (m *SyncMap) CompareAndDelete(k, a interface{}) bool {
	m.op(true)
	if x, ok := m.m[k]; ok && x == a {
		m.del(k)
		return true
	}
	return false
}
func (m *SyncMap) Range(f func(k, v interface{}) bool) {
	m.op(false)
	for _, k := range m.keys {
		v, ok := m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
func (m *SyncMap) Clear() { m.op(true); m.m = map[interface{}]interface{}{}; m.keys = nil }

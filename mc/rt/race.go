package rt

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"unsafe"
)

type vclock []uint32

func (v vclock) clone() vclock {
	if v == nil {
		return nil
	}
	w := make(vclock, len(v))
	copy(w, v)
	return w
}

// join returns the pointwise maximum (may reuse v).
func (v vclock) join(w vclock) vclock {
	if len(w) == 0 {
		return v
	}
	if len(w) > len(v) {
		n := make(vclock, len(w))
		copy(n, v)
		v = n
	} else {
		v = v.clone()
	}
	for i, x := range w {
		if x > v[i] {
			v[i] = x
		}
	}
	return v
}

func (v vclock) tick(id int) vclock {
	n := len(v)
	if id >= n {
		n = id + 1
	}
	w := make(vclock, n)
	copy(w, v)
	w[id]++
	return w
}

func (v vclock) at(id int) uint32 {
	if id < len(v) {
		return v[id]
	}
	return 0
}

// acquire and release order goroutines by communication through o.
func (s *Sched) acquire(o *Obj) {
	if s.cfg.Race {
		s.cur.vc = s.cur.vc.join(o.vc)
	}
}
func (s *Sched) release(o *Obj) {
	if s.cfg.Race {
		o.vc = o.vc.clone().join(s.cur.vc)
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
}

type access struct {
	gid  int
	clk  uint32
	pc   [6]uintptr
	name string
}

type shadowCell struct {
	h     uint64 // history of the last write
	rh    uint64 // commutative sum of the reads since
	w     *access
	reads []access
}

func loc(pc []uintptr) string {
	fr := runtime.CallersFrames(pc)
	for {
		f, more := fr.Next()
		if f.File != "" && !strings.Contains(f.File, "/rt/") && !strings.Contains(f.File, "/shim/") {
			i := strings.LastIndexByte(f.File, '/')
			fn := f.Function
			if j := strings.LastIndexByte(fn, '/'); j >= 0 {
				fn = fn[j+1:]
			}
			return fmt.Sprintf("%s (%s:%d)", fn, f.File[i+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func (s *Sched) cell(p unsafe.Pointer) *shadowCell {
	c := s.shadow[p]
	if c == nil {
		c = &shadowCell{}
		s.shadow[p] = c
	}
	return c
}

func (s *Sched) memAccess(p unsafe.Pointer, write bool, what string) {
	g := s.cur
	c := s.cell(p)
	// history signature: reads of the same value commute
	if write {
		n := mix(mix(g.h, c.h), c.rh+91)
		g.h = n
		c.h = mix(n, 92)
		c.rh = 0
	} else if c.h != 0 {
		c.rh += mix(g.h, 93)
		g.h = mix(g.h, c.h)
	} else {
		c.rh += mix(g.h, 93)
	}
	if !s.cfg.Race {
		return
	}
	acc := access{gid: g.id, clk: g.vc.at(g.id), name: g.name}
	runtime.Callers(3, acc.pc[:])
	report := func(o *access, ow bool) {
		a, b := loc(acc.pc[:]), loc(o.pc[:])
		k := []string{fn(a) + " " + rw(write), fn(b) + " " + rw(ow)}
		sort.Strings(k)
		s.races[what+": "+k[0]+" / "+k[1]] = fmt.Sprintf("%s of %s at %s by goroutine %s is concurrent with %s at %s by goroutine %s", rw(write), what, a, g.name, rw(ow), b, o.name)
	}
	if c.w != nil && c.w.gid != g.id && c.w.clk > g.vc.at(c.w.gid) {
		report(c.w, true)
	}
	if write {
		for i := range c.reads {
			r := &c.reads[i]
			if r.gid != g.id && r.clk > g.vc.at(r.gid) {
				report(r, false)
			}
		}
		c.reads = nil
		c.w = &acc
		return
	}
	for i := range c.reads {
		if c.reads[i].gid == g.id {
			c.reads[i] = acc
			return
		}
	}
	c.reads = append(c.reads, acc)
}

func rw(w bool) string {
	if w {
		return "write"
	}
	return "read"
}
func fn(loc string) string {
	if i := strings.IndexByte(loc, ' '); i >= 0 {
		return loc[:i]
	}
	return loc
}

// Rd marks a read of the memory at p (instrumented field and variable reads).
func Rd[T any](p *T, what string) *T {
	s := S
	if s != nil && !s.dead && s.cur != nil {
		s.memAccess(unsafe.Pointer(p), false, what)
	}
	return p
}

// Wr marks a write.
func Wr[T any](p *T, what string) *T {
	s := S
	if s != nil && !s.dead && s.cur != nil {
		s.memAccess(unsafe.Pointer(p), true, what)
	}
	return p
}

// RdMap and WrMap mark accesses to the contents of a map.
func RdMap[M ~map[K]V, K comparable, V any](m M, what string) M {
	s := S
	if s != nil && !s.dead && s.cur != nil && m != nil {
		s.memAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), false, what)
	}
	return m
}
func WrMap[M ~map[K]V, K comparable, V any](m M, what string) M {
	s := S
	if s != nil && !s.dead && s.cur != nil && m != nil {
		s.memAccess(*(*unsafe.Pointer)(unsafe.Pointer(&m)), true, what)
	}
	return m
}

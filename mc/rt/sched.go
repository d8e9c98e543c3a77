// Package rt is a controlled scheduler for instrumented Go code: exactly one
// goroutine runs at a time, every synchronisation operation is a scheduling
// point, time is virtual, and every nondeterministic choice is owned by the
// explorer (explore.go).
package rt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

type gstate int

const (
	gRunnable gstate = iota
	gBlocked
	gPred
	gQuiesce
	gDone
)

// G is one controlled goroutine.
type G struct {
	id      int
	path    uint64 // schedule-independent identity
	name    string
	wake    chan struct{}
	exited  chan struct{}
	state   gstate
	ready   int // order of becoming runnable
	pred    func() bool
	predTO  bool // predicate wait timed out
	h       uint64
	nspawn  uint64
	vc      vclock
	what    string // what it is blocked on, for reports
	where   string
	sel     *selWait
	harness bool
	lockset int
}

// Decision is one recorded choice.
type Decision struct {
	N      int  // alternatives
	Chosen int  // index taken
	Free   bool // choosing a non-default alternative costs nothing
	Sig    uint64
}

// Failure describes why an execution is bad.
type Failure struct {
	Kind string
	Msg  string
}

func (f *Failure) String() string { return f.Kind + ": " + f.Msg }

// Config selects how one execution runs.
type Config struct {
	MaxSteps   int
	QuietLib   bool // library (gorilla) operations are not scheduling points
	Race       bool // happens-before race detection
	Trace      bool
	EarlyTimer bool // timers may fire although goroutines are runnable (a deviation)
	MemPoints  bool
	Nap        time.Duration // how long the naps of the scenario are (0: none)
}

// Sched is one execution.
type Sched struct {
	cfg       Config
	gs        []*G
	cur       *G
	clock     int64
	timers    []*vtimer
	tseq      int
	readyseq  int
	steps     int
	dead      bool
	ended     bool
	doneCh    chan struct{}
	fail      *Failure
	soft      *Failure // harness-reported violation
	dev       map[int]int
	trace     []Decision
	limited   bool
	objs      int
	epoch     uint64
	natives   []nativeChan
	Log       []string
	onDecide  func(idx int, n int, free bool) (stop bool)
	pruned    bool
	transit   int
	cleanup   []func()
	races     map[string]string
	shadow    map[unsafe.Pointer]*shadowCell
	conns     int
	lastSig   uint64
	leakOK    bool
	maxSpawn  int
	rand      uint64
	noDecide  int
	naps      int // naps being taken
	hlog      Obj
	curLoc    string
	Coverage  map[string]int
	listenFns map[string]func(*Conn)
	addrs     map[unsafe.Pointer]*Obj
}

// S is the running execution (nil outside of executions).
var S *Sched

var epochCounter uint64

type killed struct{}

func mix(a, b uint64) uint64 {
	a ^= b + 0x9e3779b97f4a7c15 + (a << 6) + (a >> 2)
	a ^= a >> 33
	a *= 0xff51afd7ed558ccd
	a ^= a >> 33
	a *= 0xc4ceb9fe1a85ec53
	a ^= a >> 33
	return a
}

func hashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// Obj is the scheduler-side identity of a synchronisation object.
type Obj struct {
	epoch uint64
	id    int
	h     uint64
	vc    vclock // release clock
	vr    vclock // reader release clock
}

func (o *Obj) init(s *Sched) bool {
	if o.epoch != s.epoch {
		fresh := o.epoch != 0
		o.epoch = s.epoch
		s.objs++
		o.id = s.objs
		o.h = 0
		o.vc = nil
		o.vr = nil
		return fresh
	}
	return false
}

// touch records that the current goroutine performed op kind on o.
func (s *Sched) touch(o *Obj, kind uint64) {
	o.init(s)
	if o.h == 0 {
		// identity of the object: first toucher's history
		o.h = mix(s.cur.h, 0x1234567)
	}
	n := mix(mix(s.cur.h, o.h), kind)
	s.cur.h = n
	o.h = mix(n, 77)
	s.transit++
}

func (s *Sched) tr(format string, a ...interface{}) {
	if s.cfg.Trace {
		s.Log = append(s.Log, fmt.Sprintf("%6d t=%-9s g%-2d %-14s %s", s.steps, fmtDur(s.clock), s.cur.id, s.cur.name, fmt.Sprintf(format, a...)))
	}
}

func fmtDur(ns int64) string { return fmt.Sprintf("%.3fs", float64(ns)/1e9) }

// Tracef adds a line to the trace of a replay.
func Tracef(format string, a ...interface{}) {
	if S != nil && S.cfg.Trace && S.cur != nil {
		S.tr("%s", "## "+fmt.Sprintf(format, a...))
	}
}

func (s *Sched) newG(name string, fn func(), harness bool) *G {
	g := &G{id: len(s.gs), name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}), harness: harness}
	if s.cur != nil {
		s.cur.nspawn++
		g.path = mix(s.cur.path, s.cur.nspawn)
		g.h = mix(s.cur.h, s.cur.nspawn+1000)
		s.cur.h = mix(s.cur.h, 5)
		if s.cfg.Race {
			s.cur.vc = s.cur.vc.tick(s.cur.id)
			g.vc = s.cur.vc.clone()
		}
	} else {
		g.path = 1
		g.h = 1
	}
	if s.cfg.Race {
		g.vc = g.vc.tick(g.id)
	}
	s.readyseq++
	g.ready = s.readyseq
	s.gs = append(s.gs, g)
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			if r != nil && !s.dead {
				if _, ok := r.(killed); !ok {
					s.fail = &Failure{"panic", fmt.Sprintf("goroutine %s: %v\n%s", g.name, r, trimStack(debug.Stack()))}
				}
			}
			g.state = gDone
			if s.dead {
				close(g.exited)
				return
			}
			close(g.exited)
			if g.id == 0 || s.fail != nil {
				s.end()
				return
			}
			// hand over
			s.handover(g)
		}()
		if s.dead {
			return
		}
		fn()
	}()
	return g
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "vmc/rt") || strings.Contains(l, "runtime/") || strings.HasPrefix(l, "panic(") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (s *Sched) end() {
	if !s.ended {
		s.ended = true
		close(s.doneCh)
	}
}

// Go starts fn as a controlled goroutine.
func Go(fn func()) { goNamed("", fn, false) }

// HGo starts a named harness goroutine.
func HGo(name string, fn func()) { goNamed(name, fn, true) }

func goNamed(name string, fn func(), harness bool) {
	s := S
	if s == nil {
		panic("rt.Go outside of an execution")
	}
	if s.dead {
		runtime.Goexit()
	}
	if name == "" {
		pc, file, line, ok := runtime.Caller(2)
		_ = pc
		if ok {
			if i := strings.LastIndexByte(file, '/'); i >= 0 {
				file = file[i+1:]
			}
			name = fmt.Sprintf("%s:%d", file, line)
		}
	}
	if len(s.gs)%500 == 499 {
		n := 0
		for _, g := range s.gs {
			if g.state != gDone {
				n++
			}
		}
		if n > 2000 {
			s.failNow(&Failure{"spawn", "more than 2000 goroutines at once"})
		}
	}
	g := s.newG(name, fn, harness)
	s.tr("go g%d %s", g.id, name)
	s.point("go")
}

// point is a scheduling point before a visible operation.
func (s *Sched) point(what string) {
	if s.dead {
		runtime.Goexit()
	}
	g := s.cur
	g.state = gRunnable
	g.what = what
	g.h = mix(g.h, 3)
	s.switchFrom(g)
}

// block parks the current goroutine until someone calls s.unblock on it.
func (s *Sched) block(what string) {
	if s.dead {
		runtime.Goexit()
	}
	g := s.cur
	g.state = gBlocked
	g.what = what
	s.tr("blocks on %s", what)
	s.switchFrom(g)
}

func (s *Sched) unblock(g *G) {
	if g.state == gBlocked {
		g.state = gRunnable
		s.readyseq++
		g.ready = s.readyseq
	}
}

func (s *Sched) switchFrom(g *G) {
	s.steps++
	if s.steps > s.cfg.MaxSteps {
		s.limited = true
		s.failNow(&Failure{"livelock", fmt.Sprintf("no end after %d steps; running: %s", s.steps, s.describe())})
	}
	next := s.pick()
	if next == nil {
		s.end()
		<-g.wake
		runtime.Goexit()
	}
	if next != g {
		s.cur = next
		next.wake <- struct{}{}
		<-g.wake
		if s.dead {
			runtime.Goexit()
		}
	}
}

// handover is called by a goroutine that has finished.
func (s *Sched) handover(g *G) {
	next := s.pick()
	if next == nil {
		s.end()
		return
	}
	s.cur = next
	next.wake <- struct{}{}
}

func (s *Sched) failNow(f *Failure) {
	if s.fail == nil {
		s.fail = f
	}
	s.end()
	g := s.cur
	<-g.wake
	runtime.Goexit()
}

// pick chooses the goroutine to run next; nil ends the execution.
func (s *Sched) pick() *G {
	for {
		s.pollNatives()
		var list []*G
		cur := s.cur
		for _, g := range s.gs {
			switch g.state {
			case gRunnable:
				list = append(list, g)
			case gPred:
				if g.pred() {
					list = append(list, g)
				}
			}
		}
		if len(list) > 0 {
			sort.SliceStable(list, func(i, j int) bool {
				a, b := list[i], list[j]
				if (a == cur) != (b == cur) {
					return a == cur
				}
				return a.ready < b.ready
			})
			n := len(list)
			early := s.cfg.EarlyTimer && len(s.timers) > 0
			if early {
				n++
			}
			k := 0
			if n > 1 && s.noDecide == 0 {
				k = s.decide(n, false, list)
				if k < 0 {
					return nil
				}
			}
			if early && k == n-1 {
				s.fireNext()
				continue
			}
			g := list[k]
			if g.state == gPred {
				g.state = gRunnable
				g.pred = nil
			}
			return g
		}
		// quiescent, unless somebody is only taking a nap
		for _, g := range s.gs {
			if s.naps > 0 {
				break
			}
			if g.state == gQuiesce {
				g.state = gRunnable
				return g
			}
		}
		if len(s.timers) > 0 {
			s.fireNext()
			continue
		}
		if s.fail == nil {
			s.fail = &Failure{"deadlock", "no goroutine can run and no timer is pending: " + s.describe()}
		}
		return nil
	}
}

func (s *Sched) describe() string {
	var sb strings.Builder
	for _, g := range s.gs {
		if g.state == gDone {
			continue
		}
		st := map[gstate]string{gRunnable: "runnable", gBlocked: "blocked", gPred: "waiting", gQuiesce: "quiesce"}[g.state]
		fmt.Fprintf(&sb, "\n   g%d %s: %s at %s", g.id, g.name, st, g.what)
	}
	return sb.String()
}

// sig identifies the happens-before class of the current state.
func (s *Sched) sig(list []*G) uint64 {
	var sum uint64
	for _, g := range s.gs {
		st := uint64(g.state)
		if g.state == gDone {
			sum += mix(mix(g.path, g.h), 99)
			continue
		}
		sum += mix(mix(g.path, g.h), st)
	}
	h := mix(sum, uint64(s.clock))
	if s.cur != nil {
		h = mix(h, s.cur.path)
	}
	for _, g := range list {
		h = mix(h, g.path)
	}
	return h
}

// decide records (and resolves) one choice among n alternatives.
func (s *Sched) decide(n int, free bool, list []*G) int {
	idx := len(s.trace)
	c := 0
	if d, ok := s.dev[idx]; ok {
		if d >= n {
			s.fail = &Failure{"divergence", fmt.Sprintf("decision %d has %d alternatives, schedule wants %d", idx, n, d)}
			return -1
		}
		c = d
	}
	s.lastSig = s.sig(list)
	s.trace = append(s.trace, Decision{N: n, Chosen: c, Free: free, Sig: s.lastSig})
	if s.onDecide != nil && s.onDecide(idx, n, free) {
		s.pruned = true
		return -1
	}
	if c != 0 && s.cfg.Trace && list != nil && c < len(list) {
		s.Log = append(s.Log, fmt.Sprintf("%6d t=%-9s >>> deviation at decision %d: g%d %s instead of g%d %s", s.steps, fmtDur(s.clock), idx, list[c].id, list[c].name, list[0].id, list[0].name))
	}
	return c
}

// chooseN resolves a data choice made by the running goroutine.
func (s *Sched) chooseN(n int, free bool) int {
	if n <= 1 || s.noDecide > 0 {
		return 0
	}
	k := s.decide(n, free, nil)
	if k < 0 {
		s.end()
		g := s.cur
		<-g.wake
		runtime.Goexit()
	}
	if s.cfg.Trace {
		s.tr("choice %d of %d", k, n)
	}
	s.cur.h = mix(s.cur.h, uint64(k)+31)
	return k
}

// Choose lets the explorer pick one of n environment answers; every answer is
// explored (no deviation cost).
func Choose(n int) int { return S.chooseN(n, true) }

// ChooseDev is Choose where a non-zero answer counts as a deviation.
func ChooseDev(n int) int { return S.chooseN(n, false) }

// Await blocks the calling harness goroutine until pred holds.
func Await(what string, pred func() bool) {
	s := S
	if s.dead {
		runtime.Goexit()
	}
	g := s.cur
	g.state = gPred
	g.pred = pred
	g.what = what
	s.switchFrom(g)
	g.state = gRunnable
	s.touch(&s.hlog, 61)
}

// AwaitFor is Await with a virtual-time limit; it reports whether pred held.
func AwaitFor(what string, d int64, pred func() bool) bool {
	s := S
	done := false
	t := s.addTimer(s.clock+d, "await "+what, func() { done = true })
	Await(what, func() bool { return pred() || done })
	s.delTimer(t)
	return pred()
}

// Quiesce blocks until nothing else can run without the clock moving; naps are waited for.
func Quiesce() {
	s := S
	if s.dead {
		runtime.Goexit()
	}
	g := s.cur
	g.state = gQuiesce
	g.what = "quiesce"
	s.switchFrom(g)
	g.state = gRunnable
	g.h = mix(g.h, 67)
}

// Yield is a plain scheduling point.
func Yield() {
	if S != nil {
		S.point("yield")
	}
}

// Atomically runs fn with no scheduling decisions (default choices only).
func Atomically(fn func()) {
	S.noDecide++
	defer func() { S.noDecide-- }()
	fn()
}

// Note folds a harness-visible event into the state signature (harness logs are
// shared memory the scheduler does not see otherwise).
func Note(kind string) {
	s := S
	if s == nil || s.dead {
		return
	}
	s.touch(&s.hlog, hashString(kind))
	s.release(&s.hlog)
	if s.cfg.Trace {
		s.tr("## %s", kind)
	}
}

// Sync orders everything noted so far before what the calling goroutine does next (race detection).
func Sync() {
	if S != nil && !S.dead {
		S.acquire(&S.hlog)
	}
}

// Now is the virtual clock in ns since the start of the execution.
func Now() int64 { return S.clock }

// Fail reports a property violation found by the harness and ends the execution.
func Fail(format string, a ...interface{}) {
	s := S
	if s.dead {
		runtime.Goexit()
	}
	s.tr("FAIL "+format, a...)
	s.failNow(&Failure{"property", fmt.Sprintf(format, a...)})
}

// Dead reports that the execution is being torn down.
func Dead() bool { return S == nil || S.dead }

// Live lists the goroutines that have not finished, except harness ones.
func Live() []string {
	var out []string
	for _, g := range S.gs {
		if g.state != gDone && !g.harness {
			out = append(out, fmt.Sprintf("%s (%s)", g.name, g.what))
		}
	}
	sort.Strings(out)
	return out
}

// LiveCount counts live non-harness goroutines.
func LiveCount() int {
	n := 0
	for _, g := range S.gs {
		if g.state != gDone && !g.harness {
			n++
		}
	}
	return n
}

// Cover records a named situation reached by this execution.
func Cover(name string) {
	if S != nil {
		S.Coverage[name] = 1
	}
}

// Result of one execution.
type Result struct {
	Fail     *Failure
	Trace    []Decision
	Pruned   bool
	Steps    int
	Transit  int
	Log      []string
	Coverage map[string]int
	FinalSig uint64
	Races    map[string]string
}

// Run executes main once under the given deviations.
func Run(cfg Config, dev map[int]int, onDecide func(idx, n int, free bool) bool, main func()) *Result {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 60000
	}
	epochCounter++
	s := &Sched{cfg: cfg, dev: dev, doneCh: make(chan struct{}), epoch: epochCounter, onDecide: onDecide, Coverage: map[string]int{}, listenFns: map[string]func(*Conn){}}
	s.shadow = map[unsafe.Pointer]*shadowCell{}
	if cfg.Race {
		s.shadow = map[unsafe.Pointer]*shadowCell{}
		s.races = map[string]string{}
	}
	S = s
	g := s.newG("main", main, true)
	s.cur = g
	g.wake <- struct{}{}
	<-s.doneCh
	res := &Result{Fail: s.fail, Trace: s.trace, Pruned: s.pruned, Steps: s.steps, Transit: s.transit, Coverage: s.Coverage, Races: s.races}
	if s.fail == nil && !s.pruned {
		res.FinalSig = s.sig(nil)
	}
	// every prescribed deviation must have been consumed
	if res.Fail == nil && !res.Pruned {
		for i := range dev {
			if i >= len(s.trace) {
				res.Fail = &Failure{"divergence", fmt.Sprintf("execution has %d decisions, schedule deviates at %d", len(s.trace), i)}
			}
		}
	}
	// tear down
	s.dead = true
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		select {
		case <-g.exited:
			continue
		default:
		}
		s.cur = g
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.exited
	}
	for _, f := range s.cleanup {
		f()
	}
	res.Log = s.Log
	S = nil
	if os.Getenv("MC_DEBUG") != "" && len(s.gs) > 200 {
		fmt.Fprintln(os.Stderr, "goroutines:", len(s.gs))
	}
	return res
}

// Count adds to a counter reported as coverage: inputs tried within executions.
func Count(name string, n int) {
	if S != nil {
		S.Coverage[name] += n
	}
}

package rt

import (
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"time"
)

// Dev is one deviation of a schedule from the default.
type Dev struct {
	At, To int
}

// Scenario is a closed driver plus its oracle.
type Scenario struct {
	Name     string
	Props    []string // properties this scenario decides
	Quick    int      // deviation bound for the quick tier (-1: skip)
	Thorough int
	Cfg      Config
	N        int // number of variants (closed systems or input batches); 0 means 1
	Run      func(v int)
	// Describe names a variant.
	Describe func(v int) string
	// Cost weights sharing of the time budget between scenarios.
	Weight int
	Split  bool // variants differ so much in cost that each is divided among the workers
}

// Violation is a reproduced failure.
type Violation struct {
	Scenario string   `json:"scenario"`
	Variant  int      `json:"variant"`
	Name     string   `json:"variant_name,omitempty"`
	Devs     []Dev    `json:"deviations"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"message"`
	Log      []string `json:"trace,omitempty"`
}

// Stats of exploring one scenario.
type Stats struct {
	Scenario   string         `json:"scenario"`
	Variants   int            `json:"variants"`
	Bound      int            `json:"bound"`
	Completed  int            `json:"completed_bound"` // -1: not even the default schedules of every variant
	Exhaustive bool           `json:"exhaustive"`      // no alternative was left out at all
	Executions int            `json:"executions"`
	Pruned     int            `json:"pruned"`
	States     int            `json:"states"`
	Transit    int            `json:"transitions"`
	Outcomes   map[string]int `json:"outcomes"`
	Coverage   map[string]int `json:"coverage"`
	MaxDec     int            `json:"max_decisions"`
	MaxSteps   int            `json:"max_steps"`
	Samples    []string       `json:"samples"`
	WallMS     int64          `json:"wall_ms"`
	Pending    int            `json:"pending"`
	Optional   bool           `json:"optional"` // of the thorough tier, run in the time left over
	Deeper     int            `json:"deeper"`   // executions beyond the declared bound
}

type node struct {
	parent *node
	at     int32
	to     int16
	cost   int8
	v      int32
}

func (n *node) devs() map[int]int {
	m := map[int]int{}
	for x := n; x != nil && x.parent != nil; x = x.parent {
		m[int(x.at)] = int(x.to)
	}
	return m
}

func (n *node) list() []Dev {
	var l []Dev
	for x := n; x != nil && x.parent != nil; x = x.parent {
		l = append(l, Dev{int(x.at), int(x.to)})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].At < l[j].At })
	return l
}

// Explorer explores one scenario within one worker.
type Explorer struct {
	Sc       *Scenario
	Bound    int
	Shard    int
	Shards   int
	Seed     uint64
	Deadline time.Time
	Stats    Stats
	// Known reports whether a failure is a listed finding (exploration goes on).
	Known  func(v *Violation) bool
	KnownV map[string]*Violation
	Status io.WriterAt // where the schedule being run is written, should the process die
	seen   map[uint64]int8
	buck   [][]*node

	declared  int
	full, cut bool
	dropped   bool // of the executions beyond the declared bound, some were not even noted
	// Outcome is set by the scenario through Outcome().
}

// maxSeen bounds the state cache; what is not in it is explored again.
const maxSeen = 24 << 20

var outcome string

// Outcome records what the execution ended with, to count distinct outcomes.
func Outcome(format string, a ...interface{}) { outcome = fmt.Sprintf(format, a...) }

// Explore returns the first unlisted violation, if any.
func (e *Explorer) Explore() *Violation {
	e.Start(e.Bound)
	return e.Continue(e.Bound, e.Deadline)
}

// Start prepares an exploration up to the deviation bound e.Bound, of which the bound
// declared is promised to be completed.
func (e *Explorer) Start(declared int) {
	sc := e.Sc
	n := sc.N
	if n == 0 {
		n = 1
	}
	e.declared = declared
	e.seen = map[uint64]int8{}
	e.KnownV = map[string]*Violation{}
	e.Stats = Stats{Scenario: sc.Name, Variants: n, Bound: declared, Completed: -1, Outcomes: map[string]int{}, Coverage: map[string]int{}}
	e.buck = make([][]*node, e.Bound+1)
	for v := 0; v < n; v++ {
		// sequential scenarios and wide ones are sharded by variant
		e.buck[0] = append(e.buck[0], &node{v: int32(v)})
	}
	e.full = true
}

// Continue explores up to a bound, or until the deadline.
func (e *Explorer) Continue(upto int, deadline time.Time) *Violation {
	start := time.Now()
	n := e.Stats.Variants
	defer func() {
		e.Stats.States = len(e.seen)
		e.Stats.WallMS += time.Since(start).Milliseconds()
		e.Stats.Exhaustive = e.full && e.Stats.Completed >= e.Bound
	}()
	if e.cut {
		return nil
	}
	for c := e.Stats.Completed + 1; c <= upto; c++ {
		q := e.buck[c]
		e.buck[c] = nil
		if c > 0 {
			e.shuffle(q)
		}
		// the queue grows while it is processed: free choices stay in the same bucket
		for i := 0; i < len(q); i++ {
			if time.Now().After(deadline) {
				e.Stats.Pending = len(q) - i
				e.full, e.cut = false, true
				return nil
			}
			nd := q[i]
			q[i] = nil
			if nd.parent == nil && !e.mine(nd, -1, 0, n) && e.byVariant(n) {
				continue
			}
			report := nd.parent != nil || e.mine(nd, -1, 0, n)
			viol, more := e.one(nd, c, n, &e.full, report)
			if viol != nil {
				return viol
			}
			q = append(q, more...)
			if c > e.declared && report {
				e.Stats.Deeper++
			}
		}
		if e.dropped && c > e.declared {
			e.cut = true
			return nil
		}
		e.Stats.Completed = c
	}
	return nil
}

// byVariant: scenarios with enough variants of even cost are divided among the workers by
// variant, others by the first deviation.
func (e *Explorer) byVariant(n int) bool {
	return e.Bound == 0 || n >= e.Shards && !e.Sc.Split
}

func (e *Explorer) mine(nd *node, at, to, n int) bool {
	if e.Shards <= 1 {
		return true
	}
	if e.byVariant(n) || nd.parent == nil && at < 0 {
		return int(nd.v)%e.Shards == e.Shard
	}
	return mix(mix(uint64(at)+1, uint64(to)), uint64(nd.v)+7)%uint64(e.Shards) == uint64(e.Shard)
}

func (e *Explorer) shuffle(q []*node) {
	// a fixed interleaving so that a deadline cuts evenly, not the tail
	x := e.Seed*2654435761 + 88172645463325252
	for i := len(q) - 1; i > 0; i-- {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		j := int(x % uint64(i+1))
		q[i], q[j] = q[j], q[i]
	}
}

func (e *Explorer) one(nd *node, cost, n int, full *bool, count bool) (*Violation, []*node) {
	dev := nd.devs()
	last := -1
	for i := range dev {
		if i > last {
			last = i
		}
	}
	remaining := int8(e.Bound - cost)
	if e.Bound > 0 {
		remaining++
	}
	vs := mix(uint64(nd.v)+3, 0x51ed)
	usable := 0
	onDecide := func(idx, k int, free bool) bool {
		if idx <= last {
			return false
		}
		sig := mix(S.lastSig, vs)
		if r, ok := e.seen[sig]; ok && r >= remaining {
			return true
		}
		if len(e.seen) < maxSeen {
			e.seen[sig] = remaining
		}
		usable = idx + 1
		return false
	}
	outcome = ""
	if e.Status != nil {
		b, _ := json.Marshal(&Violation{Scenario: e.Sc.Name, Variant: int(nd.v), Devs: nd.list(), Kind: "crash"})
		if len(b) < 1023 {
			b = append(b, make([]byte, 1023-len(b))...)
			for i := range b {
				if b[i] == 0 {
					b[i] = ' '
				}
			}
		}
		e.Status.WriteAt(append(b, '\n'), 0)
	}
	res := Run(e.Sc.Cfg, dev, onDecide, func() { e.Sc.Run(int(nd.v)) })
	if count {
		e.Stats.Executions++
		e.Stats.Transit += res.Transit
		if res.Pruned {
			e.Stats.Pruned++
		}
		for c, n := range res.Coverage {
			e.Stats.Coverage[c] += n
		}
		if !res.Pruned && res.Fail == nil {
			if len(e.Stats.Outcomes) < 2000 {
				e.Stats.Outcomes[outcome]++
			}
			if len(e.seen) < maxSeen {
				e.seen[mix(res.FinalSig, vs+1)] = 127
			}
			if len(e.Stats.Samples) < 3 {
				e.Stats.Samples = append(e.Stats.Samples, fmt.Sprintf("variant %d %s deviations %v: %d decisions, %d steps, outcome %q", nd.v, e.desc(int(nd.v)), nd.list(), len(res.Trace), res.Steps, outcome))
			}
		}
		if len(res.Trace) > e.Stats.MaxDec {
			e.Stats.MaxDec = len(res.Trace)
		}
		if res.Steps > e.Stats.MaxSteps {
			e.Stats.MaxSteps = res.Steps
		}
	}
	if res.Fail == nil && len(res.Races) > 0 && e.Sc.Cfg.Race {
		var ks []string
		for k := range res.Races {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v := &Violation{Scenario: e.Sc.Name, Variant: int(nd.v), Name: e.desc(int(nd.v)), Devs: nd.list(), Kind: "race", Msg: "[race] " + k + "\n  " + res.Races[k]}
			if e.Known != nil && e.Known(v) {
				e.KnownV[v.Msg] = v
				continue
			}
			return v, nil
		}
	}
	if res.Fail != nil {
		v := &Violation{Scenario: e.Sc.Name, Variant: int(nd.v), Name: e.desc(int(nd.v)), Devs: nd.list(), Kind: res.Fail.Kind, Msg: res.Fail.Msg}
		if e.Known != nil && e.Known(v) {
			e.KnownV[v.Msg] = v
		} else {
			return v, nil
		}
	}
	// children
	var more []*node
	for i := last + 1; i < len(res.Trace) && i < usable; i++ {
		d := res.Trace[i]
		cc := cost
		if !d.Free {
			cc++
		}
		if cc > e.Bound {
			*full = false
			continue
		}
		for k := 1; k < d.N; k++ {
			if nd.parent == nil && !e.byVariant(n) && !e.mine(nd, i, k, n) {
				continue
			}
			ch := &node{parent: nd, at: int32(i), to: int16(k), cost: int8(cc), v: nd.v}
			if cc == cost {
				more = append(more, ch)
			} else if cc > e.declared && len(e.buck[cc]) >= 1500000 {
				e.dropped, *full = true, false
			} else {
				e.buck[cc] = append(e.buck[cc], ch)
			}
		}
	}
	return nil, more
}

func (e *Explorer) desc(v int) string {
	if e.Sc.Describe != nil {
		return e.Sc.Describe(v)
	}
	return ""
}

// Replay runs one recorded schedule.
func Replay(sc *Scenario, v int, devs []Dev, trace bool) *Result {
	m := map[int]int{}
	for _, d := range devs {
		m[d.At] = d.To
	}
	cfg := sc.Cfg
	cfg.Trace = trace
	outcome = ""
	return Run(cfg, m, nil, func() { sc.Run(v) })
}

package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/zyxar/socketio"

	"vmc/rt"
)

// ---- C18: decoders survive any frame sequence and resynchronise

type verdict int

const (
	bad     verdict = iota // must be reported and produce nothing
	good                   // must produce exactly the packet (after its attachments)
	neutral                // either, without panicking
)

// refPkt is what the format says a text frame means.
type refPkt struct {
	typ  int
	nsp  string
	id   string // digits, "" if none
	ev   string
	args []interface{} // binary arguments are binRef
	data interface{}   // of other packets
	has  bool          // data present
	n    int           // attachments

	badEv bool // a list without event name: reported at the latest when the attachments are there
}

type binRef int

// refParse is an independent strict parser of a text frame of the default parser's format.
func refParse(s string) (p refPkt, v verdict) {
	if s == "" || s[0] < '0' || s[0] > '6' {
		return p, bad
	}
	p.typ = int(s[0] - '0')
	p.nsp = "/"
	s = s[1:]
	amb := false // some reading of it is conceivable
	binary := p.typ == 5 || p.typ == 6
	if binary {
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == len(s) || s[i] != '-' {
			return p, bad
		}
		if i == 0 {
			amb = true
		} else {
			n, err := strconv.Atoi(s[:i])
			if err != nil {
				return p, bad
			}
			p.n = n
		}
		s = s[i+1:]
	}
	if s != "" && s[0] == '/' {
		i := strings.IndexByte(s, ',')
		if i < 0 {
			p.nsp, s = s, ""
		} else {
			p.nsp, s = s[:i], s[i+1:]
		}
		if j := strings.IndexByte(p.nsp, '?'); j >= 0 {
			p.nsp = p.nsp[:j]
		}
	}
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i > 0 {
		if _, err := strconv.ParseUint(s[:i], 10, 64); err != nil {
			return p, bad
		}
		p.id = strings.TrimLeft(s[:i-1], "0") + s[i-1:i]
		if p.typ == 0 || p.typ == 1 || p.typ == 4 {
			amb = true // digits of an id or of the data
		}
		s = s[i:]
	}
	list := p.typ == 2 || p.typ == 3 || binary
	if s == "" {
		if list {
			return p, bad
		}
		if amb {
			return p, neutral
		}
		return p, good
	}
	var d interface{}
	if json.Unmarshal([]byte(s), &d) != nil {
		return p, bad
	}
	if s[0] == ' ' || s[0] == '\t' || s[0] == '\n' || s[0] == '\r' {
		amb = true // whitespace before the data
	}
	if !list {
		p.data, p.has = d, true
		if amb {
			return p, neutral
		}
		return p, good
	}
	l, ok := d.([]interface{})
	if !ok {
		return p, bad
	}
	if p.typ == 2 || p.typ == 5 {
		if len(l) == 0 {
			return p, bad
		}
		if p.ev, ok = l[0].(string); ok {
			amb = amb || p.ev == ""
			l = l[1:]
		} else {
			p.badEv = true
		}
	}
	p.args = l
	// the spelling of numbers, which placeholders are particular about
	var nums []interface{}
	nd := json.NewDecoder(strings.NewReader(s))
	nd.UseNumber()
	nd.Decode(&nums)
	nums = nums[len(nums)-len(l):]
	seen := map[int]bool{}
	count := 0
	var nested func(v interface{}) bool
	nested = func(v interface{}) bool {
		switch x := v.(type) {
		case []interface{}:
			for _, e := range x {
				if nested(e) {
					return true
				}
			}
		case map[string]interface{}:
			if _, ok := x["_placeholder"]; ok {
				return true
			}
			for _, e := range x {
				if nested(e) {
					return true
				}
			}
		}
		return false
	}
	for i, a := range l {
		m, ok := a.(map[string]interface{})
		if ok && m["_placeholder"] == true && len(m) == 2 {
			f, isnum := m["num"].(float64)
			if isnum && strings.Trim(string(nums[i].(map[string]interface{})["num"].(json.Number)), "0123456789") != "" {
				amb = true
				continue
			}
			if isnum && f >= 0 && f == float64(int(f)) {
				if !binary {
					amb = true
					continue
				}
				if seen[int(f)] {
					amb = true
				}
				if int(f) >= p.n {
					return p, bad
				}
				seen[int(f)] = true
				count++
				l[i] = binRef(int(f))
				continue
			}
		}
		if nested(a) {
			amb = true
		}
	}
	if binary && count != p.n && !amb {
		return p, bad
	}
	if amb {
		return p, neutral
	}
	if p.badEv {
		return p, bad
	}
	return p, good
}

// decUse is what a consumer sees of a decoded packet.
type decUse struct {
	p    *socketio.Packet
	ev   string
	args []interface{}
	bs   []*socketio.Bytes
	err  error
}

// consume takes a packet apart as Server and Client do, with parameters of the kinds wanted.
func consume(d socketio.Decoder, p *socketio.Packet, want *refPkt) (u decUse) {
	u.p = p
	switch p.Type {
	case socketio.PacketTypeEvent, socketio.PacketTypeBinaryEvent, socketio.PacketTypeAck, socketio.PacketTypeBinaryAck:
	default:
		return
	}
	ev, data, bin, err := d.ParseData(p)
	if err != nil {
		u.err = err
		return
	}
	u.ev = ev
	var ts []reflect.Type
	if want != nil {
		for _, a := range want.args {
			if _, ok := a.(binRef); ok {
				ts = append(ts, tBytes)
			} else {
				ts = append(ts, tAny)
			}
		}
	} else {
		ts = []reflect.Type{tAny, tBytes, tAny}
	}
	vs, err := d.UnmarshalArgs(ts, data, bin)
	if err != nil {
		u.err = err
		return
	}
	for _, v := range vs {
		if b, ok := v.Interface().(*socketio.Bytes); ok {
			u.args = append(u.args, "bin:"+string(b.Data))
			u.bs = append(u.bs, b)
			continue
		}
		u.args = append(u.args, v.Interface())
	}
	return
}

var tBytes = reflect.TypeOf(&socketio.Bytes{})

func sameRef(u decUse, r refPkt, bins []string) string {
	if int(u.p.Type) != r.typ {
		return fmt.Sprintf("type %d", u.p.Type)
	}
	if u.p.Namespace != r.nsp {
		return fmt.Sprintf("namespace %q", u.p.Namespace)
	}
	id := ""
	if u.p.ID != nil {
		id = fmt.Sprint(*u.p.ID)
	}
	if id != r.id {
		return fmt.Sprintf("id %q", id)
	}
	if r.typ == 0 || r.typ == 1 || r.typ == 4 {
		if !reflect.DeepEqual(u.p.Data, r.data) {
			return fmt.Sprintf("data %#v", u.p.Data)
		}
		return ""
	}
	if u.err != nil {
		return fmt.Sprintf("error %v", u.err)
	}
	if u.ev != r.ev {
		return fmt.Sprintf("event %q", u.ev)
	}
	if len(u.args) != len(r.args) {
		return fmt.Sprintf("%d arguments", len(u.args))
	}
	for i, a := range r.args {
		if n, ok := a.(binRef); ok {
			a = "bin:" + bins[int(n)]
		}
		if !reflect.DeepEqual(u.args[i], a) {
			return fmt.Sprintf("argument %d %q, want %q", i, clip(fmt.Sprint(u.args[i])), clip(fmt.Sprint(a)))
		}
	}
	return ""
}

func (r refPkt) String() string {
	return fmt.Sprintf("{type %d nsp %q id %q event %q args %v data %v attachments %d}", r.typ, r.nsp, r.id, r.ev, r.args, r.data, r.n)
}

// dframe is one frame of a sequence.
type dframe struct {
	bin bool
	s   string
}

func (f dframe) String() string {
	if f.bin {
		return fmt.Sprintf("bin %q", clip(f.s))
	}
	return fmt.Sprintf("%q", clip(f.s))
}

// decRun is a decoder and the reference's state of it.
type decRun struct {
	d       socketio.Decoder
	partial *refPkt
	bins    []string
	fuzzy   bool // an ambiguous frame came last: nothing is known until the next text frame
	hist    []dframe
	n       int
	held    []*socketio.Bytes // binary arguments handed out before, and what they were
	heldS   []string
}

func newDecRun() *decRun { return &decRun{d: socketio.DefaultParser.Decoder()} }

func (r *decRun) fail(f string, a ...interface{}) {
	rt.Fail("%s\n  frames %v", fmt.Sprintf(f, a...), r.hist)
}

// add feeds one frame and judges what comes of it.
func (r *decRun) add(f dframe) {
	r.n++
	if len(r.hist) >= 12 {
		r.hist = append(r.hist[:0:0], r.hist[len(r.hist)-11:]...)
	}
	r.hist = append(r.hist, f)
	t := socketio.MessageTypeString
	if f.bin {
		t = socketio.MessageTypeBinary
	}
	var want, late *refPkt
	v := bad
	if f.bin {
		switch {
		case r.fuzzy:
			v = neutral
		case r.partial == nil:
		default:
			r.bins = append(r.bins, f.s)
			v = neutral
			if len(r.bins) == r.partial.n {
				want, v = r.partial, good
				if want.badEv {
					want, v = nil, bad
				}
				r.partial = nil
			} else {
				v = -1 // goes on silently
			}
		}
	} else {
		r.partial, r.bins, r.fuzzy = nil, nil, false
		var p refPkt
		p, v = refParse(f.s)
		switch {
		case v == good && p.n > 0:
			r.partial, v = &p, -1
		case v == good:
			want = &p
		case v == neutral:
			r.fuzzy = true
		case p.badEv && p.n > 0:
			late = &p
		}
	}
	err := r.d.Add(t, []byte(f.s))
	var got []decUse
	for c := r.d.Decoded(); c.Len() > 0; {
		got = append(got, consume(r.d, c.Recv(), want))
	}
	if len(got) > 1 {
		r.fail("[several] one frame produced %d packets", len(got))
	}
	switch v {
	case bad:
		if late != nil && err == nil && len(got) == 0 {
			r.partial = late
			return
		}
		if err == nil && (len(got) == 0 || got[0].err == nil) {
			if len(got) == 0 {
				r.fail("[unreported] malformed frame %v reported nowhere", f)
			}
			r.fail("[accepted] malformed frame %v gives packet %v event %q args %v", f, pktShow(got[0].p), got[0].ev, got[0].args)
		}
		if err != nil && len(got) > 0 {
			r.fail("[both] malformed frame %v reported (%v) and yet produces a packet", f, err)
		}
	case good:
		if err != nil {
			r.fail("[refused] frame %v of packet %v: %v", f, want, err)
		}
		if len(got) != 1 {
			r.fail("[nothing] complete packet %v produces nothing", want)
		}
		if s := sameRef(got[0], *want, r.bins); s != "" {
			r.fail("[wrong] packet %v with attachments %q decoded with %s", want, r.bins, s)
		}
		for i, b := range r.held {
			if string(b.Data) != r.heldS[i] {
				r.fail("[changed] binary argument %q handed out before has become %q", r.heldS[i], b.Data)
			}
		}
		if len(r.held) > 4 {
			r.held, r.heldS = nil, nil
		}
		for _, b := range got[0].bs {
			r.held, r.heldS = append(r.held, b), append(r.heldS, string(b.Data))
		}
	case -1:
		if err != nil {
			r.fail("[refused] frame %v: %v", f, err)
		}
		if len(got) > 0 {
			r.fail("[early] incomplete packet produced %v", pktShow(got[0].p))
		}
	}
}

func pktShow(p *socketio.Packet) string {
	b, _ := p.Data.([]byte)
	return fmt.Sprintf("{type %d nsp %q data %v %q}", p.Type, p.Namespace, p.Data != nil, b)
}

var probeN int

// probe checks that the decoder works on as a fresh one.
func (r *decRun) probe() {
	probeN++
	switch probeN % 4 {
	case 0:
		r.add(dframe{s: `2/p,17["probe",{"k":[1,"x"]},null]`})
	case 1:
		r.add(dframe{s: `52-["bp",{"_placeholder":true,"num":1},"m",{"num":0,"_placeholder":true}]`})
		r.add(dframe{true, "P0"})
		r.add(dframe{true, "P1"})
	case 2:
		r.add(dframe{s: `61-/p,4[{"_placeholder":true,"num":0}]`})
		r.add(dframe{true, "Q"})
	case 3:
		r.add(dframe{s: `3["a"]`})
	}
}

var dFrames = []dframe{
	{s: `2["a",1]`}, {s: `3/n,7["r"]`}, {s: `0/n`}, {s: `1`},
	{s: `51-["b",{"_placeholder":true,"num":0}]`},
	{s: `52-/n,9["c",{"_placeholder":true,"num":0},"s",{"_placeholder":true,"num":1}]`},
	{s: `62-3[{"num":1,"_placeholder":true},{"num":0,"_placeholder":true}]`},
	{s: `50-["d","x"]`},
	{true, "B1"}, {true, ""}, {true, "B3"},
	{s: ``}, {s: `7["x"]`}, {s: `2["a"`}, {s: `51-["b"]`}, {s: `51-["b",{"_placeholder":true,"num":1}]`}, {s: `5["x",{"_placeholder":true,"num":0}]`},
	{s: `499999999999999999999["a"]`}, {s: `59999999999999999999-["b",{"_placeholder":true,"num":0}]`}, {s: `2{"a":1}`}, {s: `2[1]`}, {s: `4/n,{"e":`}, {s: `51-x`}, {s: `51-["b",{"_placeholder":true,"num":0}`},
	{s: `2["a",{"_placeholder":true,"num":0}]`}, {s: `52-["b",{"_placeholder":true,"num":0},{"_placeholder":true,"num":0}]`},
	{s: `51-["b",{"_placeholder":true,"num":99999999999999999999}]`}, {s: `2/n`}, {s: `51-`}, {s: `6`},
}

func init() {
	nf := len(dFrames)
	for _, tier := range []struct {
		suffix string
		depth  int
		q, t   int
	}{{"", 3, 0, -1}, {"-deep", 4, -1, 0}} {
		tier := tier
		reg(&rt.Scenario{Name: "decoder-sequences" + tier.suffix, Props: []string{"C18"}, Quick: tier.q, Thorough: tier.t, Cfg: rt.Config{MaxSteps: 400000000}, N: nf,
			Describe: func(v int) string {
				return fmt.Sprintf("default decoder, all sequences of up to %d frames beginning with %v", tier.depth, dFrames[v])
			},
			Run: func(v int) {
				n := 0
				var rec func(seq []int)
				rec = func(seq []int) {
					r := newDecRun()
					for _, i := range seq {
						r.add(dFrames[i])
					}
					for i := 0; i < 4; i++ {
						r.probe()
					}
					n++
					if len(seq) == tier.depth {
						return
					}
					for i := range dFrames {
						rec(append(seq[:len(seq):len(seq)], i))
					}
				}
				rec([]int{v})
				rt.Count("sequences", n)
			}})
	}
	prefixes := []string{"", "2", "3", "0", "1", "4", "5", "6", `2["a"`, `2/n,`, `2/n,1`, `51-[`, `51-["b",`, `51-["b",{"_placeholder":true,"num":0}`, `51-{"_placeholder":true,"num":0}`, `61-/`, `61-[{"_placeholder":true,"num":0}`, `52-["b",{"_placeholder":true,"num":0},{"_placeholder":true,"num":`, `4/n,"`, `218446744073709551`, `2["a",{"x":`, `50-["`}
	alpha := "0123-/,?[]\"a{}:\\ "
	for _, tier := range []struct {
		suffix string
		depth  int
		q, t   int
	}{{"", 3, 0, -1}, {"-deep", 4, -1, 0}} {
		tier := tier
		reg(&rt.Scenario{Name: "decoder-bytes" + tier.suffix, Props: []string{"C18"}, Quick: tier.q, Thorough: tier.t, Cfg: rt.Config{MaxSteps: 2000000000}, N: len(prefixes) * len(alpha),
			Describe: func(v int) string {
				return fmt.Sprintf("default decoder, %q followed by %q and every string of up to %d characters of %q", prefixes[v/len(alpha)], alpha[v%len(alpha)], tier.depth, alpha)
			},
			Run: func(v int) {
				r := newDecRun()
				b := []byte(prefixes[v/len(alpha)] + alpha[v%len(alpha):v%len(alpha)+1])
				var rec func(k int)
				rec = func(k int) {
					r.add(dframe{s: string(b)})
					if r.n%3 == 0 {
						r.add(dframe{true, "T" + strconv.Itoa(r.n)})
					}
					r.probe()
					if k == 0 {
						return
					}
					for i := 0; i < len(alpha); i++ {
						b = append(b, alpha[i])
						rec(k - 1)
						b = b[:len(b)-1]
					}
				}
				rec(tier.depth)
				rt.Count("frames", r.n)
			}})
	}
	// truncations and single-byte corruptions of well-formed frames
	whole := []string{
		`2/ns,12["ev",{"k":[1,null,"x"]},"s"]`, `52-/ns,3["ev",{"_placeholder":true,"num":0},"m",{"_placeholder":true,"num":1}]`, `61-45[{"num":0,"_placeholder":true},1]`,
		`4/ns,{"message":"no"}`, `0/ns?a=b`, `3/ns,0[]`, `51-["a\"b",[{"_placeholder":true,"num":0}]]`, `51-["a",{"d":{"_placeholder":true,"num":0}}]`,
	}
	reg(&rt.Scenario{Name: "decoder-corrupt", Props: []string{"C18"}, Cfg: rt.Config{MaxSteps: 2000000000}, N: len(whole),
		Describe: func(v int) string {
			return fmt.Sprintf("default decoder, every truncation and every one-byte change, insertion and removal of %q", whole[v])
		},
		Run: func(v int) {
			r := newDecRun()
			w := whole[v]
			try := func(s string) {
				r.add(dframe{s: s})
				r.add(dframe{true, "X"})
				r.probe()
			}
			for i := 0; i <= len(w); i++ {
				try(w[:i])
				for c := 0; c < 256; c++ {
					try(w[:i] + string([]byte{byte(c)}) + w[i:])
					if i < len(w) {
						try(w[:i] + string([]byte{byte(c)}) + w[i+1:])
					}
				}
				if i < len(w) {
					try(w[:i] + w[i+1:])
				}
			}
			rt.Count("frames", r.n)
		}})
}

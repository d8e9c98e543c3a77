package harness

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/zyxar/socketio"

	"vmc/rt"
)

// ---- logical packets and the reference codec of the default parser

// sArg is one argument: how it is passed, as what it is received, and its JSON (binary arguments have none).
type sArg struct {
	v    interface{}  // passed to Encode
	t    reflect.Type // parameter receiving it
	want interface{}  // value the parameter has then
	js   string       // its JSON
	bin  bool
}

type sPkt struct {
	typ  int // of the wire: 0..6
	nsp  string
	id   *uint64
	ev   string
	args []sArg
	err  string // JSON of the data of other packets
}

func (p sPkt) String() string {
	id := "-"
	if p.id != nil {
		id = fmt.Sprint(*p.id)
	}
	var a []string
	for _, x := range p.args {
		if x.bin {
			a = append(a, fmt.Sprintf("bin%x", x.want))
		} else {
			a = append(a, x.js)
		}
	}
	return fmt.Sprintf("type %d nsp %q id %s event %q args [%s] data %s", p.typ, p.nsp, id, p.ev, strings.Join(a, " "), p.err)
}

var tAny = reflect.TypeOf((*interface{})(nil)).Elem()

func jarg(v interface{}) sArg {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var w interface{}
	json.Unmarshal(b, &w)
	return sArg{v: v, t: tAny, want: w, js: string(b)}
}

func targ(v interface{}) sArg {
	a := jarg(v)
	a.t, a.want = reflect.TypeOf(v), v
	return a
}

func barg(s string, ptr bool) sArg {
	a := sArg{t: reflect.TypeOf(&socketio.Bytes{}), want: s, bin: true}
	if ptr {
		a.v = &socketio.Bytes{Data: []byte(s)}
	} else {
		a.v = socketio.Bytes{Data: []byte(s)}
		a.t = reflect.TypeOf(socketio.Bytes{})
	}
	return a
}

// sBlob is a binary type of the application's
type sBlob struct{ s string }

func (b sBlob) MarshalBinary() ([]byte, error) { return []byte(b.s), nil }
func (b *sBlob) UnmarshalBinary(p []byte) error {
	if strings.HasPrefix(string(p), "refused") {
		return errors.New("refused")
	}
	b.s = string(p)
	return nil
}

// sOwn is a type with a JSON encoding of its own
type sOwn struct{ a, b int }

func (o sOwn) MarshalJSON() ([]byte, error) {
	return []byte(fmt.Sprintf(`{"_":[%d,"%d"]}`, o.a, o.b)), nil
}
func (o *sOwn) UnmarshalJSON(p []byte) error {
	var x struct {
		L []json.RawMessage `json:"_"`
	}
	if err := json.Unmarshal(p, &x); err != nil {
		return err
	}
	if len(x.L) != 2 {
		return errors.New("no sOwn")
	}
	var s string
	if err := json.Unmarshal(x.L[1], &s); err != nil {
		return err
	}
	o.b, _ = strconv.Atoi(s)
	return json.Unmarshal(x.L[0], &o.a)
}

func obarg(s string, ptr bool) sArg {
	if ptr {
		return sArg{v: &sBlob{s}, t: reflect.TypeOf(&sBlob{}), want: s, bin: true}
	}
	return sArg{v: sBlob{s}, t: reflect.TypeOf(sBlob{}), want: s, bin: true}
}

func tmarg(t time.Time) sArg {
	b, _ := t.MarshalBinary()
	return sArg{v: t, t: reflect.TypeOf(t), want: string(b), bin: true}
}

func (p sPkt) event() bool { return p.typ == 2 || p.typ == 5 }
func (p sPkt) ack() bool   { return p.typ == 3 || p.typ == 6 }

func (p sPkt) bins() (b []string) {
	for _, a := range p.args {
		if a.bin {
			b = append(b, a.want.(string))
		}
	}
	return
}

// packet is what the application hands to the encoder; data in a list of its own.
func (p sPkt) packet() *socketio.Packet {
	q := &socketio.Packet{Type: socketio.PacketType(p.typ), Namespace: p.nsp}
	if p.id != nil {
		id := *p.id
		q.ID = &id
	}
	if p.event() || p.ack() {
		l := []interface{}{}
		if p.event() {
			l = append(l, p.ev)
		}
		for _, a := range p.args {
			l = append(l, a.v)
		}
		q.Data = l
	} else if p.err != "" {
		json.Unmarshal([]byte(p.err), &q.Data)
	}
	return q
}

// wireType is the type on the wire: packets with binary data are of the binary kinds.
func (p sPkt) wireType() int {
	if len(p.bins()) > 0 {
		switch p.typ {
		case 2:
			return 5
		case 3:
			return 6
		}
	}
	return p.typ
}

func (p sPkt) wireNsp() string {
	if p.nsp == "" {
		return "/"
	}
	if p.nsp[0] != '/' {
		return "/" + p.nsp
	}
	return p.nsp
}

// spelling of a frame
type spell struct {
	ws    func(i int) string // whitespace at the i-th gap
	str   func(s string) string
	order int  // placeholder numbering: 0 ascending, 1 descending
	key   int  // placeholder key order
	comma bool // namespace followed by a comma even when nothing else is
	root  bool // the root namespace spelt out
	query string
	tail  string
}

var compact = spell{ws: func(int) string { return "" }, str: jsonStr, comma: true}

func jsonStr(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	return strings.TrimSpace(b.String())
}

func escStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			fmt.Fprintf(&sb, "\\u%04X\\u%04x", 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			continue
		}
		fmt.Fprintf(&sb, "\\u%04x", r)
	}
	sb.WriteByte('"')
	return sb.String()
}

func slashStr(s string) string { return strings.Replace(jsonStr(s), "/", "\\/", -1) }

// frames is the reference encoder: text frame and attachments in order.
func (p sPkt) frames(sp spell) (string, []string) {
	t := p.wireType()
	h := strconv.Itoa(t)
	bins := p.bins()
	if t == 5 || t == 6 {
		h += strconv.Itoa(len(bins)) + "-"
	}
	rest := ""
	if p.id != nil {
		rest = strconv.FormatUint(*p.id, 10)
	}
	gap := 0
	ws := func() string { gap++; return sp.ws(gap) }
	if p.event() || p.ack() {
		var items []string
		if p.event() {
			items = append(items, sp.str(p.ev))
		}
		n := 0
		for _, a := range p.args {
			if a.bin {
				num := n
				if sp.order == 1 {
					num = len(bins) - 1 - n
				}
				n++
				if sp.key == 0 {
					items = append(items, "{"+ws()+`"_placeholder"`+ws()+":"+ws()+"true"+ws()+","+ws()+`"num"`+ws()+":"+ws()+strconv.Itoa(num)+ws()+"}")
				} else {
					items = append(items, "{"+ws()+`"num"`+ws()+":"+ws()+strconv.Itoa(num)+ws()+","+ws()+`"_placeholder"`+ws()+":"+ws()+"true"+ws()+"}")
				}
				continue
			}
			items = append(items, respell(a.js, sp))
		}
		rest += "[" + ws()
		for i, it := range items {
			if i > 0 {
				rest += ws() + "," + ws()
			}
			rest += it
		}
		rest += ws() + "]" + sp.tail
	} else if p.err != "" {
		rest += respell(p.err, sp) + sp.tail
	}
	nsp := p.wireNsp()
	if nsp != "/" || sp.root || sp.query != "" {
		h += nsp + sp.query
		if sp.comma || rest != "" {
			h += ","
		}
	}
	if sp.order == 1 {
		for i, j := 0, len(bins)-1; i < j; i, j = i+1, j-1 {
			bins[i], bins[j] = bins[j], bins[i]
		}
	}
	return h + rest, bins
}

// respell rewrites JSON with the whitespace and string spelling of sp.
func respell(js string, sp spell) string {
	d := json.NewDecoder(strings.NewReader(js))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	g := 100
	ws := func() string { g++; return sp.ws(g) }
	var w func(v interface{}) string
	w = func(v interface{}) string {
		switch x := v.(type) {
		case nil:
			return "null"
		case bool:
			return fmt.Sprint(x)
		case json.Number:
			return x.String()
		case string:
			return sp.str(x)
		case []interface{}:
			s := "[" + ws()
			for i, e := range x {
				if i > 0 {
					s += ws() + "," + ws()
				}
				s += w(e)
			}
			return s + ws() + "]"
		case map[string]interface{}:
			s := "{" + ws()
			i := 0
			for _, k := range sortedKeys(x) {
				if i > 0 {
					s += ws() + "," + ws()
				}
				i++
				s += sp.str(k) + ws() + ":" + ws() + w(x[k])
			}
			return s + ws() + "}"
		}
		panic("respell")
	}
	return w(v)
}

func sortedKeys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// feed hands frames to d and returns what came out, one packet at most for each frame.
func feed(d socketio.Decoder, text string, bins []string) (out []*socketio.Packet, errs []error) {
	add := func(t socketio.MessageType, b []byte) {
		if err := d.Add(t, b); err != nil {
			errs = append(errs, err)
		}
		for c := d.Decoded(); c.Len() > 0; {
			out = append(out, c.Recv())
		}
	}
	add(socketio.MessageTypeString, []byte(text))
	for _, b := range bins {
		add(socketio.MessageTypeBinary, []byte(b))
	}
	return
}

// checkDecoded compares a decoded packet with the logical one.
func checkDecoded(d socketio.Decoder, q *socketio.Packet, p sPkt, what string) {
	fail := func(f string, a ...interface{}) {
		rt.Fail("[parse] %s\n  packet %v\n  %s", what, p, fmt.Sprintf(f, a...))
	}
	if int(q.Type) != p.wireType() {
		fail("decoded type %v", q.Type)
	}
	if q.Namespace != p.wireNsp() {
		fail("decoded namespace %q", q.Namespace)
	}
	if (q.ID == nil) != (p.id == nil) || q.ID != nil && *q.ID != *p.id {
		if q.ID == nil {
			fail("decoded no id")
		}
		fail("decoded id %d", *q.ID)
	}
	if !p.event() && !p.ack() {
		var want interface{}
		if p.err != "" {
			json.Unmarshal([]byte(p.err), &want)
		}
		if !reflect.DeepEqual(q.Data, want) {
			fail("decoded data %#v", q.Data)
		}
		return
	}
	ev, data, bin, err := d.ParseData(q)
	if err != nil {
		fail("ParseData: %v", err)
	}
	if p.event() && ev != p.ev {
		fail("decoded event %q", ev)
	}
	var ts []reflect.Type
	for _, a := range p.args {
		ts = append(ts, a.t)
	}
	vs, err := d.UnmarshalArgs(ts, data, bin)
	if err != nil {
		fail("UnmarshalArgs(%s): %v", clip(string(data)), err)
	}
	if len(vs) != len(ts) {
		fail("%d values", len(vs))
	}
	for i, a := range p.args {
		got := vs[i].Interface()
		if a.bin {
			switch x := got.(type) {
			case *socketio.Bytes:
				got = string(x.Data)
			case socketio.Bytes:
				got = string(x.Data)
			case *sBlob:
				got = x.s
			case sBlob:
				got = x.s
			case time.Time:
				b, _ := x.MarshalBinary()
				got = string(b)
			}
			if got != a.want {
				fail("argument %d decoded as %x", i, got)
			}
			continue
		}
		if r, ok := got.(json.RawMessage); ok && jsonEqual(string(r), string(a.want.(json.RawMessage))) {
			continue
		}
		if !reflect.DeepEqual(got, a.want) {
			fail("argument %d decoded as %#v, want %#v (data %s)", i, got, a.want, clip(string(data)))
		}
	}
}

func u64(v uint64) *uint64 { return &v }

var (
	nspAlpha = []string{"/", "", "/a", "a", "/a/b", "/1", "/-", "/é", "/a%20b", "/%zz", "/a#b", "//h/x", "/[1]", "/ ", "/a\"b", "/0", "/a:b", "/;", "/x\x01", "/_placeholder"}
	idAlpha  = []*uint64{nil, u64(0), u64(1), u64(9), u64(10), u64(4294967296), u64(9007199254740993), u64(1<<63 - 1), u64(1 << 63), u64(1<<64 - 2), u64(1<<64 - 1)}
	evAlpha  = []string{"message", "a", "q\"uote", "back\\slash", "line\n", "u\u2028é", "sp ace", "[", "]", ",", "<b>&", "_placeholder", "\x7f\x01", "2", "日本", "\U0001f600", "{\"x\":1}", "\"", "\\\"", "/ns,", "a/b", " "}
	argAlpha = []sArg{
		jarg(nil), jarg(0), jarg(-1.5), jarg("x"), jarg("q\"\\,]}[{\u2028"), jarg(true), jarg([]interface{}{}), jarg(map[string]interface{}{}),
		jarg([]interface{}{1, []interface{}{"a", nil}}), jarg(map[string]interface{}{"a": map[string]interface{}{"b": []interface{}{nil, "c"}}, "num": 0}),
		jarg(`,{"_placeholder":true,"num":0}`), barg("", true), barg("\x00\xff", true), barg("abcde", false),
	}
	typedAlpha = []sArg{
		targ(int64(9007199254740993)), targ(uint64(1<<64 - 1)), targ(int64(-1 << 63)), targ(float32(0.1)), targ("s"), targ([]string{"a", "b\""}), targ(map[string]int{"k": 1}),
		targ(struct {
			A int    `json:"a"`
			B string `json:"b"`
		}{1, "é"}), targ([3]int{1, 2, 3}), targ([]byte("bytes")), targ(1e300), targ(uint8(255)), targ([]float64{}), targ(""), targ(strings.Repeat("long ", 2000)),
		obarg("own", false), obarg("", true), obarg("refuse", true), tmarg(time.Unix(1600000000, 123456789).UTC()), targ(sOwn{1, -2}), targ(&sOwn{3, 4}), targ([]sOwn{{5, 6}}), targ(json.RawMessage(`[1,{"a":null}]`)), targ(map[int]string{1: "x"}),
		targ([]*int{intp(1), nil}), targ(map[string]*sOwn{"k": {1, 2}}), targ([]map[string][]bool{{"a": {true}}, nil}),
	}
)

type parserRun struct {
	enc socketio.Encoder
	dec socketio.Decoder
	n   int
}

func newParserRun(p socketio.Parser) *parserRun {
	return &parserRun{enc: p.Encoder(), dec: p.Decoder()}
}

// wire splits and compares frames: header exactly, JSON by value.
func (p sPkt) sameFrame(got, want string) bool {
	if got == want {
		return true
	}
	i := strings.IndexAny(want, "[\"{")
	if !p.event() && !p.ack() && p.err != "" {
		i = len(want) - len(respell(p.err, compact))
	}
	// the header ends where the reference's data begins
	hdr := want
	if i >= 0 {
		hdr = want[:i]
	}
	if !strings.HasPrefix(got, hdr) {
		return false
	}
	return jsonEqual(got[len(hdr):], want[len(hdr):])
}

func jsonEqual(a, b string) bool {
	dec := func(s string) (interface{}, error) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		var v interface{}
		err := d.Decode(&v)
		if err == nil && strings.TrimSpace(s[d.InputOffset():]) != "" {
			err = fmt.Errorf("trailing data")
		}
		return v, err
	}
	x, e1 := dec(a)
	y, e2 := dec(b)
	return e1 == nil && e2 == nil && reflect.DeepEqual(x, y)
}

func (r *parserRun) roundTrip(p sPkt) {
	r.n++
	pkt := p.packet()
	var first string
	var firstB []string
	for i := 0; i < 2; i++ {
		t, bs, err := r.enc.Encode(pkt)
		if err != nil {
			rt.Fail("[enc] packet %v: Encode: %v", p, err)
		}
		var bins []string
		for _, b := range bs {
			bins = append(bins, string(b))
		}
		if i == 0 {
			first, firstB = string(t), bins
			continue
		}
		if string(t) != first || !reflect.DeepEqual(bins, firstB) {
			rt.Fail("[enc-again] packet %v encoded as %q with %d attachments, and again as %q with %d", p, first, len(firstB), t, len(bins))
		}
	}
	out, errs := feed(r.dec, first, firstB)
	if len(errs) > 0 || len(out) != 1 {
		rt.Fail("[roundtrip] packet %v encoded as %q + %d attachments decodes to %d packets, errors %v", p, first, len(firstB), len(out), errs)
	}
	checkDecoded(r.dec, out[0], p, fmt.Sprintf("encoded as %q", clip(first)))
}

func (r *parserRun) encodes(p sPkt) {
	r.n++
	t, bs, err := r.enc.Encode(p.packet())
	if err != nil {
		rt.Fail("[enc] packet %v: Encode: %v", p, err)
	}
	want, wb := p.frames(compact)
	if !p.compactNsp() {
		return
	}
	if !p.sameFrame(string(t), want) {
		rt.Fail("[wire] packet %v encoded as %q, the format says %q", p, t, want)
	}
	if len(bs) != len(wb) {
		rt.Fail("[wire] packet %v has %d attachments, encoded with %d", p, len(wb), len(bs))
	}
	for i := range wb {
		if string(bs[i]) != wb[i] {
			rt.Fail("[wire] packet %v: attachment %d is %x", p, i, bs[i])
		}
	}
}

func (p sPkt) compactNsp() bool { return !strings.ContainsAny(p.nsp, "[\"{") }

func (r *parserRun) decodes(p sPkt, sp spell, name string) {
	r.n++
	t, bs := p.frames(sp)
	out, errs := feed(r.dec, t, bs)
	if len(errs) > 0 || len(out) != 1 {
		rt.Fail("[spelling] %s spelling %q + %d attachments of packet %v decodes to %d packets, errors %v", name, t, len(bs), p, len(out), errs)
	}
	checkDecoded(r.dec, out[0], p, fmt.Sprintf("%s spelling %q", name, clip(t)))
}

// packets enumerates logical packets; part/parts share the work.
func packets(depth, part, parts int, f func(p sPkt)) {
	n := 0
	do := func(p sPkt) {
		n++
		if n%parts == part {
			f(p)
		}
	}
	// headers: every type x namespace x id with a few bodies
	for _, nsp := range nspAlpha {
		for _, id := range idAlpha {
			for _, a := range [][]sArg{nil, {jarg(1)}, {barg("B", true)}, {jarg("x"), barg("\x00", true), jarg(nil), barg("CC", true)}, {barg("D", true), jarg([]interface{}{1})}} {
				for _, t := range []int{2, 3} {
					do(sPkt{typ: t, nsp: nsp, id: id, ev: "ev", args: a})
				}
				if len(a) > 0 && a[0].bin || len(a) == 0 {
					for _, t := range []int{5, 6} {
						do(sPkt{typ: t, nsp: nsp, id: id, ev: "ev", args: a})
					}
				}
			}
			if id == nil {
				for t := 0; t < 2; t++ {
					do(sPkt{typ: t, nsp: nsp})
				}
				for _, d := range []string{`"Unauthorized"`, `{"a":[1,{"b":null}]}`, `["x"]`, `""`, `"q\"\\"`, `null`, `true`, `-1`} {
					if d != "null" {
						do(sPkt{typ: 4, nsp: nsp, err: d})
					}
				}
				do(sPkt{typ: 0, nsp: nsp, err: `{"token":"x"}`})
			}
		}
	}
	// event names
	for _, ev := range evAlpha {
		for _, a := range argAlpha {
			for _, b := range argAlpha {
				do(sPkt{typ: 2, nsp: "/n", id: u64(7), ev: ev, args: []sArg{a, b}})
			}
			do(sPkt{typ: 2, nsp: "/", ev: ev, args: []sArg{a}})
		}
		do(sPkt{typ: 2, nsp: "/", ev: ev})
		for _, nsp := range nspAlpha {
			do(sPkt{typ: 2, nsp: nsp, ev: ev, id: u64(12)})
		}
	}
	// argument lists
	var rec func(a []sArg)
	rec = func(a []sArg) {
		do(sPkt{typ: 2, nsp: "/", ev: "e", args: a})
		do(sPkt{typ: 3, nsp: "/x", id: u64(3), args: a})
		if len(a) == depth {
			return
		}
		for _, x := range argAlpha {
			rec(append(append([]sArg{}, a...), x))
		}
	}
	rec(nil)
	for _, a := range typedAlpha {
		for _, b := range append(append([]sArg{}, typedAlpha...), barg("b", true), barg("v", false)) {
			do(sPkt{typ: 2, nsp: "/", ev: "e", args: []sArg{a, b}})
			do(sPkt{typ: 3, nsp: "/", id: u64(1), args: []sArg{b, a}})
			do(sPkt{typ: 2, nsp: "/", id: u64(1), ev: "e", args: []sArg{b, barg("mid", true), a}})
		}
	}
	// many attachments
	for _, k := range []int{9, 10, 11, 12, 99, 100, 101, 300} {
		var a []sArg
		for i := 0; i < k; i++ {
			a = append(a, barg(fmt.Sprint("bin", i), true))
			if i%3 == 0 {
				a = append(a, jarg(i))
			}
		}
		do(sPkt{typ: 2, nsp: "/many", id: u64(5), ev: "e", args: a})
		do(sPkt{typ: 3, nsp: "/", id: u64(5), args: a})
	}
}

func init() {
	const P = 16
	for _, tier := range []struct {
		suffix string
		depth  int
		q, t   int
	}{{"", 3, 0, -1}, {"-deep", 4, -1, 0}} {
		tier := tier
		reg(&rt.Scenario{Name: "parser-roundtrip" + tier.suffix, Props: []string{"C16"}, Quick: tier.q, Thorough: tier.t, Cfg: rt.Config{MaxSteps: 400000000}, N: P,
			Describe: func(v int) string { return fmt.Sprintf("part %d", v) },
			Run: func(v int) {
				r := newParserRun(socketio.DefaultParser)
				packets(tier.depth, v, P, r.roundTrip)
				rt.Count("packets", r.n)
			}})
		reg(&rt.Scenario{Name: "parser-wire" + tier.suffix, Props: []string{"C17"}, Quick: tier.q, Thorough: tier.t, Cfg: rt.Config{MaxSteps: 400000000}, N: P,
			Describe: func(v int) string { return fmt.Sprintf("part %d", v) },
			Run: func(v int) {
				r := newParserRun(socketio.DefaultParser)
				packets(tier.depth, v, P, r.encodes)
				rt.Count("packets", r.n)
			}})
	}
	wss := []func(int) string{func(int) string { return "" }, func(int) string { return " " }, func(i int) string { return []string{"\n", "\t", "  ", "", "\r\n", "\n   "}[i%6] }}
	strs := []func(string) string{jsonStr, escStr, slashStr}
	reg(&rt.Scenario{Name: "parser-spelling", Props: []string{"C17"}, Cfg: rt.Config{MaxSteps: 400000000}, N: P * 2,
		Describe: func(v int) string { return fmt.Sprintf("part %d order %d", v/2, v%2) },
		Run: func(v int) {
			r := newParserRun(socketio.DefaultParser)
			k := 0
			packets(2, v/2, P, func(p sPkt) {
				for wi, ws := range wss {
					for si, st := range strs {
						for _, key := range []int{0, 1} {
							if key == 1 && len(p.bins()) == 0 || v%2 == 1 && len(p.bins()) < 2 {
								continue
							}
							k++
							sp := spell{ws: ws, str: st, order: v % 2, key: key, comma: k%2 == 0, root: k%3 == 0}
							if k%5 == 0 {
								sp.query = []string{"?", "?a=b&c=d", "?token=x[1]", "?x=%2C", "?/y"}[k/5%5]
							}
							if wi > 0 {
								sp.tail = ws(k)
							}
							r.decodes(p, sp, fmt.Sprintf("ws%d str%d key%d %+q", wi, si, key, sp.query))
						}
					}
				}
			})
			rt.Count("spellings", r.n)
		}})
}

var _ = time.Now

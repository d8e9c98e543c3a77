package harness

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/zyxar/socketio"

	"vmc/rt"
)

// ---- reference msgpack reader and writer

type mpBin string
type mpF32 float32
type mpExt struct {
	typ  int8
	data string
}
type mpMap []mpKV
type mpKV struct{ k, v interface{} }
type mpList []interface{}

// mpRead reads one object. Integers come as int64 (negative) or uint64.
func mpRead(b []byte) (v interface{}, o []byte, ok bool) {
	if len(b) == 0 {
		return
	}
	need := func(n int) bool { return len(b) >= n }
	be := func(i, n int) uint64 {
		var x uint64
		for _, c := range b[i : i+n] {
			x = x<<8 | uint64(c)
		}
		return x
	}
	raw := func(h int, n uint64) (string, []byte, bool) {
		if uint64(len(b)-h) < n {
			return "", nil, false
		}
		return string(b[h : h+int(n)]), b[h+int(n):], true
	}
	list := func(h int, n uint64) (interface{}, []byte, bool) {
		o := b[h:]
		l := mpList{}
		for i := uint64(0); i < n; i++ {
			x, p, ok := mpRead(o)
			if !ok {
				return nil, nil, false
			}
			l = append(l, x)
			o = p
		}
		return l, o, true
	}
	dict := func(h int, n uint64) (interface{}, []byte, bool) {
		l, o, ok := list(h, 2*n)
		if !ok {
			return nil, nil, false
		}
		m := mpMap{}
		for i, x := 0, l.(mpList); i < len(x); i += 2 {
			m = append(m, mpKV{x[i], x[i+1]})
		}
		return m, o, true
	}
	str := func(h int, n uint64) (interface{}, []byte, bool) {
		s, o, ok := raw(h, n)
		return s, o, ok
	}
	bin := func(h int, n uint64) (interface{}, []byte, bool) {
		s, o, ok := raw(h, n)
		return mpBin(s), o, ok
	}
	ext := func(h int, n uint64) (interface{}, []byte, bool) {
		s, o, ok := raw(h, n)
		return mpExt{int8(b[h-1]), s}, o, ok
	}
	c := b[0]
	switch {
	case c < 0x80:
		return uint64(c), b[1:], true
	case c < 0x90:
		return dict(1, uint64(c&15))
	case c < 0xa0:
		return list(1, uint64(c&15))
	case c < 0xc0:
		return str(1, uint64(c&31))
	case c >= 0xe0:
		return int64(int8(c)), b[1:], true
	}
	width := map[byte]int{0xc4: 1, 0xc5: 2, 0xc6: 4, 0xc7: 2, 0xc8: 3, 0xc9: 5, 0xca: 4, 0xcb: 8, 0xcc: 1, 0xcd: 2, 0xce: 4, 0xcf: 8, 0xd0: 1, 0xd1: 2, 0xd2: 4, 0xd3: 8,
		0xd4: 1, 0xd5: 1, 0xd6: 1, 0xd7: 1, 0xd8: 1, 0xd9: 1, 0xda: 2, 0xdb: 4, 0xdc: 2, 0xdd: 4, 0xde: 2, 0xdf: 4}
	w := width[c]
	if !need(1 + w) {
		return nil, nil, false
	}
	signed := func(x int64) interface{} {
		if x >= 0 {
			return uint64(x)
		}
		return x
	}
	switch c {
	case 0xc0:
		return nil, b[1:], true
	case 0xc1:
		return nil, nil, false
	case 0xc2, 0xc3:
		return c == 0xc3, b[1:], true
	case 0xc4, 0xc5, 0xc6:
		return bin(1+w, be(1, w))
	case 0xc7, 0xc8, 0xc9:
		return ext(1+w, be(1, w-1))
	case 0xca:
		return mpF32(math.Float32frombits(uint32(be(1, 4)))), b[5:], true
	case 0xcb:
		return math.Float64frombits(be(1, 8)), b[9:], true
	case 0xcc, 0xcd, 0xce, 0xcf:
		return be(1, w), b[1+w:], true
	case 0xd0:
		return signed(int64(int8(be(1, 1)))), b[2:], true
	case 0xd1:
		return signed(int64(int16(be(1, 2)))), b[3:], true
	case 0xd2:
		return signed(int64(int32(be(1, 4)))), b[5:], true
	case 0xd3:
		return signed(int64(be(1, 8))), b[9:], true
	case 0xd4, 0xd5, 0xd6, 0xd7, 0xd8:
		return ext(2, 1<<(c-0xd4))
	case 0xd9, 0xda, 0xdb:
		return str(1+w, be(1, w))
	case 0xdc, 0xdd:
		return list(1+w, be(1, w))
	}
	return dict(1+w, be(1, w))
}

// mpWrite writes v; wide chooses the widest spelling of everything.
func mpWrite(b []byte, v interface{}, wide bool) []byte {
	be := func(b []byte, x uint64, n int) []byte {
		var t [8]byte
		binary.BigEndian.PutUint64(t[:], x)
		return append(b, t[8-n:]...)
	}
	size := func(b []byte, fix byte, max int, c8, c16, c32 byte, n int) []byte {
		switch {
		case !wide && n <= max:
			return append(b, fix|byte(n))
		case !wide && c8 != 0 && n < 256:
			return append(b, c8, byte(n))
		case !wide && n < 65536:
			return be(append(b, c16), uint64(n), 2)
		}
		return be(append(b, c32), uint64(n), 4)
	}
	switch x := v.(type) {
	case nil:
		return append(b, 0xc0)
	case bool:
		if x {
			return append(b, 0xc3)
		}
		return append(b, 0xc2)
	case int:
		return mpWrite(b, int64(x), wide)
	case int64:
		switch {
		case wide && x >= 0: // as unsigned of 64 bits
			return be(append(b, 0xcf), uint64(x), 8)
		case wide:
			return be(append(b, 0xd3), uint64(x), 8)
		case x >= 0 && x < 128, x < 0 && x >= -32:
			return append(b, byte(x))
		case x >= 0 && x < 256:
			return append(b, 0xcc, byte(x))
		case x >= 0 && x < 65536:
			return be(append(b, 0xcd), uint64(x), 2)
		case x >= 0 && x < 1<<32:
			return be(append(b, 0xce), uint64(x), 4)
		case x >= 0:
			return be(append(b, 0xcf), uint64(x), 8)
		case x >= -128:
			return append(b, 0xd0, byte(x))
		case x >= -32768:
			return be(append(b, 0xd1), uint64(x), 2)
		case x >= -1<<31:
			return be(append(b, 0xd2), uint64(x), 4)
		}
		return be(append(b, 0xd3), uint64(x), 8)
	case uint64:
		if x <= math.MaxInt64 {
			return mpWrite(b, int64(x), wide)
		}
		return be(append(b, 0xcf), x, 8)
	case float64:
		return be(append(b, 0xcb), math.Float64bits(x), 8)
	case mpF32:
		return be(append(b, 0xca), uint64(math.Float32bits(float32(x))), 4)
	case string:
		return append(size(b, 0xa0, 31, 0xd9, 0xda, 0xdb, len(x)), x...)
	case mpBin:
		if wide {
			return append(be(append(b, 0xc6), uint64(len(x)), 4), x...)
		}
		return append(size(b, 0, -1, 0xc4, 0xc5, 0xc6, len(x)), x...)
	case mpExt:
		n := len(x.data)
		if f := map[int]byte{1: 0xd4, 2: 0xd5, 4: 0xd6, 8: 0xd7, 16: 0xd8}[n]; f != 0 && !wide {
			return append(append(b, f, byte(x.typ)), x.data...)
		}
		return append(append(size(b, 0, -1, 0xc7, 0xc8, 0xc9, n), byte(x.typ)), x.data...)
	case mpList:
		b = size(b, 0x90, 15, 0, 0xdc, 0xdd, len(x))
		for _, e := range x {
			b = mpWrite(b, e, wide)
		}
		return b
	case mpMap:
		b = size(b, 0x80, 15, 0, 0xde, 0xdf, len(x))
		for _, e := range x {
			b = mpWrite(mpWrite(b, e.k, wide), e.v, wide)
		}
		return b
	}
	panic(fmt.Sprintf("mpWrite %T", v))
}

// mpCanon sorts the members of maps.
func mpCanon(v interface{}) string {
	switch x := v.(type) {
	case mpList:
		var s []string
		for _, e := range x {
			s = append(s, mpCanon(e))
		}
		return "[" + strings.Join(s, " ") + "]"
	case mpMap:
		var s []string
		for _, e := range x {
			s = append(s, mpCanon(e.k)+":"+mpCanon(e.v))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, " ") + "}"
	case int64:
		return fmt.Sprintf("i%d", x)
	case int:
		return fmt.Sprintf("i%d", x)
	case uint64:
		return fmt.Sprintf("i%d", x)
	case mpF32:
		return fmt.Sprintf("f32:%x", math.Float32bits(float32(x)))
	case float64:
		return fmt.Sprintf("f64:%x", math.Float64bits(x))
	}
	return fmt.Sprintf("%T:%q", v, fmt.Sprint(v))
}

// mpOf is how a Go value is represented in msgpack.
func mpOf(v interface{}) interface{} {
	switch x := v.(type) {
	case nil:
		return nil
	case bool, string, float64:
		return x
	case float32:
		return mpF32(x)
	case []byte:
		return mpBin(x)
	case time.Time:
		var b [12]byte
		binary.BigEndian.PutUint64(b[:], uint64(x.Unix()))
		binary.BigEndian.PutUint32(b[8:], uint32(x.Nanosecond()))
		return mpExt{5, string(b[:])}
	case complex64:
		var b [8]byte
		binary.BigEndian.PutUint32(b[:], math.Float32bits(real(x)))
		binary.BigEndian.PutUint32(b[4:], math.Float32bits(imag(x)))
		return mpExt{3, string(b[:])}
	case complex128:
		var b [16]byte
		binary.BigEndian.PutUint64(b[:], math.Float64bits(real(x)))
		binary.BigEndian.PutUint64(b[8:], math.Float64bits(imag(x)))
		return mpExt{4, string(b[:])}
	}
	switch x := v.(type) {
	case *mUser:
		if x != nil {
			return mpOf(mUserV(*x))
		}
	case mUser:
		return mpOf(mUserV(x))
	case mUserV:
		return mpMap{{"foo", x.Foo}, {"n", mpOf(x.N)}}
	case *mUserX:
		if x != nil {
			return mpExt{mUserXType, string(x.x)}
		}
	case mUserX:
		return mpExt{mUserXType, string(x.x)}
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if r.Int() >= 0 {
			return uint64(r.Int())
		}
		return r.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return r.Uint()
	case reflect.Slice, reflect.Array:
		l := mpList{}
		for i := 0; i < r.Len(); i++ {
			l = append(l, mpOf(r.Index(i).Interface()))
		}
		return l
	case reflect.Map:
		m := mpMap{}
		for _, k := range r.MapKeys() {
			m = append(m, mpKV{k.String(), mpOf(r.MapIndex(k).Interface())})
		}
		return m
	case reflect.Ptr:
		if r.IsNil() {
			return nil
		}
		return mpOf(r.Elem().Interface())
	}
	panic(fmt.Sprintf("mpOf %T", v))
}

// ---- C19

// mArg is an argument and a parameter for it.
type mArg struct {
	v    interface{}
	t    reflect.Type
	want interface{}
}

type namedKey string

// types with an encoding of their own: mUser as msgp generates it, mUserV with value receivers, mUserX an extension
type mUser struct {
	Foo string `json:"foo"`
	N   int    `json:"n"`
}
type mUserV mUser
type mUserX struct{ x string }

const mUserXType = 77

func (u *mUser) MarshalMsg(b []byte) ([]byte, error) { return mpWrite(b, mpOf(*u), false), nil }
func (u *mUser) UnmarshalMsg(b []byte) ([]byte, error) {
	v, o, ok := mpRead(b)
	m, isMap := v.(mpMap)
	if !ok || !isMap {
		return b, errors.New("no mUser")
	}
	for _, kv := range m { // members that are missing stay as they are
		switch x := kv.v.(type) {
		case string:
			u.Foo = x
		case int64:
			u.N = int(x)
		case uint64:
			u.N = int(x)
		default:
			return b, errors.New("no member of mUser")
		}
	}
	return o, nil
}
func (u mUserV) MarshalMsg(b []byte) ([]byte, error)    { return mpWrite(b, mpOf(u), false), nil }
func (u *mUserV) UnmarshalMsg(b []byte) ([]byte, error) { return (*mUser)(u).UnmarshalMsg(b) }
func (u *mUserX) ExtensionType() int8                   { return mUserXType }
func (u *mUserX) Len() int                              { return len(u.x) }
func (u *mUserX) MarshalBinaryTo(b []byte) error        { copy(b, u.x); return nil }
func (u *mUserX) UnmarshalBinary(b []byte) error        { u.x = string(b); return nil }

var refTime = time.Unix(1600000000, 123456789)

func mp(v interface{}) mArg { return mArg{v, reflect.TypeOf(v), v} }
func mpAs(v, want interface{}) mArg {
	return mArg{v, reflect.TypeOf(want), want}
}
func mpAny(v, want interface{}) mArg { return mArg{v, tAny, want} }

var mArgs = []mArg{
	mp(true), mp(false), mp(0), mp(127), mp(128), mp(-1), mp(-32), mp(-33), mp(-129), mp(-32769), mp(math.MinInt64), mp(math.MaxInt64), mp(int8(-128)), mp(int16(-32768)), mp(int32(-1 << 31)), mp(int64(1 << 40)),
	mp(uint(1 << 63)), mp(uint8(255)), mp(uint16(65535)), mp(uint32(1<<32 - 1)), mp(uint64(1<<64 - 1)), mp(float32(0.1)), mp(0.1), mp(math.Inf(-1)), mp(complex64(complex(1, -2))), mp(complex(0.5, 3)),
	mp(""), mp("é\x00"), mp(strings.Repeat("s", 31)), mp(strings.Repeat("s", 32)), mp(strings.Repeat("s", 256)), mp(strings.Repeat("long", 20000)),
	mp([]byte{}), mp([]byte("\x00\xff\xc1")), mp([]byte(strings.Repeat("b", 300))), mp([]byte(strings.Repeat("b", 70000))),
	mpAs(int64(90*time.Second), 90*time.Second), mp(refTime),
	mp(map[string]interface{}{}), mp(map[string]interface{}{"a": "x", "b": map[string]interface{}{"c": nil}}), mp(map[string]string{"k": "v", "": "e"}),
	mpAs(map[string]string{"k": "v"}, map[namedKey]string{"k": "v"}), mpAs(map[string]interface{}{"x": 1, "y": 2}, map[string]int{"x": 1, "y": 2}), mpAs(map[string]interface{}{"x": []int{1}}, map[string][]int{"x": {1}}),
	mpAs(map[string]interface{}{"x": map[string]string{"k": "v"}}, map[namedKey]map[string]string{"x": {"k": "v"}}),
	mp([]string{"a", "", "c"}), mp([]int{}), mp([]int{1, -2, 300}), mp([3]int{1, 2, 3}), mp([][]string{{"a"}, {}, {"b", "c"}}), mp([2][]byte{[]byte("x"), []byte("y")}), mp([]interface{}{"a", true, nil}), mp([]time.Time{refTime}), mp([]float64{1, 2.5}), mp([]bool{true, false}),
	mpAs(make([]int, 20), make([]int, 20)), mpAs([]interface{}{1, 2}, []int{1, 2}), mpAs([]int{1, 2}, [2]int8{1, 2}),
	mpAny(nil, nil), mpAny("x", "x"), mpAny([]byte("bb"), []byte("bb")), mpAny(map[string]interface{}{"a": "b"}, map[string]interface{}{"a": "b"}), mpAny(true, true), mpAny(1.5, 1.5), mpAny(refTime, refTime), mpAny([]string{"a"}, []interface{}{"a"}),
	mpAny([]interface{}{[]interface{}{map[string]interface{}{"k": []interface{}{nil}}}}, []interface{}{[]interface{}{map[string]interface{}{"k": []interface{}{nil}}}}),
	mpAs(intp(7), 7), {intp(7), reflect.TypeOf(intp(0)), intp(7)}, {strp("p"), reflect.TypeOf(strp("")), strp("p")}, mpAny(strp("q"), "q"), mpAs(&[]int{1}, []int{1}), {"dd", reflect.TypeOf((*interface{})(nil)), ifp("dd")},
	{[]string{"a"}, reflect.TypeOf([]*string{}), []*string{strp("a")}}, mp(make([]string, 17)), mp(map[string]string{"1": "", "2": "", "3": "", "4": "", "5": "", "6": "", "7": "", "8": "", "9": "", "10": "", "11": "", "12": "", "13": "", "14": "", "15": "", "16": "", "17": ""}),
	mp(mUserV{"v", -1}), mp([]mUserV{{"v", 1}, {}}), mp(&mUser{"p", 300}), mpAs(&mUser{"p", 2}, mUser{"p", 2}), mp([]*mUser{{"a", 1}, {"b", 2}}), mpAs([]*mUser{{"a", 1}, {"b", 2}}, []mUser{{"a", 1}, {"b", 2}}), mpAs([2]*mUser{{"a", 1}, {"b", 2}}, [2]mUser{{"a", 1}, {"b", 2}}),
	mpAs([]interface{}{map[string]interface{}{"foo": "a", "n": 5}, map[string]interface{}{"foo": "b"}, map[string]interface{}{}}, []mUser{{"a", 5}, {"b", 0}, {}}), mpAs([]interface{}{map[string]interface{}{"foo": "a", "n": 5}, map[string]interface{}{"n": 1}}, [2]mUser{{"a", 5}, {"", 1}}), mpAs([]interface{}{mUserV{"a", 5}, map[string]interface{}{}}, []*mUser{{"a", 5}, {}}),
	mpAs(map[string]interface{}{"k": &mUser{"m", 1}}, map[string]*mUser{"k": {"m", 1}}), mpAny(mUserV{"a", -5}, map[string]interface{}{"foo": "a", "n": int64(-5)}),
	mp(&mUserX{"ext"}), mpAs(&mUserX{"0123456789abcdef"}, mUserX{"0123456789abcdef"}), mp([]*mUserX{{"\x00"}, {"four"}}),
	mp((*int)(nil)), mp([]*string{nil, strp("a"), nil}), mp([]*mUser{}), mpAs(map[string]interface{}{"x": nil}, map[string]*int{"x": nil}), mpAny((*int)(nil), nil), mpAny([]*int{nil}, []interface{}{nil}),
}

func intp(i int) *int                { return &i }
func strp(s string) *string          { return &s }
func ifp(v interface{}) *interface{} { return &v }
func sameVal(got, want interface{}) bool {
	if t, ok := want.(time.Time); ok {
		g, ok := got.(time.Time)
		return ok && g.Equal(t)
	}
	if ts, ok := want.([]time.Time); ok {
		g, ok := got.([]time.Time)
		if !ok || len(g) != len(ts) {
			return false
		}
		for i := range g {
			if !g[i].Equal(ts[i]) {
				return false
			}
		}
		return true
	}
	if w := reflect.ValueOf(want); w.Kind() == reflect.Ptr && w.IsNil() { // a nil pointer may arrive as one to a zero value
		g := reflect.ValueOf(got)
		return g.Type() == w.Type() && (g.IsNil() || g.Elem().IsZero())
	}
	return reflect.DeepEqual(got, want)
}

type mPkt struct {
	typ  int
	nsp  string
	id   *uint64
	ev   string
	args []mArg
	data interface{}
}

func (p mPkt) String() string {
	id := "-"
	if p.id != nil {
		id = fmt.Sprint(*p.id)
	}
	var a []string
	for _, x := range p.args {
		a = append(a, clip(fmt.Sprintf("%T(%v)", x.v, x.v)))
	}
	return fmt.Sprintf("type %d nsp %q id %s event %q args %v data %v", p.typ, p.nsp, id, p.ev, a, p.data)
}

func (p mPkt) isEvent() bool { return p.typ == 2 || p.typ == 5 }
func (p mPkt) isAck() bool   { return p.typ == 3 || p.typ == 6 }

func (p mPkt) list() mpList {
	l := mpList{}
	if p.isEvent() {
		l = append(l, p.ev)
	}
	for _, a := range p.args {
		l = append(l, mpOf(a.v))
	}
	return l
}

// fields are the members of the packet's map.
func (p mPkt) fields() mpMap {
	m := mpMap{{"type", uint64(p.typ)}, {"nsp", p.nsp}, {"data", p.list()}}
	if p.id != nil {
		m = append(m, mpKV{"id", *p.id})
	}
	return m
}

// mcheck compares a decoded packet with p.
func mcheck(d socketio.Decoder, q *socketio.Packet, p mPkt, what string) {
	fail := func(f string, a ...interface{}) {
		rt.Fail("[mp] %s\n  packet %v\n  %s", what, p, fmt.Sprintf(f, a...))
	}
	if int(q.Type) != p.typ {
		fail("decoded type %d", q.Type)
	}
	if q.Namespace != p.nsp {
		fail("decoded namespace %q", q.Namespace)
	}
	if (q.ID == nil) != (p.id == nil) || q.ID != nil && *q.ID != *p.id {
		fail("decoded id %v", q.ID)
	}
	if !p.isEvent() && !p.isAck() {
		if !reflect.DeepEqual(q.Data, p.data) {
			fail("decoded data %#v", q.Data)
		}
		return
	}
	ev, data, bin, err := d.ParseData(q)
	if err != nil {
		fail("ParseData: %v", err)
	}
	if ev != p.ev && p.isEvent() {
		fail("decoded event %q", ev)
	}
	var ts []reflect.Type
	for _, a := range p.args {
		ts = append(ts, a.t)
	}
	vs, err := d.UnmarshalArgs(ts, data, bin)
	if err != nil {
		fail("UnmarshalArgs: %v", err)
	}
	for i, a := range p.args {
		if got := vs[i].Interface(); !sameVal(got, a.want) {
			fail("argument %d decoded as %s", i, clip(fmt.Sprintf("%T(%v)", got, got)))
		}
	}
}

func mfeed(d socketio.Decoder, frames []dframe) (out []*socketio.Packet, errs []error) {
	for _, f := range frames {
		t := socketio.MessageTypeString
		if f.bin {
			t = socketio.MessageTypeBinary
		}
		if err := d.Add(t, []byte(f.s)); err != nil {
			errs = append(errs, err)
		}
		for c := d.Decoded(); c.Len() > 0; {
			out = append(out, c.Recv())
		}
	}
	return
}

// mround encodes p, checks the frames with the reference reader, decodes them and compares.
func mround(enc socketio.Encoder, d socketio.Decoder, p mPkt) {
	pkt := &socketio.Packet{Type: socketio.PacketType(p.typ), Namespace: p.nsp, Data: p.data}
	if p.id != nil {
		pkt.ID = u64(*p.id)
	}
	list := p.isEvent() || p.isAck()
	if list {
		l := []interface{}{}
		if p.isEvent() {
			l = append(l, p.ev)
		}
		for _, a := range p.args {
			l = append(l, a.v)
		}
		pkt.Data = l
	}
	text, bins, err := enc.Encode(pkt)
	if err != nil {
		rt.Fail("[mpenc] packet %v: Encode: %v", p, err)
	}
	var frames []dframe
	if text != nil {
		frames = append(frames, dframe{s: string(text)})
	}
	for _, b := range bins {
		frames = append(frames, dframe{true, string(b)})
	}
	if len(frames) != 1 {
		rt.Fail("[mpframes] packet %v encoded to %d frames", p, len(frames))
	}
	f := frames[0]
	if list {
		v, rest, ok := mpRead([]byte(f.s))
		m, isMap := v.(mpMap)
		if !f.bin || !ok || len(rest) > 0 || !isMap {
			rt.Fail("[mpwire] packet %v encoded to %q, no msgpack map", p, clip(f.s))
		}
		want := p.fields()
		var got mpMap
		for _, kv := range m {
			if kv.k == "id" && kv.v == nil && p.id == nil {
				continue
			}
			got = append(got, kv)
		}
		if mpCanon(got) != mpCanon(want) {
			rt.Fail("[mpwire] packet %v encoded to %s, should be %s", p, clip(mpCanon(got)), clip(mpCanon(want)))
		}
	} else {
		if f.bin {
			rt.Fail("[mpwire] packet %v encoded to a binary frame", p)
		}
		var m map[string]interface{}
		if err := json.Unmarshal([]byte(f.s), &m); err != nil || m["type"] != float64(p.typ) || m["nsp"] != p.nsp || !reflect.DeepEqual(m["data"], p.data) || (m["id"] != nil) != (p.id != nil) {
			rt.Fail("[mpwire] packet %v encoded to %q", p, clip(f.s))
		}
	}
	out, errs := mfeed(d, frames)
	if len(errs) > 0 || len(out) != 1 {
		rt.Fail("[mproundtrip] packet %v encoded to %q decodes to %d packets, errors %v", p, clip(f.s), len(out), errs)
	}
	mcheck(d, out[0], p, fmt.Sprintf("encoded to %q", clip(f.s)))
}

func mpackets(depth, part, parts int, f func(p mPkt)) {
	n := 0
	do := func(p mPkt) {
		n++
		if n%parts == part {
			f(p)
		}
	}
	for _, nsp := range []string{"/", "/a", "/a/b?c=,d", "/é", "/" + strings.Repeat("n", 40), "/" + strings.Repeat("n", 300)} {
		for _, id := range idAlpha {
			for _, a := range [][]mArg{nil, {mp("x")}, {mp([]byte("b")), mp(1)}} {
				for _, t := range []int{2, 3, 5, 6} {
					do(mPkt{typ: t, nsp: nsp, id: id, ev: "ev", args: a})
				}
			}
		}
		for t := 0; t < 2; t++ {
			do(mPkt{typ: t, nsp: nsp})
		}
		for _, d := range []interface{}{"no", map[string]interface{}{"m": "x", "l": []interface{}{nil, 1.5}}, []interface{}{"a"}, true, 3.0} {
			do(mPkt{typ: 4, nsp: nsp, data: d})
		}
	}
	for _, ev := range append(append([]string{}, evAlpha...), strings.Repeat("e", 31), strings.Repeat("e", 32), strings.Repeat("e", 256), strings.Repeat("e", 65536)) {
		for _, a := range [][]mArg{nil, {mp(1)}} {
			do(mPkt{typ: 2, nsp: "/", ev: ev, args: a})
			do(mPkt{typ: 2, nsp: "/", id: u64(9), ev: ev, args: a})
		}
	}
	var rec func(a []mArg)
	rec = func(a []mArg) {
		do(mPkt{typ: 2, nsp: "/", ev: "e", args: a})
		do(mPkt{typ: 3, nsp: "/x", id: u64(300), args: a})
		if len(a) == depth {
			return
		}
		for _, x := range mArgs {
			rec(append(a[:len(a):len(a)], x))
		}
	}
	rec(nil)
	for _, k := range []int{14, 15, 16, 17, 300} {
		var a []mArg
		for i := 0; i < k; i++ {
			a = append(a, mp(i))
		}
		do(mPkt{typ: 2, nsp: "/", id: u64(1), ev: "e", args: a})
		do(mPkt{typ: 3, nsp: "/", id: u64(1), args: a})
	}
}

// mspell decodes p in the spellings another encoder may choose.
func mspell(d socketio.Decoder, p mPkt) {
	f := p.fields()
	for v := 0; v < 12; v++ {
		m := append(mpMap{}, f...)
		switch v / 2 {
		case 1: // reversed
			for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
				m[i], m[j] = m[j], m[i]
			}
		case 2: // rotated
			m = append(m[1:], m[0])
		case 3:
			m = append(m[2:], m[:2]...)
		case 4:
			m = append(m, mpKV{"options", mpMap{{"compress", true}, {"l", mpList{nil, 1}}}})
		case 5:
			m = append(mpMap{{"query", nil}}, m...)
		}
		if p.id == nil && v%3 == 0 {
			m = append(m, mpKV{"id", nil})
		}
		b := mpWrite(nil, m, v%2 == 1)
		out, errs := mfeed(d, []dframe{{true, string(b)}})
		if len(errs) > 0 || len(out) != 1 {
			rt.Fail("[mpspelling] packet %v spelt %x decodes to %d packets, errors %v", p, b, len(out), errs)
		}
		mcheck(d, out[0], p, fmt.Sprintf("spelt %s", clip(fmt.Sprintf("%x", b))))
	}
}

var mTypes = []reflect.Type{tAny, reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf([]byte{}), reflect.TypeOf([]string{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf(map[string]string{}),
	reflect.TypeOf(time.Time{}), reflect.TypeOf(complex64(0)), reflect.TypeOf([2]int{}), reflect.TypeOf(1.5), reflect.TypeOf(strp("")), reflect.TypeOf([][]int{}), reflect.TypeOf(map[namedKey][]string{}), reflect.TypeOf(struct{ A int }{}), reflect.TypeOf(true), reflect.TypeOf(&socketio.Bytes{}), reflect.TypeOf(uint8(0)), reflect.TypeOf(time.Second)}

// mpExpect is what the reference makes of a binary frame.
func mpExpect(b []byte) (m mpMap, v verdict) {
	x, rest, ok := mpRead(b)
	if !ok {
		return nil, bad
	}
	m, ok = x.(mpMap)
	if !ok {
		return nil, bad
	}
	if len(rest) > 0 {
		return m, neutral
	}
	seen := map[string]bool{}
	for _, kv := range m {
		k, ok := kv.k.(string)
		if !ok || seen[k] {
			return m, neutral
		}
		seen[k] = true
	}
	if !seen["type"] || !seen["nsp"] || !seen["data"] {
		return m, neutral
	}
	return m, good
}

// mjudge feeds one binary frame, whatever it contains, and judges what comes out.
func mjudge(d socketio.Decoder, s string, types []reflect.Type) {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	out, errs := mfeed(d, []dframe{{true, s}})
	type res struct {
		ev   string
		vs   []reflect.Value
		err  error
		data []byte
	}
	var r res
	if len(out) == 1 && out[0].Type != 0 && out[0].Type != 1 && out[0].Type != 4 {
		var bin [][]byte
		r.ev, r.data, bin, r.err = d.ParseData(out[0])
		if r.err == nil {
			for _, t := range types {
				d.UnmarshalArgs([]reflect.Type{t}, r.data, bin)
				d.UnmarshalArgs([]reflect.Type{tAny, t}, r.data, bin)
			}
		}
	}
	runtime.ReadMemStats(&m1)
	if a := m1.TotalAlloc - m0.TotalAlloc; a > 1<<20+uint64(1000*len(s)) {
		rt.Fail("[mpalloc] frame %x makes the decoder allocate %d bytes", s, a)
	}
	if len(out) > 1 || len(out) == 1 && len(errs) > 0 {
		rt.Fail("[mpboth] frame %x gives %d packets and errors %v", s, len(out), errs)
	}
	m, v := mpExpect([]byte(s))
	switch v {
	case bad:
		if len(errs) == 0 {
			rt.Fail("[mpaccepted] malformed frame %x gives packet %v", s, out[0])
		}
	case good:
		p := mPkt{}
		badField := false
		var data interface{}
		for _, kv := range m {
			switch kv.k {
			case "type":
				n, ok := kv.v.(uint64)
				badField = badField || !ok || n > 255
				p.typ = int(n)
			case "nsp":
				var ok bool
				p.nsp, ok = kv.v.(string)
				badField = badField || !ok
			case "id":
				if n, ok := kv.v.(uint64); ok {
					p.id = &n
				} else if kv.v != nil {
					badField = true
				}
			case "data":
				data = kv.v
			}
		}
		if badField {
			if len(errs) == 0 {
				rt.Fail("[mpaccepted] frame %x of a packet with a member of a wrong type gives packet %v", s, out[0])
			}
			return
		}
		if len(errs) > 0 {
			if p.typ > 6 {
				return
			}
			rt.Fail("[mprefused] frame %x: %v", s, errs)
		}
		q := out[0]
		nsp := p.nsp
		if nsp == "" {
			nsp = "/"
		}
		if int(q.Type) != p.typ || q.Namespace != nsp || (q.ID == nil) != (p.id == nil) || q.ID != nil && *q.ID != *p.id {
			rt.Fail("[mpwrong] frame %x of %v decoded to %+v", s, p, q)
		}
		if !p.isEvent() && !p.isAck() {
			return
		}
		l, isList := data.(mpList)
		okData := isList && (!p.isEvent() || len(l) > 0)
		if okData && p.isEvent() {
			_, okData = l[0].(string)
		}
		if !okData {
			if r.err == nil {
				rt.Fail("[mpaccepted] frame %x whose data is no list of arguments gives event %q", s, r.ev)
			}
			return
		}
		if r.err != nil {
			rt.Fail("[mprefused] frame %x: %v", s, r.err)
		}
		if p.isEvent() {
			if r.ev != l[0] {
				rt.Fail("[mpwrong] frame %x: event %q", s, r.ev)
			}
			l = l[1:]
		}
		got, rest, ok := mpRead(r.data)
		if !ok || len(rest) > 0 || mpCanon(got) != mpCanon(l) {
			rt.Fail("[mpwrong] frame %x: arguments %s, should be %s", s, mpCanon(got), mpCanon(l))
		}
	}
}

func init() {
	const P = 16
	for _, tier := range []struct {
		suffix string
		depth  int
		q, t   int
	}{{"", 2, 0, -1}, {"-deep", 3, -1, 0}} {
		tier := tier
		reg(&rt.Scenario{Name: "msgpack-roundtrip" + tier.suffix, Props: []string{"C19"}, Quick: tier.q, Thorough: tier.t, Cfg: rt.Config{MaxSteps: 400000000}, N: P,
			Describe: func(v int) string { return fmt.Sprintf("part %d", v) },
			Run: func(v int) {
				e, d := socketio.MsgpackParser.Encoder(), socketio.MsgpackParser.Decoder()
				n := 0
				mpackets(tier.depth, v, P, func(p mPkt) { n++; mround(e, d, p) })
				rt.Count("packets", n)
			}})
	}
	reg(&rt.Scenario{Name: "msgpack-spelling", Props: []string{"C19"}, Cfg: rt.Config{MaxSteps: 400000000}, N: P,
		Describe: func(v int) string { return fmt.Sprintf("part %d", v) },
		Run: func(v int) {
			d := socketio.MsgpackParser.Decoder()
			n := 0
			mpackets(1, v, P, func(p mPkt) {
				for _, a := range p.args {
					if strings.Contains(mpCanon(mpOf(a.v)), "mpExt") {
						return
					}
				}
				if p.isEvent() || p.isAck() {
					n++
					mspell(d, p)
				}
			})
			rt.Count("packets", n)
		}})
	base := []mPkt{
		{typ: 2, nsp: "/ns", id: u64(300), ev: "ev", args: []mArg{mp("str"), mp([]byte("bin")), mp(-1)}},
		{typ: 3, nsp: "/", id: u64(1), args: []mArg{mp(map[string]interface{}{"a": []interface{}{int64(1), nil}}), mp([]string{"x", "y"})}},
		{typ: 2, nsp: "/", ev: "e", args: []mArg{mp(1.5), mp(float32(2)), mp(true)}},
		{typ: 3, nsp: "/", id: u64(1), args: nil},
		{typ: 2, nsp: "", ev: "x", args: []mArg{mp([2]int{1, 2}), mp([][]int{{1}, {2, 3}})}},
		{typ: 5, nsp: "/a", ev: "t", args: []mArg{mp(map[string]string{"k": "v"}), mp(uint64(1 << 63))}},
	}
	reg(&rt.Scenario{Name: "msgpack-corrupt", Props: []string{"C18", "C19"}, Cfg: rt.Config{MaxSteps: 2000000000}, N: len(base) * 2,
		Describe: func(v int) string {
			return fmt.Sprintf("every truncation, one-byte change, insertion, removal and oversized length of %v, wide %d", base[v/2], v%2)
		},
		Run: func(v int) {
			d := socketio.MsgpackParser.Decoder()
			w := string(mpWrite(nil, base[v/2].fields(), v%2 == 1))
			n := 0
			try := func(s string) {
				n++
				k := n % len(mTypes)
				mjudge(d, s, []reflect.Type{mTypes[k], mTypes[(k+7)%len(mTypes)]})
				if n%8 == 0 {
					mround(socketio.MsgpackParser.Encoder(), d, base[n/8%3])
				}
			}
			for i := 0; i <= len(w); i++ {
				try(w[:i])
				for c := 0; c < 256; c++ {
					if i < len(w) {
						try(w[:i] + string([]byte{byte(c)}) + w[i+1:])
					}
					if c%8 == 0 || c > 0xbf && c < 0xe0 {
						try(w[:i] + string([]byte{byte(c)}) + w[i:])
					}
				}
				if i < len(w) {
					try(w[:i] + w[i+1:])
				}
				for _, h := range []string{"\xdd\xff\xff\xff\xff", "\xdf\xff\xff\xff\xff", "\xdb\xff\xff\xff\xff", "\xc6\xff\xff\xff\xf0", "\xc9\xff\xff\xff\xff\x05", "\xdd\x7f\xff\xff\xff", "\xdf\x80\x00\x00\x00", "\xdc\xff\xff", "\xde\xff\xff"} {
					try(w[:i] + h + w[i:])
					if i < len(w) {
						try(w[:i] + h + w[i+1:])
					}
				}
			}
			rt.Count("frames", n)
		}})
	reg(&rt.Scenario{Name: "msgpack-deep-nesting", Props: []string{"C18", "C19"}, Cfg: rt.Config{MaxSteps: 2000000000}, N: 6,
		Describe: func(v int) string { return fmt.Sprintf("frames nested ten million deep, kind %d", v) },
		Run: func(v int) {
			const N = 10000000
			d := socketio.MsgpackParser.Decoder()
			head := string(mpWrite(nil, mpMap{{"type", 2}, {"nsp", "/"}, {"data", mpList{"e"}}}, false))
			head = head[:len(head)-3] // the list follows
			var s string
			switch v {
			case 0:
				s = head + "\x92\xa1e" + strings.Repeat("\x91", N) + "\xc0"
			case 1:
				s = head + "\x92\xa1e" + strings.Repeat("\x81\xa1k", N/3) + "\xc0"
			case 2:
				s = strings.Repeat("\x91", N)
			case 3:
				s = "\x81" + strings.Repeat("\x91", N)
			case 4:
				s = "\x81\xa1x" + strings.Repeat("\x91", N)
			case 5:
				s = head + strings.Repeat("\x91", N)
			}
			mfeed(d, []dframe{{true, s}})
			mround(socketio.MsgpackParser.Encoder(), d, base[0])
			var ok string
			switch v { // nesting that is not excessive is fine
			case 0:
				ok = head + "\x92\xa1e" + strings.Repeat("\x91", 500) + "\xc0"
			case 1:
				ok = head + "\x92\xa1e" + strings.Repeat("\x81\xa1k", 500) + "\xc0"
			default:
				return
			}
			out, errs := mfeed(d, []dframe{{true, ok}})
			if len(out) != 1 {
				rt.Fail("[mpdeep] arguments nested 500 deep are refused: %v", errs)
			}
			_, data, bin, err := d.ParseData(out[0])
			if err != nil {
				rt.Fail("[mpdeep] arguments nested 500 deep are refused: %v", err)
			}
			if _, err = d.UnmarshalArgs([]reflect.Type{tAny}, data, bin); err != nil {
				rt.Fail("[mpdeep] arguments nested 500 deep are refused: %v", err)
			}
		}})
	// text frames
	texts := []struct {
		s  string
		ok bool
	}{{`{"type":0,"nsp":"/a"}`, true}, {`{"type":1,"nsp":"/"}`, true}, {`{"type":4,"nsp":"/a","data":"no"}`, true}, {` {"nsp":"\/a","type":0} `, true}, {`{"type":0`, false}, {``, false}, {`x`, false}, {`{"type":"0","nsp":"/"}`, false}, {`{"type":-1}`, false}, {`{"type":256,"nsp":"/"}`, false}, {`[]`, false}, {`{"type":0,"nsp":5}`, false}, {`"a"`, false}}
	bins := []struct {
		s  string
		ok bool
	}{}
	for _, p := range base[:3] {
		w := string(mpWrite(nil, p.fields(), false))
		bins = append(bins, struct {
			s  string
			ok bool
		}{w, true}, struct {
			s  string
			ok bool
		}{w[:len(w)-1], false}, struct {
			s  string
			ok bool
		}{w[:len(w)/2], false})
	}
	bins = append(bins, struct {
		s  string
		ok bool
	}{"", false}, struct {
		s  string
		ok bool
	}{"\xc1", false})
	nt := len(texts) + len(bins)
	reg(&rt.Scenario{Name: "msgpack-sequences", Props: []string{"C18"}, Cfg: rt.Config{MaxSteps: 2000000000}, N: nt,
		Describe: func(v int) string {
			return fmt.Sprintf("all sequences of up to 4 frames of %d beginning with frame %d", nt, v)
		},
		Run: func(v int) {
			n := 0
			var rec func(seq []int)
			rec = func(seq []int) {
				d := socketio.MsgpackParser.Decoder()
				for _, i := range seq {
					var f dframe
					ok := false
					if i < len(texts) {
						f, ok = dframe{s: texts[i].s}, texts[i].ok
					} else {
						f, ok = dframe{true, bins[i-len(texts)].s}, bins[i-len(texts)].ok
					}
					out, errs := mfeed(d, []dframe{f})
					if ok && (len(out) != 1 || len(errs) > 0) || !ok && (len(out) > 0 || len(errs) != 1) {
						rt.Fail("[mpseq] sequence %v frame %v: %d packets, errors %v", seq, f, len(out), errs)
					}
				}
				mround(socketio.MsgpackParser.Encoder(), d, base[len(seq)%3])
				n++
				if len(seq) == 4 {
					return
				}
				for i := 0; i < nt; i++ {
					rec(append(seq[:len(seq):len(seq)], i))
				}
			}
			rec([]int{v})
			rt.Count("sequences", n)
		}})
}

func init() {
	reg(&rt.Scenario{Name: "msgpack-connection", Props: []string{"C19"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: 16,
		Describe: func(v int) string {
			return fmt.Sprintf("%s: emitting and receiving all lists of up to 2 arguments, part %d", sideName(v%2+2), v/2)
		},
		Run: func(v int) {
			b := &bRun{}
			b.setup(v%2+2, []string{"/", "/a"}[v/2%2])
			n := 0
			try := func(as ...mArg) {
				n++
				if n%8 != v/2 {
					return
				}
				p := b.s.Peers[n%len(b.s.Peers)]
				what := mPkt{typ: 2, nsp: b.nsp, ev: "e", args: as}
				var vs []interface{}
				var want []string
				var in []reflect.Type
				for _, a := range as {
					vs = append(vs, a.v)
					want = append(want, canon(mpOf(a.v)))
					in = append(in, a.t)
				}
				if err := b.socks[p.Sid].Emit("e", vs...); err != nil {
					rt.Fail("[mpconn] %s: emitting %v: %v", b.s.Name, what, err)
				}
				w := SGot{Typ: 2, Nsp: b.nsp, Ev: "e", Args: want}.String()
				if g := p.Take(); gots(g) != w {
					rt.Fail("[mpconn] %s: emitting %v sent %s, should be %s", b.s.Name, what, clip(gots(g)), clip(w))
				}
				for _, a := range as { // the reference writer has no extensions
					if strings.Contains(fmt.Sprintf("%T", a.v), "ime") || strings.Contains(fmt.Sprintf("%T", a.v), "complex") {
						return
					}
				}
				b.calls, b.errs = nil, nil
				b.s.Ns(b.nsp).OnEvent("e", reflect.MakeFunc(reflect.FuncOf(in, nil, false), func(args []reflect.Value) []reflect.Value {
					b.calls = append(b.calls, args)
					return nil
				}).Interface())
				p.Frames(dframe{true, string(mpWrite(nil, what.fields(), n%2 == 0))})
				rt.Quiesce()
				if len(b.calls) != 1 || len(b.errs) > 0 || len(b.s.Errs()) > 0 {
					rt.Fail("[mpconn] %s: event %v runs its handler %d times, errors %v %v", b.s.Name, what, len(b.calls), b.errs, b.s.Errs())
				}
				for i, a := range as {
					if got := b.calls[0][i].Interface(); !sameVal(got, a.want) {
						rt.Fail("[mpconn] %s: event %v: argument %d is %s", b.s.Name, what, i, clip(fmt.Sprintf("%T(%v)", got, got)))
					}
				}
			}
			try()
			for _, a := range mArgs {
				if strings.Contains(fmt.Sprint(a.v), refTime.String()) {
					continue
				}
				try(a)
				for _, c := range mArgs {
					try(a, c)
				}
			}
			if e := b.s.Errs(); len(e) > 0 {
				rt.Fail("[mpconn] %s: errors %v", b.s.Name, e)
			}
			rt.Count("packets", n/8)
		}})
}

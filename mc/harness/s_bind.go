package harness

import (
	enc "encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zyxar/socketio"

	"vmc/rt"
)

// ---- C20: event arguments are bound to handler parameters

type bStruct struct {
	A int    `json:"a"`
	B string `json:"b"`
}

// bType is a parameter type with arguments that fit and that do not.
type bType struct {
	t    reflect.Type
	kind int      // 0 JSON, 1 binary, 2 socket
	good []string // JSON, or "bin:..."
	bad  []string
	mp   bool
}

var bTypes = []bType{
	{reflect.TypeOf(""), 0, []string{`"s\"x"`, `""`}, []string{`5`, `{}`}, true},
	{reflect.TypeOf(0), 0, []string{`42`, `-7`}, []string{`"x"`, `1.5`}, true},
	{tSocket, 2, nil, nil, true},
	{reflect.TypeOf(socketio.Bytes{}), 1, []string{"bin:v", "bin:"}, nil, false},
	{reflect.TypeOf(&socketio.Bytes{}), 1, []string{"bin:p", "bin:\x00\xff"}, nil, false},
	{tAny, 0, []string{`{"any":["x",true]}`, `"i"`}, nil, true},
	{reflect.TypeOf([]int{}), 0, []string{`[1,2,3]`, `[]`}, []string{`["a"]`, `{}`}, true},
	{reflect.TypeOf(strp("")), 0, []string{`"ptr"`, `"p2"`}, []string{`7`}, true},
	{reflect.TypeOf(bStruct{}), 0, []string{`{"a":1,"b":"x"}`, `{"b":"only"}`}, []string{`{"a":"x"}`, `[]`}, false},
	{reflect.TypeOf(map[string]int{}), 0, []string{`{"k":1}`, `{}`}, []string{`[1]`, `{"k":"v"}`}, true},
	{reflect.TypeOf(1.5), 0, []string{`2.5`, `-0.25`}, []string{`"f"`}, true},
	{reflect.TypeOf(true), 0, []string{`true`, `true`}, []string{`1`}, true},
	{reflect.TypeOf(intp(0)), 0, []string{`9`, `10`}, []string{`true`}, true},
	{reflect.TypeOf(&bStruct{}), 0, []string{`{"a":5}`, `{"a":6,"b":"q"}`}, []string{`3`}, false},
	{reflect.TypeOf([]byte{}), 0, []string{`"aGk="`, `""`}, []string{`{}`}, false},
	{reflect.TypeOf(sBlob{}), 1, []string{"bin:blob", "bin:"}, []string{"bin:refused"}, false},
	{reflect.TypeOf(&sOwn{}), 0, []string{`{"_":[1,"2"]}`, `{"_":[-7,"8"],"x":1}`}, []string{`{"_":[1]}`, `"x"`, `{"_":["1","2"]}`}, false},
	{reflect.TypeOf(mUser{}), 0, []string{`{"foo":"x","n":5}`, `{"n":-1}`}, []string{`{"foo":{}}`, `[]`, `"x"`}, true},
	{reflect.TypeOf([]*mUser{}), 0, []string{`[{"foo":"x"},{"n":300}]`, `[]`}, []string{`[{"foo":{}}]`, `{}`, `[5]`}, true},
	{reflect.TypeOf(uint8(0)), 0, []string{`255`, `0`}, []string{`256`, `-1`, `"x"`}, true},
	{reflect.TypeOf([2]int16{}), 0, []string{`[1,-300]`, `[32767,0]`}, []string{`[1,32768]`, `"x"`}, true},
	{reflect.TypeOf(map[namedKey][]string{}), 0, []string{`{"k":["x",""],"l":[]}`, `{}`}, []string{`{"k":"x"}`, `{"k":[1]}`, `[]`}, true},
}

var tSocket = reflect.TypeOf((*socketio.Socket)(nil)).Elem()

// bWant is what the parameter of type t must be for argument a ("" = missing).
func bWant(t bType, a string) (interface{}, bool) {
	typ := t.t
	ptr := typ.Kind() == reflect.Ptr
	if ptr {
		typ = typ.Elem()
	}
	v := reflect.New(typ)
	switch {
	case a == "":
	case t.kind == 1:
		if v.Interface().(enc.BinaryUnmarshaler).UnmarshalBinary([]byte(a[4:])) != nil {
			return nil, false
		}
	default:
		if json.Unmarshal([]byte(a), v.Interface()) != nil {
			return nil, false
		}
	}
	return v.Elem().Interface(), true
}

// bSame compares a parameter with what it must be; missing pointers may be nil.
func bSame(t bType, got reflect.Value, want interface{}, missing bool) bool {
	if t.t.Kind() == reflect.Ptr {
		if got.IsNil() {
			return missing
		}
		got = got.Elem()
	}
	g := got.Interface()
	if b, ok := g.(socketio.Bytes); ok {
		return string(b.Data) == string(want.(socketio.Bytes).Data)
	}
	if b, ok := g.([]byte); ok {
		return string(b) == string(want.([]byte))
	}
	if missing && g == nil && want == nil {
		return true
	}
	if t.t.Kind() == reflect.Slice && got.Len() == 0 && reflect.ValueOf(want).Len() == 0 {
		return true
	}
	return reflect.DeepEqual(g, want)
}

// bRun is a side with a handler that records.
type bRun struct {
	s     *SSide
	nsp   string
	calls [][]reflect.Value
	errs  []string
	n     int
	ack   bool        // the handler is an acknowledgement callback
	h     interface{} // the handler
	socks map[string]socketio.Socket
}

func (b *bRun) handler(ts []bType, variadic bool) interface{} {
	var in []reflect.Type
	for _, t := range ts {
		in = append(in, t.t)
	}
	return reflect.MakeFunc(reflect.FuncOf(in, nil, variadic), func(args []reflect.Value) []reflect.Value {
		b.calls = append(b.calls, args)
		rt.Note("handler")
		return nil
	}).Interface()
}

func sig(ts []bType) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.t.String())
	}
	return "func(" + strings.Join(s, ", ") + ")"
}

// one sends an event with args to the handler and judges the call. fits: every argument present fits its parameter.
func (b *bRun) one(ts []bType, args []string) {
	b.n++
	p := b.s.Peers[b.n%len(b.s.Peers)]
	b.calls, b.errs = nil, nil
	if b.ack {
		p.Got = nil
		so := b.socks[p.Sid]
		if err := so.Emit("req", b.h); err != nil {
			rt.Fail("[bind] Emit with an acknowledgement callback: %v", err)
		}
		g := p.Take()
		if len(g) != 1 || g[0].ID == "" {
			rt.Fail("[bind] Emit with an acknowledgement callback sent %s", gots(g))
		}
		p.Pkt(3, b.nsp, g[0].ID, "", args...)
	} else {
		p.Pkt(2, b.nsp, "", "e", args...)
	}
	rt.Quiesce()
	fail := func(f string, a ...interface{}) {
		rt.Fail("[bind] %s: %s with arguments %q in namespace %s: %s", b.s.Name, sig(ts), args, b.nsp, fmt.Sprintf(f, a...))
	}
	// which argument goes to which parameter
	var js, bins []string
	for _, a := range args {
		if strings.HasPrefix(a, "bin:") && !b.s.MP {
			bins = append(bins, a)
		} else {
			js = append(js, a)
		}
	}
	fits, miss := true, false
	var want []interface{}
	var missing []bool
	for _, t := range ts {
		if t.kind == 2 {
			want, missing = append(want, nil), append(missing, false)
			continue
		}
		l := &js
		if t.kind == 1 {
			l = &bins
		}
		a := ""
		if len(*l) > 0 {
			a, *l = (*l)[0], (*l)[1:]
		} else {
			miss = true
		}
		w, ok := bWant(t, a)
		fits = fits && ok
		want, missing = append(want, w), append(missing, a == "")
	}
	if miss && b.s.MP && len(b.calls) == 0 {
		return // reported or ignored: only the default parser supplies zero values
	}
	if !fits {
		if len(b.calls) > 0 {
			fail("the handler ran although an argument cannot be converted")
		}
		if len(b.errs) != 1 {
			fail("the namespace's error handler was told %d times: %v", len(b.errs), b.errs)
		}
		return
	}
	if len(b.errs) > 0 {
		fail("error %v", b.errs)
	}
	if len(b.calls) != 1 {
		fail("the handler ran %d times", len(b.calls))
	}
	if e := b.s.Errs(); len(e) > 0 {
		fail("errors %v", e)
	}
	for i, t := range ts {
		got := b.calls[0][i]
		if t.kind == 2 {
			so, ok := got.Interface().(socketio.Socket)
			if !ok || so == nil {
				fail("parameter %d is no socket", i)
			}
			if so.Namespace() != b.nsp || so.Sid() != p.Sid {
				fail("parameter %d is the socket of namespace %q, session %q (not %q)", i, so.Namespace(), so.Sid(), p.Sid)
			}
			if b.n%16 == 0 {
				for _, q := range b.s.Peers {
					q.Got = nil
				}
				if err := so.Emit("pong", b.n); err != nil {
					fail("emitting through parameter %d: %v", i, err)
				}
				if g := p.Take(); gots(g) != fmt.Sprintf("2%s pong(%d)", b.nsp, b.n) {
					fail("emitting through parameter %d sent %s", i, gots(g))
				}
			}
			continue
		}
		if !bSame(t, got, want[i], missing[i]) {
			fail("parameter %d is %#v, want %#v", i, show1(got), want[i])
		}
	}
}

func show1(v reflect.Value) interface{} {
	if v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	return v.Interface()
}

// signature tries a handler signature with all its argument lists.
func (b *bRun) signature(ts []bType) {
	b.h = b.handler(ts, false)
	b.s.Ns(b.nsp).OnEvent("e", b.h)
	perfect := func(k int) []string {
		var a []string
		n := 0
		for _, t := range ts {
			if t.kind != 2 {
				a = append(a, t.good[(k+n)%len(t.good)])
				n++
			}
		}
		return a
	}
	p0, p1 := perfect(0), perfect(1)
	b.one(ts, p0)
	if len(p0) > 0 {
		b.one(ts, p1)
	}
	// binary arguments before, and after, the others
	var bins, js []string
	for _, a := range p0 {
		if strings.HasPrefix(a, "bin:") {
			bins = append(bins, a)
		} else {
			js = append(js, a)
		}
	}
	if len(bins) > 0 && len(js) > 0 {
		b.one(ts, append(append([]string{}, bins...), js...))
		b.one(ts, append(append([]string{}, js...), bins...))
	}
	// fewer, and more, than parameters
	for k := len(p1) - 1; k >= 0; k-- {
		b.one(ts, p1[:k])
	}
	extra := append(append([]string{}, p0...), `"extra"`)
	b.one(ts, extra)
	if !b.s.MP {
		b.one(ts, append(append([]string{}, extra...), "bin:extra", `{}`))
		b.one(ts, append([]string{"bin:front"}, js...))
		b.one(ts, append([]string{`"front"`}, bins...))
	}
	// one that does not fit
	i := 0
	for _, t := range ts {
		if t.kind == 2 {
			continue
		}
		for _, x := range t.bad {
			if b.s.MP && t.t.Kind() == reflect.Float64 {
				continue
			}
			a := append([]string{}, p0...)
			a[i] = x
			b.one(ts, a)
		}
		i++
	}
}

func (b *bRun) setup(kind int, nsp string) {
	b.nsp = nsp
	b.socks = map[string]socketio.Socket{}
	b.s = newSSide(kind, func(ns func(string) socketio.Namespace) {
		for _, n := range []string{"/", "/a"} {
			n := n
			ns(n).OnConnect(func(so socketio.Socket) {
				if n == nsp {
					b.socks[so.Sid()] = so
				}
			})
			ns(n).OnError(func(so socketio.Socket, err ...interface{}) {
				if n != b.nsp || so.Namespace() != n {
					rt.Fail("[bind] error %v reported to namespace %s (socket of %s), the event was sent to %s", err, n, so.Namespace(), b.nsp)
				}
				b.errs = append(b.errs, fmt.Sprint(err...))
				rt.Note("nsp error")
			})
		}
	})
	if nsp != "/" {
		for _, p := range b.s.Peers {
			p.Pkt(0, nsp, "", "")
		}
	}
	rt.Quiesce()
	for _, p := range b.s.Peers {
		p.Got = nil
	}
}

func init() {
	for _, tier := range []struct {
		suffix string
		depth  int
		q, t   int
	}{{"", 3, 0, -1}, {"-deep", 4, -1, 0}} {
		tier := tier
		nt := len(bTypes)
		// variant: side/parser (4) x first parameter type
		reg(&rt.Scenario{Name: "bind" + tier.suffix, Props: []string{"C20"}, Quick: tier.q, Thorough: tier.t, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: 4 * nt,
			Describe: func(v int) string {
				return fmt.Sprintf("%s: all signatures of up to %d parameters beginning with %v", sideName(v/nt), tier.depth, bTypes[v%nt].t)
			},
			Run: func(v int) {
				kind := v / nt
				if kind >= 2 && !bTypes[v%nt].mp {
					return
				}
				b := &bRun{}
				b.setup(kind, []string{"/", "/a"}[v%2])
				n := 0
				var rec func(ts []bType)
				rec = func(ts []bType) {
					n++
					b.signature(ts)
					if len(ts) == tier.depth {
						return
					}
					for i, t := range bTypes {
						if kind >= 2 && !t.mp || len(ts) == 3 && (i+n)%3 != 0 {
							continue
						}
						rec(append(ts[:len(ts):len(ts)], t))
					}
				}
				if v%nt == 0 {
					b.signature(nil)
				}
				rec([]bType{bTypes[v%nt]})
				rt.Count("signatures", n)
				rt.Count("events", b.n)
			}})
	}
	nt := len(bTypes)
	reg(&rt.Scenario{Name: "bind-ack", Props: []string{"C21"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: 4 * nt,
		Describe: func(v int) string {
			return fmt.Sprintf("%s: acknowledgement callbacks of all signatures of up to 2 parameters beginning with %v", sideName(v/nt), bTypes[v%nt].t)
		},
		Run: func(v int) {
			if v/nt >= 2 && !bTypes[v%nt].mp {
				return
			}
			b := &bRun{ack: true}
			b.setup(v/nt, []string{"/", "/a"}[v%2])
			if v%nt == 0 {
				b.signature(nil)
			}
			b.signature(bTypes[v%nt : v%nt+1])
			for _, t := range bTypes {
				if v/nt < 2 || t.mp {
					b.signature([]bType{bTypes[v%nt], t})
				}
			}
			rt.Count("acks", b.n)
		}})
	reg(&rt.Scenario{Name: "results", Props: []string{"C22"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: 4 * 8,
		Describe: func(v int) string {
			return fmt.Sprintf("%s: all result lists of up to 2 values, part %d", sideName(v/8), v%8)
		},
		Run: func(v int) {
			b := &bRun{}
			b.setup(v/8, []string{"/", "/a"}[v%2])
			type res struct {
				v interface{}
				s string
			}
			var all []res
			if v/8 < 2 {
				for _, a := range append(append([]sArg{}, argAlpha...), typedAlpha...) {
					if a.bin {
						all = append(all, res{a.v, "bin:" + a.want.(string)})
						continue
					}
					var j interface{}
					json.Unmarshal([]byte(a.js), &j)
					all = append(all, res{a.v, canon(j)})
				}
			} else {
				for _, a := range mArgs {
					all = append(all, res{a.v, canon(mpOf(a.v))})
				}
			}
			n := 0
			try := func(rs ...res) {
				n++
				if n%8 != v%8 {
					return
				}
				var out []reflect.Type
				var vals []reflect.Value
				var want []string
				for _, r := range rs {
					t := reflect.TypeOf(r.v)
					if t == nil || n%3 == 0 {
						t = tAny
					}
					out = append(out, t)
					x := reflect.New(t).Elem()
					if r.v != nil {
						x.Set(reflect.ValueOf(r.v))
					}
					vals = append(vals, x)
					want = append(want, r.s)
				}
				ran := 0
				b.s.Ns(b.nsp).OnEvent("e", reflect.MakeFunc(reflect.FuncOf([]reflect.Type{tAny}, out, false), func([]reflect.Value) []reflect.Value { ran++; return vals }).Interface())
				p := b.s.Peers[n%len(b.s.Peers)]
				id := []uint64{0, 1, 9, 10, 255, 256, 1 << 32, 1<<53 + 1, 1<<64 - 1}[n%9]
				p.Pkt(2, b.nsp, fmt.Sprint(id), "e", `"x"`)
				g := p.Take()
				w := SGot{Typ: 3, Nsp: b.nsp, ID: fmt.Sprint(id), Args: want}.String()
				if gots(g) != w || ran != 1 {
					rt.Fail("[results] %s: handler run %d times, its results %v acknowledged by %s, should be %s", b.s.Name, ran, clip(fmt.Sprint(vals)), clip(gots(g)), clip(w))
				}
				for _, q := range b.s.Peers {
					if len(q.Got) > 0 {
						rt.Fail("[results] acknowledgement sent to another connection: %s", gots(q.Got))
					}
				}
			}
			try()
			for _, a := range all {
				try(a)
				for _, c := range all {
					try(a, c)
				}
			}
			rt.Count("requests", n/8)
		}})
	reg(&rt.Scenario{Name: "bind-variadic", Props: []string{"C20"}, Cfg: rt.Config{MaxSteps: 2000000000, QuietLib: true}, N: 4,
		Describe: func(v int) string { return sideName(v) + ": signatures ending in a variadic parameter" },
		Run: func(v int) {
			b := &bRun{}
			b.setup(v, "/")
			n := 0
			last := []bType{
				{reflect.TypeOf([]string{}), 0, []string{`["a","b"]`, `[]`}, nil, true},
				{reflect.TypeOf([]interface{}{}), 0, []string{`["a",true]`, `["x"]`}, nil, true},
				{reflect.TypeOf([]int{}), 0, []string{`[1,2]`, `[3]`}, nil, true},
			}
			var rec func(ts []bType)
			rec = func(ts []bType) {
				for _, l := range last {
					full := append(ts[:len(ts):len(ts)], l)
					b.s.Ns("/").OnEvent("e", b.handler(full, true))
					for k := 0; k < 2; k++ {
						var a []string
						for _, t := range full {
							if t.kind != 2 {
								a = append(a, t.good[k])
							}
						}
						n++
						b.one(full, a)
						if len(ts) > 0 && k == 0 && ts[0].kind == 0 && len(ts[0].bad) > 0 {
							a[0] = ts[0].bad[0]
							b.one(full, a)
						}
					}
				}
				if len(ts) == 2 {
					return
				}
				for _, t := range bTypes {
					if v < 2 || t.mp {
						rec(append(ts[:len(ts):len(ts)], t))
					}
				}
			}
			rec(nil)
			rt.Count("events", n)
		}})
}

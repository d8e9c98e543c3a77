package harness

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"vmc/rt"
)

const (
	bigI = 1000 * time.Hour
	bigT = 2000 * time.Hour
	nap  = time.Hour // well within both
)

// pattern makes n bytes running through values; text patterns are valid UTF-8.
func pattern(n int, bin bool, salt int) string {
	if bin {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i/256 + salt)
		}
		return string(b)
	}
	const alpha = "0:1b4abc€\u2028\"\\<&é\n\x00:9日本"
	var sb strings.Builder
	rs := []rune(alpha)
	for i := salt; sb.Len() < n; i++ {
		r := rs[i%len(rs)]
		if sb.Len()+len(string(r)) > n {
			r = 'z'
		}
		sb.WriteRune(r)
	}
	return sb.String()
}

type encoding struct {
	name string
	ct   string
	enc  func(...Pkt) string
	dec  func(string) ([]Pkt, error)
	flav string
}

var encs = []encoding{{"text", ctText, encText, decText, "&b64=1"}, {"xhr2", ctBin, encBin, decBin, ""}}

// deliver is the reference semantics of a received payload.
func deliver(ps []Pkt) (msgs, pongs []Pkt, closed bool) {
	for _, p := range ps {
		switch p.Type {
		case 4:
			msgs = append(msgs, p)
		case 2:
			pongs = append(pongs, Pkt{p.Bin, 3, p.Data})
		case 1:
			return msgs, pongs, true
		}
	}
	return
}

// postCase posts one body on s and compares with the reference.
func postCase(e *Eng, s *Sess, en encoding, body string, want []Pkt, split []int, eofData bool, what string) {
	before := len(e.Evs)
	r := Start(e, Req{Method: "POST", Query: qPoll + "&sid=" + s.Sid, CT: en.ct, Body: []byte(body), Split: split, EOFData: eofData})
	rt.Quiesce()
	msgs, pongs, _ := deliver(want)
	var got []Pkt
	for _, v := range e.Evs[before:] {
		if v.Kind == "message" {
			got = append(got, Pkt{v.Bin, 4, v.Data})
		}
		if v.Kind == "close" {
			rt.Fail("[payload-close] session closed after %s body %s", en.name, what)
		}
	}
	if !r.Done {
		rt.Fail("[payload-hang] POST not answered: %s body %s", en.name, what)
	}
	if r.Code != 200 {
		rt.Fail("[payload-refused] well-formed %s body %s answered %v", en.name, what, r)
	}
	if !pktsEqual(got, msgs) {
		rt.Fail("[payload-content] %s body %s\n  sent      %s\n  delivered %s", en.name, what, show(msgs), show(got))
	}
	if len(pongs) > 0 {
		n := len(s.Got)
		for i := 0; i < len(pongs); i++ {
			s.Poll()
		}
		if !pktsEqual(s.Got[n:], pongs) {
			rt.Fail("[payload-pong] pings in %s body %s: want %s got %s", en.name, what, show(pongs), show(s.Got[n:]))
		}
	}
}

var c01sizes = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 62, 63, 64, 65, 73, 74, 75, 76, 97, 98, 99, 100, 101, 125, 126, 127, 128, 255, 256, 257, 510, 511, 512, 513, 998, 999, 1000, 1023, 1024, 1025, 1534, 2047, 2048, 3070, 3071, 3072, 3073, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 5000, 6143, 6144, 8191, 8192, 9999, 10000, 12288, 16383, 32768, 65535, 65536, 70001}

func init() {
	// every boundary size, both kinds and encodings, several splits
	reg(&rt.Scenario{Name: "payload-sizes", Props: []string{"C01"}, Cfg: rt.Config{MaxSteps: 4000000}, N: len(c01sizes) * 4,
		Describe: func(v int) string {
			return fmt.Sprintf("size %d bin=%v %s", c01sizes[v/4], v&1 == 1, encs[v>>1&1].name)
		},
		Run: func(v int) {
			n, bin, en := c01sizes[v/4], v&1 == 1, encs[v>>1&1]
			e := NewEng(bigI, bigT)
			s := e.OpenF(en.flav)
			for salt := 0; salt < 3; salt++ {
				p := Pkt{bin, 4, pattern(n, bin, salt*5)}
				q := msg("tail")
				for _, list := range [][]Pkt{{p}, {p, q}, {q, p}, {p, p}} {
					body := en.enc(list...)
					splits := [][]int{nil, {1}, {2}, {3}, {7}, {n + 1}, {512}, {1000}, {1460}, {4095}, {4096}, {4097}}
					if len(body) > 9000 {
						splits = [][]int{nil, {513}, {1460}, {4095}, {4096}, {4097}, {9000}}
						if salt == 0 {
							splits = append(splits, []int{1})
						}
					}
					for i, sp := range splits {
						postCase(e, s, en, body, list, sp, i%2 == 1, fmt.Sprintf("%s split %v", show(list), sp))
					}
				}
			}
			rt.Outcome("%d", len(e.Evs))
		}})

	// every sequence of up to 3 (4) packets over a small alphabet
	alpha := []Pkt{msg(""), msg("a"), msg("b4:x"), msg("日本€"), bmsg(""), bmsg("\x00"), bmsg("\xff:"), bmsg("abc"), {false, 2, "probe"}, {true, 2, "\x01"}, {false, 6, ""}, {false, 3, "p"}}
	K := len(alpha)
	reg(&rt.Scenario{Name: "payload-sequences", Props: []string{"C01"}, Cfg: rt.Config{MaxSteps: 8000000}, N: K * 2,
		Describe: func(v int) string { return fmt.Sprintf("first %v %s", alpha[v/2], encs[v&1].name) },
		Run: func(v int) {
			en := encs[v&1]
			e := NewEng(bigI, bigT)
			s := e.OpenF(en.flav)
			run := func(list []Pkt) {
				postCase(e, s, en, en.enc(list...), list, nil, false, show(list))
				postCase(e, s, en, en.enc(list...), list, []int{1}, true, show(list)+" bytewise")
			}
			f := alpha[v/2]
			run([]Pkt{f})
			for _, a := range alpha {
				run([]Pkt{f, a})
				for _, b := range alpha {
					run([]Pkt{f, a, b})
					if a != b {
						run([]Pkt{f, a, b, a})
					}
				}
			}
			rt.Outcome("%d", len(e.Evs))
		}})

	// every two-way split and every chunk size of representative bodies
	reps := [][]Pkt{
		{msg("hello"), bmsg("\x00\x01\x02\x03"), msg(""), bmsg("xyzw1")},
		{bmsg("a"), bmsg("ab"), bmsg("abc"), bmsg("")},
		{msg(pattern(120, false, 3)), bmsg(pattern(100, true, 9)), msg("end")},
		{msg(pattern(11, false, 1)), msg(pattern(9, false, 2)), bmsg(pattern(10, true, 1)), msg(pattern(100, false, 0)), bmsg(pattern(30, true, 4))},
	}
	reg(&rt.Scenario{Name: "payload-splits", Props: []string{"C01"}, Cfg: rt.Config{MaxSteps: 8000000}, N: len(reps) * 2 * 8,
		Describe: func(v int) string { return fmt.Sprintf("%s %s part %d", show(reps[v/16]), encs[v&1].name, v/2%8) },
		Run: func(v int) {
			part := v / 2 % 8
			v = v&1 | v/16*2
			en := encs[v&1]
			e := NewEng(bigI, bigT)
			s := e.OpenF(en.flav)
			list := reps[v/2]
			body := en.enc(list...)
			for i := 1 + part; i <= len(body); i += 8 {
				postCase(e, s, en, body, list, []int{i, len(body)}, false, fmt.Sprintf("%s split at %d", show(list), i))
				postCase(e, s, en, body, list, []int{i}, i%2 == 0, fmt.Sprintf("%s chunks of %d", show(list), i))
				for j := 1; j < len(body)-i; j += 1 + len(body)/40 {
					postCase(e, s, en, body, list, []int{i, j, len(body)}, true, fmt.Sprintf("%s split at %d,+%d", show(list), i, j))
				}
			}
			rt.Outcome("%d", len(e.Evs))
		}})

	// many packets in one body
	reg(&rt.Scenario{Name: "payload-counts", Props: []string{"C01", "C07"}, Cfg: rt.Config{MaxSteps: 8000000}, N: 4,
		Run: func(v int) {
			en := encs[v&1]
			e := NewEng(bigI, bigT)
			s := e.OpenF(en.flav)
			for _, n := range []int{0, 1, 2, 7, 8, 9, 10, 15, 16, 17, 18, 32, 33, 64, 100, 257} {
				var list []Pkt
				for i := 0; i < n; i++ {
					list = append(list, Pkt{(i+v>>1)%2 == 0, 4, fmt.Sprint(i)})
				}
				if n == 0 {
					continue
				}
				postCase(e, s, en, en.enc(list...), list, nil, false, fmt.Sprintf("%d packets", n))
			}
			rt.Outcome("%d", len(e.Evs))
		}})

	// content types that must be accepted
	reg(&rt.Scenario{Name: "payload-content-type", Props: []string{"C01", "C02"}, Cfg: rt.Config{MaxSteps: 1000000},
		Run: func(int) {
			e := NewEng(bigI, bigT)
			s := e.OpenF("&b64=1")
			ok := []string{"text/plain; charset=UTF-8", "text/plain;charset=utf-8", "Text/Plain; Charset=\"UTF-8\"", "application/octet-stream", "Application/Octet-Stream", "application/octet-stream; x=y"}
			for _, ct := range ok {
				en := encs[0]
				if strings.Contains(strings.ToLower(ct), "octet") {
					en = encs[1]
				}
				en.ct = ct
				list := []Pkt{msg("m"), bmsg("\x01\x02")}
				postCase(e, s, en, en.enc(list...), list, nil, false, ct)
			}
			bad := []string{"", "text/html", "application/json", "text/plain; charset=latin1", "garbage/;;", "image/png", ";"}
			for _, ct := range bad {
				refuse(e, s, encs[0], ct, encText(msg("m")), "content type "+ct)
			}
			rt.Outcome("%d", len(e.Evs))
		}})
}

// refuse posts a malformed body and expects an error and no effect.
func refuse(e *Eng, s *Sess, en encoding, ct, body, what string) {
	before := len(e.Evs)
	r := Start(e, Req{Method: "POST", Query: qPoll + "&sid=" + s.Sid, CT: ct, Body: []byte(body)})
	rt.Quiesce()
	if !r.Done {
		rt.Fail("[bad-hang] POST not answered: %s body %q (%s)", en.name, clip(body), what)
	}
	for _, v := range e.Evs[before:] {
		if v.Kind == "message" {
			rt.Fail("[bad-leak] message %v delivered from a malformed %s body %q (%s), answered %v", v, en.name, clip(body), what, r)
		}
		if v.Kind == "close" {
			rt.Fail("[bad-close] session closed by a malformed %s body %q (%s)", en.name, clip(body), what)
		}
	}
	if r.Code < 400 {
		rt.Fail("[bad-accepted] malformed %s body %q (%s) answered %v", en.name, clip(body), what, r)
	}
}

// onlyType reports whether the single fault of a body is an unknown packet type.
func tolerated(en encoding, body string) bool {
	// replace unknown type characters by '6' (noop) and see whether it becomes well-formed
	b := body
	for try := 0; try < 8; try++ {
		_, err := en.dec(b)
		if err == nil {
			return try > 0
		}
		m := err.Error()
		if !strings.HasPrefix(m, "packet type") {
			return strings.HasPrefix(m, "bad base64") && strings.ContainsAny(body, "\r\n")
		}
		nb, ok := fixType(en, b)
		if !ok {
			return false
		}
		b = nb
	}
	return false
}

// fixType replaces the first unknown packet type by noop.
func fixType(en encoding, b string) (string, bool) {
	pos := 0
	for pos < len(b) {
		i := pos
		var n int
		bin := false
		if en.name == "text" {
			j := strings.IndexByte(b[i:], ':')
			if j < 0 {
				return b, false
			}
			fmt.Sscanf(b[i:i+j], "%d", &n)
			i += j + 1
			if i >= len(b) {
				return b, false
			}
			t := i
			if b[i] == 'b' {
				bin = true
				t++
			}
			if t >= len(b) {
				return b, false
			}
			if b[t] < '0' || b[t] > '6' {
				return b[:t] + "6" + b[t+1:], true
			}
		} else {
			bin = b[i] == 1
			j := strings.IndexByte(b[i:], 0xff)
			if j < 0 {
				return b, false
			}
			for _, c := range []byte(b[i+1 : i+j]) {
				n = n*10 + int(c)
			}
			i += j + 1
			if i >= len(b) {
				return b, false
			}
			c := int(b[i])
			if !bin {
				c -= '0'
			}
			if c < 0 || c > 6 {
				x := byte('6')
				if bin {
					x = 6
				}
				return b[:i] + string([]byte{x}) + b[i+1:], true
			}
		}
		if n <= 0 {
			return b, false
		}
		pos = i + n
	}
	return b, false
}

// anyBody posts an arbitrary body, classified by the reference decoder.
func anyBody(e *Eng, ps **Sess, en encoding, body string) {
	s := *ps
	want, err := en.dec(body)
	if err == nil {
		if body == "" {
			return
		}
		_, _, closed := deliver(want)
		for _, p := range want {
			if p.Type == 1 {
				closed = true
			}
		}
		if closed {
			return // ends the session: C11
		}
		postCase(e, s, en, body, want, nil, false, fmt.Sprintf("%q", clip(body)))
		return
	}
	if tolerated(en, body) {
		return
	}
	refuse(e, s, en, en.ct, body, err.Error())
}

// usable checks that the session still exchanges messages both ways.
func usable(e *Eng, s *Sess, en encoding) {
	postCase(e, s, en, en.enc(msg("still"), bmsg("here")), []Pkt{msg("still"), bmsg("here")}, nil, false, "follow-up")
	emit(s.Sock(), msg("back"))
	n := len(s.Got)
	if !s.Poll() {
		rt.Fail("[bad-unusable] session refuses polls after malformed bodies: %v", s.Errs)
	}
	if !pktsEqual(s.Got[n:], []Pkt{msg("back")}) {
		rt.Fail("[bad-unusable] session delivers %s after malformed bodies", show(s.Got[n:]))
	}
}

func init() {
	textA := []byte{':', 'b', '4', '0', '1', '2', '3', 'A', '=', '9', '-'}
	binA := []byte{0, 1, 2, 3, 9, 10, 0xff, '4', 4}
	alphaOf := func(en int) []byte {
		if en == 0 {
			return textA
		}
		return binA
	}
	words := func(name string, depth, props int) {
		reg(&rt.Scenario{Name: name, Props: []string{"C02"}, Quick: map[bool]int{true: 0, false: -1}[depth <= 5], Thorough: map[bool]int{true: -1, false: 0}[depth <= 5],
			Cfg: rt.Config{MaxSteps: 200000000}, N: len(textA)*len(textA) + len(binA)*len(binA),
			Describe: func(v int) string {
				if v < len(textA)*len(textA) {
					return fmt.Sprintf("text prefix %q", []byte{textA[v/len(textA)], textA[v%len(textA)]})
				}
				v -= len(textA) * len(textA)
				return fmt.Sprintf("xhr2 prefix %v", []byte{binA[v/len(binA)], binA[v%len(binA)]})
			},
			Run: func(v int) {
				k := 0
				if v >= len(textA)*len(textA) {
					k = 1
					v -= len(textA) * len(textA)
				}
				al := alphaOf(k)
				en := encs[k]
				e := NewEng(bigI, bigT)
				s := e.OpenF(en.flav)
				pre := []byte{al[v/len(al)], al[v%len(al)]}
				n := 0
				var rec func(b []byte)
				rec = func(b []byte) {
					n++
					anyBody(e, &s, en, string(b))
					if n%64 == 0 {
						e.Evs = nil
						usable(e, s, en)
					}
					if len(b) == depth {
						return
					}
					for _, c := range al {
						rec(append(append([]byte{}, b...), c))
					}
				}
				if v%len(al) == 0 {
					anyBody(e, &s, en, string(pre[:1]))
				}
				rec(pre)
				usable(e, s, en)
				rt.Count("bodies", n)
			}})
	}
	words("bad-words", 5, 0)
	words("bad-words6", 6, 0)

	reps := [][]Pkt{
		{msg("hello"), bmsg("\x00\x01\x02\x03"), msg("z")},
		{bmsg("a"), msg("x"), bmsg("abcd")},
		{msg("0123456789"), bmsg("0123456789012345")},
	}
	reg(&rt.Scenario{Name: "bad-mutations", Props: []string{"C02"}, Cfg: rt.Config{MaxSteps: 200000000}, N: len(reps) * 2,
		Describe: func(v int) string { return fmt.Sprintf("%s %s", show(reps[v/2]), encs[v&1].name) },
		Run: func(v int) {
			en := encs[v&1]
			e := NewEng(bigI, bigT)
			s := e.OpenF(en.flav)
			body := en.enc(reps[v/2]...)
			al := append([]byte{'!', '\n', 0x80}, textA...)
			if v&1 == 1 {
				al = append([]byte{0x80, 'b', 48}, binA...)
			}
			for i := 0; i <= len(body); i++ {
				anyBody(e, &s, en, body[:i])
				for _, c := range al {
					anyBody(e, &s, en, body[:i]+string([]byte{c})+body[i:])
					if i < len(body) {
						anyBody(e, &s, en, body[:i]+string([]byte{c})+body[i+1:])
					}
				}
				if i < len(body) {
					anyBody(e, &s, en, body[:i]+body[i+1:])
				}
				e.Evs = nil
				usable(e, s, en)
			}
			rt.Outcome("%d", s.Polls)
		}})

	huge := []string{"2147483648", "4294967298", "9223372036854775807", "9223372036854775808", "9223372036854775810", "18446744073709551616", "18446744073709551618", "18446744073709551619", "36893488147419103234", "340282366920938463463374607431768211458", "99999999999999999999999999999999999999999999999999", "4611686018427387904", "4611686018427387905", "1000000000", "100000000", "10000", "4097", "00000000000000000000000000000000000000000000000003"}
	reg(&rt.Scenario{Name: "bad-lengths", Props: []string{"C02"}, Cfg: rt.Config{MaxSteps: 200000000}, N: len(huge) * 2,
		Describe: func(v int) string { return huge[v/2] + " " + encs[v&1].name },
		Run: func(v int) {
			en := encs[v&1]
			e := NewEng(bigI, bigT)
			s := e.OpenF(en.flav)
			for _, tail := range []string{"4ab", "4a", "4", "", "b4AA==", "b4AAA=", "b4AAAA", "b4QQ==4:4xyz"} {
				for _, pre := range []string{"", en.enc(msg("first"))} {
					body := pre + huge[v/2] + ":" + tail
					if v&1 == 1 {
						var b []byte
						for _, c := range huge[v/2] {
							b = append(b, byte(c-'0'))
						}
						for kind := byte(0); kind < 2; kind++ {
							body = pre + string([]byte{kind}) + string(b) + "\xff" + tail
							var m0, m1 runtime.MemStats
							runtime.ReadMemStats(&m0)
							anyBody(e, &s, en, body)
							runtime.ReadMemStats(&m1)
							if d := m1.TotalAlloc - m0.TotalAlloc; d > 4<<20 {
								rt.Fail("[bad-alloc] %d bytes allocated for a body of %d bytes: %q", d, len(body), body)
							}
						}
						continue
					}
					var m0, m1 runtime.MemStats
					runtime.ReadMemStats(&m0)
					anyBody(e, &s, en, body)
					runtime.ReadMemStats(&m1)
					if d := m1.TotalAlloc - m0.TotalAlloc; d > 4<<20 {
						rt.Fail("[bad-alloc] %d bytes allocated for a body of %d bytes: %q", d, len(body), body)
					}
				}
			}
			usable(e, s, en)
			rt.Outcome("%d", s.Polls)
		}})

	// a body whose transport breaks is not accepted
	reg(&rt.Scenario{Name: "bad-broken-read", Props: []string{"C02"}, Cfg: rt.Config{MaxSteps: 20000000}, N: 2,
		Run: func(v int) {
			en := encs[v]
			e := NewEng(bigI, bigT)
			s := e.OpenF(en.flav)
			rt.Quiesce() // the open callback has run
			body := en.enc(msg("hello"), bmsg("\x00\x01\x02\x03"))
			for i := 0; i <= len(body); i++ {
				for _, end := range []error{errBroken, errUnexpected} {
					before := len(e.Evs)
					r := Start(e, Req{Method: "POST", Query: qPoll + "&sid=" + s.Sid, CT: en.ct, Body: []byte(body[:i]), End: end})
					rt.Quiesce()
					if !r.Done || r.Code < 400 {
						rt.Fail("[bad-accepted] body broken off after %d bytes (%v) answered %v", i, end, r)
					}
					for _, v := range e.Evs[before:] {
						rt.Fail("[bad-leak] %v after a body broken off after %d bytes", v, i)
					}
				}
			}
			usable(e, s, en)
			rt.Outcome("%d", len(e.Evs))
		}})
}

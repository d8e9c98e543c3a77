package harness

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// Pkt is an engine.io packet of the reference model.
type Pkt struct {
	Bin  bool
	Type int
	Data string
}

func (p Pkt) String() string {
	k := "s"
	if p.Bin {
		k = "b"
	}
	d := p.Data
	if len(d) > 24 {
		d = d[:20] + fmt.Sprintf("..%d", len(d))
	}
	return fmt.Sprintf("%s%d:%q", k, p.Type, d)
}

// encText is the reference encoder of the engine.io v3 string payload.
// Lengths of string packets count bytes, as this implementation's peers use.
func encText(ps ...Pkt) string {
	var sb strings.Builder
	for _, p := range ps {
		if p.Bin {
			d := base64.StdEncoding.EncodeToString([]byte(p.Data))
			fmt.Fprintf(&sb, "%d:b%d%s", len(d)+2, p.Type, d)
		} else {
			fmt.Fprintf(&sb, "%d:%d%s", len(p.Data)+1, p.Type, p.Data)
		}
	}
	return sb.String()
}

// encBin is the reference encoder of the XHR2 payload.
func encBin(ps ...Pkt) string {
	var sb strings.Builder
	for _, p := range ps {
		l := strconv.Itoa(len(p.Data) + 1)
		if p.Bin {
			sb.WriteByte(1)
		} else {
			sb.WriteByte(0)
		}
		for _, c := range l {
			sb.WriteByte(byte(c - '0'))
		}
		sb.WriteByte(0xff)
		if p.Bin {
			sb.WriteByte(byte(p.Type))
		} else {
			sb.WriteByte(byte('0' + p.Type))
		}
		sb.WriteString(p.Data)
	}
	return sb.String()
}

// decText is the reference decoder of the string payload: ok only if s is a
// complete well-formed payload.
func decText(s string) (ps []Pkt, err error) {
	for len(s) > 0 {
		i := strings.IndexByte(s, ':')
		if i < 1 {
			return nil, fmt.Errorf("no length")
		}
		n, e := strconv.ParseUint(s[:i], 10, 62)
		if e != nil || !digits(s[:i]) {
			return nil, fmt.Errorf("bad length %q", s[:i])
		}
		s = s[i+1:]
		if n < 1 || n > uint64(len(s)) {
			return nil, fmt.Errorf("length %d of %d bytes", n, len(s))
		}
		body := s[:n]
		s = s[n:]
		p := Pkt{}
		if body[0] == 'b' {
			if n < 2 {
				return nil, fmt.Errorf("binary packet without type")
			}
			p.Bin = true
			body = body[1:]
		}
		p.Type = int(body[0]) - '0'
		p.Data = body[1:]
		if p.Type < 0 || p.Type > 6 {
			return nil, fmt.Errorf("packet type %q", body[0])
		}
		if p.Bin {
			d, e := base64.StdEncoding.DecodeString(p.Data)
			if e != nil || strings.ContainsAny(p.Data, "\r\n") {
				return nil, fmt.Errorf("bad base64")
			}
			p.Data = string(d)
		}
		ps = append(ps, p)
	}
	return ps, nil
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

// decBin is the reference decoder of the XHR2 payload.
func decBin(s string) (ps []Pkt, err error) {
	for len(s) > 0 {
		if s[0] > 1 {
			return nil, fmt.Errorf("kind %d", s[0])
		}
		p := Pkt{Bin: s[0] == 1}
		i := 1
		var n uint64
		for ; i < len(s) && s[i] != 0xff; i++ {
			if s[i] > 9 {
				return nil, fmt.Errorf("length digit %d", s[i])
			}
			if n > 1<<58 {
				return nil, fmt.Errorf("length overflow")
			}
			n = n*10 + uint64(s[i])
		}
		if i >= len(s) || i == 1 {
			return nil, fmt.Errorf("no length")
		}
		s = s[i+1:]
		if n < 1 || n > uint64(len(s)) {
			return nil, fmt.Errorf("length %d of %d bytes", n, len(s))
		}
		b := int(s[0])
		if !p.Bin {
			b -= '0'
		}
		if b < 0 || b > 6 {
			return nil, fmt.Errorf("packet type %d", b)
		}
		p.Type = b
		p.Data = s[1:n]
		s = s[n:]
		ps = append(ps, p)
	}
	return ps, nil
}

// decJSONP parses `___eio[i]("...");` as a JavaScript engine would, accepting
// only a call with one string literal.
func decJSONP(s, index string) (string, error) {
	pre := "___eio[" + index + "]("
	if !strings.HasPrefix(s, pre) {
		return "", fmt.Errorf("not a call of ___eio[%s]: %s", index, clip(s))
	}
	s = strings.TrimSpace(s[len(pre):])
	s = strings.TrimSuffix(s, ";")
	s = strings.TrimSpace(s)
	if !strings.HasSuffix(s, ")") {
		return "", fmt.Errorf("call not closed")
	}
	s = strings.TrimSpace(s[:len(s)-1])
	if strings.ContainsAny(s, "\u2028\u2029") {
		return "", fmt.Errorf("line separator inside a string literal")
	}
	var v string
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return "", fmt.Errorf("argument is not one string literal (%v): %s", err, clip(s))
	}
	return v, nil
}

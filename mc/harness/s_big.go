package harness

import (
	"fmt"

	"vmc/rt"
)

// ---- C01, C03, C04: sizes past every limit a transport might come with

var bigSizes = []int{250_000, 300_001, 1_000_003, 1<<20 + 9, 6 << 20, 17 << 20}

func init() {
	reg(&rt.Scenario{Name: "big-payloads", Props: []string{"C01"}, Cfg: rt.Config{MaxSteps: 40000000}, N: len(bigSizes) * 4,
		Describe: func(v int) string {
			return fmt.Sprintf("size %d bin=%v %s", bigSizes[v/4], v&1 == 1, encs[v>>1&1].name)
		},
		Run: func(v int) {
			n, bin, en := bigSizes[v/4], v&1 == 1, encs[v>>1&1]
			e := NewEng(bigI, bigT)
			s := e.OpenF(en.flav)
			for i, list := range [][]Pkt{{{bin, 4, pattern(n, bin, 1)}}, {msg("head"), {bin, 4, pattern(n, bin, 2)}, bmsg("tail")}} {
				postCase(e, s, en, en.enc(list...), list, [][]int{nil, {65536}}[i], i == 1, fmt.Sprintf("%d packets, one of %d bytes", len(list), n))
			}
			rt.Outcome("%d", len(e.Evs))
		}})
	reg(&rt.Scenario{Name: "big-responses", Props: []string{"C03"}, Cfg: rt.Config{MaxSteps: 40000000}, N: len(bigSizes) * len(flavs) * 2,
		Describe: func(v int) string {
			return fmt.Sprintf("size %d bin=%v %q", bigSizes[v/2/len(flavs)], v&1 == 1, flavs[v/2%len(flavs)])
		},
		Run: func(v int) {
			n, bin := bigSizes[v/2/len(flavs)], v&1 == 1
			f := flavs[v/2%len(flavs)]
			e := NewEng(bigI, bigT)
			s := e.OpenF("")
			emitAll(s, []Pkt{{bin, 4, pattern(n, bin, 1)}, msg("tail")}, func(int) string { return f })
			rt.Outcome("%d", len(s.Got))
		}})
	reg(&rt.Scenario{Name: "big-messages", Props: []string{"C04"}, Cfg: rt.Config{MaxSteps: 40000000}, N: len(bigSizes) * 4,
		Describe: func(v int) string {
			return fmt.Sprintf("size %d side %d bin=%v", bigSizes[v/4], v&1, v&2 != 0)
		},
		Run: func(v int) {
			s := newSide(v & 1)
			n, bin := bigSizes[v/4], v&2 != 0
			for i := 0; i < 2; i++ {
				p := Pkt{bin, 4, pattern(n, bin, i)}
				s.w.S.Chunk = 60000 * i
				var cuts []int
				if i == 1 {
					cuts = []int{1, n / 2}
				}
				wsDeliver(s, p, fmt.Sprintf("%d fragments", len(cuts)+1), func() { sendFrag(s.w, p, cuts, nil) })
				if err := s.emit(p); err != nil {
					rt.Fail("[ws-out] %s: Emit(%v): %v", s.name, p, err)
				}
				if got, err := s.w.Recv(); err != nil || got != p {
					rt.Fail("[ws-out] %s: emitted %v, on the wire is %v (%v)", s.name, p, got, err)
				}
			}
			rt.Outcome("ok")
		}})
}

package harness

import (
	"time"

	"vmc/rt"
)

func init() {
	reg(&rt.Scenario{Name: "smoke", Quick: 1, Thorough: 1, Run: func(int) {
		e := NewEng(25*time.Second, 60*time.Second)
		s := e.Open()
		so := s.Sock()
		rt.HGo("emit", func() { emit(so, msg("a")); emit(so, bmsg("b")) })
		s.Poll()
		s.Poll()
		s.Post(msg("x"))
		w, sid := e.WSSession()
		w.Send(msg("hello"))
		rt.Quiesce()
		if len(e.Got(sid)) != 1 || len(e.Got(s.Sid)) != 1 {
			rt.Fail("got %v", e.Evs)
		}
		rt.Outcome("%v", s.Got)
	}})
}

// Command mc explores the scenarios of one property (one shard of the work).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"regexp"
	"runtime/debug"
	"strings"
	"time"

	"vmc/harness"
	"vmc/rt"
)

type known struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"` // regexp
	Variant  string `json:"variant"`  // regexp on the variant name
	Match    string `json:"match"`    // regexp on the message
	What     string `json:"what"`
	re       [3]*regexp.Regexp
}

type output struct {
	Stats      []rt.Stats      `json:"stats"`
	Violations []*rt.Violation `json:"violations"`
	Known      map[string]int  `json:"known"`
	Unstable   []string        `json:"unstable"`
}

func main() {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	seed := flag.Uint64("seed", 1, "")
	secs := flag.Float64("secs", 60, "time budget")
	out := flag.String("out", "", "result file")
	replay := flag.String("replay", "", "replay a violation file")
	knownF := flag.String("known", "", "known findings")
	only := flag.String("only", "", "regexp of scenarios")
	bound := flag.Int("bound", -1, "override the bound")
	list := flag.Bool("list", false, "")
	verbose := flag.Bool("v", false, "")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	if *list {
		for _, s := range harness.All {
			fmt.Println(s.Name, s.Props, "quick", s.Quick, "thorough", s.Thorough, "variants", s.N)
		}
		return
	}
	if *replay != "" {
		doReplay(*replay)
		return
	}
	var kn []*known
	if *knownF != "" {
		if b, err := os.ReadFile(*knownF); err == nil {
			var f struct {
				Findings []*known `json:"findings"`
			}
			if err := json.Unmarshal(b, &f); err != nil {
				fatal(err)
			}
			for _, k := range f.Findings {
				k.re = [3]*regexp.Regexp{regexp.MustCompile(k.Scenario), regexp.MustCompile(k.Variant), regexp.MustCompile(k.Match)}
				kn = append(kn, k)
			}
		}
	}
	var status *os.File
	if *out != "" {
		status, _ = os.Create(*out + ".status")
	}
	res := &output{Known: map[string]int{}}
	scs := harness.For(*prop)
	if *only != "" {
		re := regexp.MustCompile(*only)
		scs = nil
		for _, s := range harness.All {
			if re.MatchString(s.Name) {
				scs = append(scs, s)
			}
		}
	}
	var exs []*rt.Explorer
	end := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	total := 0
	b := func(s *rt.Scenario) int {
		if *bound >= 0 {
			return *bound
		}
		if *tier == "quick" {
			return s.Quick
		}
		return s.Thorough
	}
	isKnown := func(v *rt.Violation) bool {
		for _, k := range kn {
			if k.Property == *prop && k.re[0].MatchString(v.Scenario) && k.re[1].MatchString(v.Name) && k.re[2].MatchString(v.Msg) {
				res.Known[k.What]++
				return true
			}
		}
		return false
	}
	w := func(s *rt.Scenario) int {
		if s.Weight > 0 {
			return s.Weight
		}
		return 1
	}
	for _, s := range scs {
		if b(s) >= 0 {
			total += w(s)
		}
	}
	for _, s := range scs {
		if b(s) < 0 {
			continue
		}
		left := time.Until(end)
		dl := time.Now().Add(left * time.Duration(w(s)) / time.Duration(total))
		total -= w(s)
		deepest := b(s)
		if *tier == "quick" && *bound < 0 && s.Quick > 0 && s.Thorough > s.Quick {
			deepest++ // for as long as time is left in the end
		}
		ex := &rt.Explorer{Sc: s, Bound: deepest, Shard: *shard, Shards: *shards, Seed: *seed, Status: writerAt(status), Known: isKnown}
		ex.Start(b(s))
		v := ex.Continue(b(s), dl)
		exs = append(exs, ex)
		if v != nil {
			if confirm(s, v, res) {
				res.Violations = append(res.Violations, v)
				break
			}
		}
	}
	if *tier == "quick" && *bound < 0 && len(res.Violations) == 0 {
		for _, s := range scs { // those of the thorough tier, for as long as time is left
			if s.Quick < 0 && s.Thorough >= 0 {
				ex := &rt.Explorer{Sc: s, Bound: s.Thorough, Shard: *shard, Shards: *shards, Seed: *seed, Status: writerAt(status), Known: isKnown}
				ex.Start(s.Thorough)
				ex.Stats.Optional = true
				exs = append(exs, ex)
			}
		}
	}
	total = 0
	for _, ex := range exs {
		if ex.Bound > ex.Stats.Completed {
			total += w(ex.Sc)
		}
	}
	for _, ex := range exs {
		if len(res.Violations) > 0 || ex.Bound <= ex.Stats.Completed {
			continue
		}
		left := time.Until(end) - time.Duration(*secs*float64(time.Second)/2)
		if left <= 0 {
			break
		}
		dl := time.Now().Add(left * time.Duration(w(ex.Sc)) / time.Duration(total))
		total -= w(ex.Sc)
		if v := ex.Continue(ex.Bound, dl); v != nil && confirm(ex.Sc, v, res) {
			res.Violations = append(res.Violations, v)
		}
	}
	for _, ex := range exs {
		if *verbose {
			j, _ := json.Marshal(ex.Stats)
			fmt.Println(string(j))
		}
		res.Stats = append(res.Stats, ex.Stats)
	}
	j, _ := json.MarshalIndent(res, "", " ")
	if *out != "" {
		if err := os.WriteFile(*out, j, 0o644); err != nil {
			fatal(err)
		}
	}
	if *verbose {
		for _, v := range res.Violations {
			fmt.Println("VIOLATION", v.Scenario, v.Variant, v.Name, v.Devs, v.Kind, v.Msg)
			for _, l := range v.Log {
				fmt.Println("   ", l)
			}
		}
		for _, u := range res.Unstable {
			fmt.Println("UNSTABLE", u)
		}
	}
}

func writerAt(f *os.File) io.WriterAt {
	if f == nil {
		return nil
	}
	return f
}

func head(s string) string { return strings.SplitN(s, "\n", 2)[0] }

// confirm re-runs the schedule five times; it must fail alike every time.
func confirm(s *rt.Scenario, v *rt.Violation, res *output) bool {
	if v.Kind == "divergence" {
		res.Unstable = append(res.Unstable, fmt.Sprintf("%s/%d %v: %s", v.Scenario, v.Variant, v.Devs, v.Msg))
		return false
	}
	for i := 0; i < 5; i++ {
		r := rt.Replay(s, v.Variant, v.Devs, i == 4)
		ok := false
		if v.Kind == "race" {
			for k := range r.Races {
				if strings.Contains(v.Msg, k) {
					ok = true
				}
			}
		} else {
			ok = r.Fail != nil && r.Fail.Kind == v.Kind
		}
		if !ok {
			res.Unstable = append(res.Unstable, fmt.Sprintf("%s/%d %v: %s: not reproduced on re-run %d: %v", v.Scenario, v.Variant, v.Devs, head(v.Msg), i, r.Fail))
			return false
		}
		v.Log = r.Log
	}
	if len(v.Log) > 4000 {
		v.Log = v.Log[len(v.Log)-4000:]
	}
	return true
}

func doReplay(f string) {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal(err)
	}
	var v rt.Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fatal(err)
	}
	s := harness.ByName(v.Scenario)
	if s == nil {
		fatal(fmt.Errorf("no scenario %q", v.Scenario))
	}
	r := rt.Replay(s, v.Variant, v.Devs, true)
	for _, l := range r.Log {
		fmt.Println(l)
	}
	if r.Fail != nil {
		fmt.Println("FAIL", r.Fail.String())
		os.Exit(1)
	}
	if s.Cfg.Race && len(r.Races) > 0 {
		for k, x := range r.Races {
			fmt.Println("RACE", k, x)
		}
		os.Exit(1)
	}
	fmt.Println("no failure")
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "mc:", err)
	os.Exit(2)
}

package harness

import "vmc/rt"

// All is every scenario, in registration order.
var All []*rt.Scenario

func reg(s *rt.Scenario) { All = append(All, s) }

// ByName finds a scenario.
func ByName(n string) *rt.Scenario {
	for _, s := range All {
		if s.Name == n {
			return s
		}
	}
	return nil
}

// For lists the scenarios deciding a property.
func For(prop string) []*rt.Scenario {
	var out []*rt.Scenario
	for _, s := range All {
		for _, p := range s.Props {
			if p == prop {
				out = append(out, s)
			}
		}
	}
	return out
}

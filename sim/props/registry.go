// Package props holds the workloads and oracles, one per property.
package props

import "verifsim/core"

// Prop is one property's check.
type Prop struct {
	ID      string
	Run     core.Scenario
	Quick   int      // simulated runs in the quick tier
	Rule    string   // how runs are made and what makes one non-trivial
	Files   []string // library files whose statements are counted as reach
	Real    []string // components that ran real code
	Stub    []string // components that were simulated
	Faults  []string // fault kinds this check must see fire (probe against vacuity)
	Probes  []string // conditions this check must reach
	Measure string   // what the distinct-history count counts
}

// All is every property with a check.
var All = map[string]*Prop{}

func reg(p *Prop) {
	if All[p.ID] != nil {
		panic("duplicate property " + p.ID)
	}
	if p.Measure == "" {
		p.Measure = "hash of the ordered sequence of task switches, injected faults and operation outcomes of a run"
	}
	All[p.ID] = p
}

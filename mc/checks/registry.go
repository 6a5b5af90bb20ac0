// Package checks holds the scenarios of every property.
package checks

import (
	"sort"

	"verif/mc/engine"
)

type C = engine.C
type S = engine.Scenario

// Check is the set of scenarios that decide one property.
type Check struct {
	ID          string
	Assumptions []string
	Scenarios   func(thorough bool) []S
}

var all = map[string]*Check{}

func register(id string, assumptions []string, f func(thorough bool) []S) {
	if all[id] != nil {
		panic("duplicate " + id)
	}
	all[id] = &Check{ID: id, Assumptions: assumptions, Scenarios: f}
}

var more = map[string][]func(thorough bool) []S{}

// extend adds scenarios to a property.
func extend(id string, f func(thorough bool) []S) { more[id] = append(more[id], f) }

// Get returns a check by property id.
func Get(id string) *Check {
	ck := all[id]
	if ck == nil {
		return nil
	}
	cp := *ck
	cp.Scenarios = func(thorough bool) []S {
		var out []S
		for _, f := range more[id] {
			out = append(out, f(thorough)...)
		}
		return append(out, ck.Scenarios(thorough)...)
	}
	return &cp
}

// IDs lists all properties with a check.
func IDs() []string {
	var ids []string
	for id := range all {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Cold runs one interleaving in this process, before anything else of the
// library was used (C24 only).
var Cold func(spec string) string

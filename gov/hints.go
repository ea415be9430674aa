package main

// Recorded invariants: which candidates survived for a loop the last time. They only narrow
// the candidates that are tried first; every invariant used is proved again. When a function
// cannot be verified with them, all candidates are tried.

import (
	"encoding/json"
	"os"
	"sort"
)

var hints map[string][]string
var found = map[string]map[string]bool{}

func loadHints(file string) {
	b, err := os.ReadFile(file)
	if err == nil {
		json.Unmarshal(b, &hints)
	}
}

func saveHints(file string) {
	all := map[string][]string{}
	for k, v := range hints {
		all[k] = v
	}
	for k, m := range found {
		all[k] = sortedKeys(m)
		sort.Strings(all[k])
	}
	b, _ := json.MarshalIndent(all, "", " ")
	os.WriteFile(file, append(b, '\n'), 0644)
}

func anyFailed(obs []*Oblig) bool {
	for _, o := range obs {
		if o.status != "proved" {
			return true
		}
	}
	return false
}

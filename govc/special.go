package main

import "fmt"

// SpecialResult is the outcome of a harness decided by a dedicated back end.
type SpecialResult struct {
	err         string
	summary     string
	failed      []string
	obligations int
	engines     map[string]int
	queries     int
	solverTime  float64
	funcs       []string
	assumed     []string
	confirmed   *replayOut
}

func (p *Program) runSpecial(h *Harness, tier string) *SpecialResult {
	return &SpecialResult{err: fmt.Sprint("no back end called ", h.special)}
}

package main

import (
	"encoding/json"
	"fmt"
)

// Model is a counterexample in the form the native vc package reads.
type Model struct {
	Vars map[string]uint64              `json:"vars"`
	UFs  map[string][][]uint64          `json:"ufs"`
	Bits map[string]map[string][]uint64 `json:"bits"`
	Errs map[string]string              `json:"errs"`
}

func (m *Model) JSON() string { b, _ := json.Marshal(m); return string(b) }

func (x *Exec) model(v map[*Term]uint64) *Model {
	m := &Model{Vars: map[string]uint64{}, UFs: map[string][][]uint64{}, Bits: map[string]map[string][]uint64{}, Errs: map[string]string{}}
	val := func(t *Term) uint64 {
		if t.op == OConst {
			return t.k
		}
		return v[t]
	}
	for t, r := range v {
		switch t.op {
		case OVar:
			m.Vars[t.name] = r
		case OUF:
			var e []uint64
			for _, a := range t.args {
				e = append(e, val(a))
			}
			m.UFs[t.name] = append(m.UFs[t.name], append(e, r))
		case OSBits:
			if m.Bits[t.name] == nil {
				m.Bits[t.name] = map[string][]uint64{}
			}
			k := fmt.Sprint(val(t.args[0]))
			if old, ok := m.Bits[t.name][k]; ok && old[0] > uint64(t.w) {
				continue
			}
			m.Bits[t.name][k] = []uint64{uint64(t.w), r}
		}
	}
	for n, id := range x.errIDs {
		m.Errs[fmt.Sprint(id)] = n
	}
	return m
}

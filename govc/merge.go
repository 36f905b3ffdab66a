package main

// Joining control-flow paths: states that reach the same program point are
// merged into one, with path-dependent values behind guards.

import (
	"go/types"
	"strings"
)

func (x *Exec) noMerge() bool { return x.c != nil && x.c.Flags["nomerge"] != "" }

// join runs a statement, collects the states that fall out of it, merges them
// and continues once per group of states that can be merged.
func (x *Exec) join(st *State, run func(*State, func(*State)), next func(*State)) {
	if x.noMerge() {
		run(st, next)
		return
	}
	mark := st.pc
	inl := x.inl
	var outs []*State
	run(st, func(s *State) { outs = append(outs, s) })
	x.inl = inl
	for _, g := range x.groups(outs, nil) {
		m, _ := x.merge(mark, pick(outs, g), nil)
		next(m)
	}
}

func (x *Exec) groups(sts []*State, vals [][]Val) [][]int {
	var out [][]int
next:
	for i, s := range sts {
		for gi, g := range out {
			ok := compatible(sts[g[0]], s)
			if ok && vals != nil {
				if len(vals[g[0]]) != len(vals[i]) {
					ok = false
				} else {
					for j := range vals[i] {
						ok = ok && mergeable(vals[g[0]][j], vals[i][j])
					}
				}
			}
			if ok {
				out[gi] = append(g, i)
				continue next
			}
		}
		out = append(out, []int{i})
	}
	return out
}

func mergeable(a, b Val) bool {
	switch y := a.(type) {
	case *Term:
		z, ok := b.(*Term)
		return ok && y.Sort == z.Sort
	case *StructVal:
		z, ok := b.(*StructVal)
		if !ok {
			return false
		}
		for f, v := range y.Fields {
			if !mergeable(v, z.Fields[f]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func compatible(a, b *State) bool {
	if len(a.defers) != len(b.defers) || len(a.loopSet) != len(b.loopSet) {
		return false
	}
	for i := range a.defers {
		if len(a.defers[i]) != len(b.defers[i]) {
			return false
		}
		for j := range a.defers[i] {
			if a.defers[i][j].id != b.defers[i][j].id {
				return false
			}
		}
	}
	for o, v := range a.vars {
		if w, ok := b.vars[o]; ok && !mergeable(v, w) {
			return false
		}
	}
	return true
}

func nodesSince(s *State, mark *pcNode) []*pcNode {
	var out []*pcNode
	for n := s.pc; n != nil && n != mark; n = n.up {
		out = append(out, n)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) merge(mark *pcNode, sts []*State, vals [][]Val) (*State, []Val) {
	if len(sts) == 1 {
		if vals == nil {
			return sts[0], nil
		}
		return sts[0], vals[0]
	}
	extras := make([][]*pcNode, len(sts))
	count := map[string]int{}
	for i, s := range sts {
		extras[i] = nodesSince(s, mark)
	}
	for len(extras[0]) > 0 { // the part of the path the states share
		shared := true
		for _, e := range extras {
			if len(e) == 0 || e[0] != extras[0][0] {
				shared = false
			}
		}
		if !shared {
			break
		}
		mark = extras[0][0]
		for i := range extras {
			extras[i] = extras[i][1:]
		}
	}
	for i := range sts {
		seen := map[string]bool{}
		for _, n := range extras[i] {
			k := n.t.String()
			if !seen[k] {
				seen[k] = true
				count[k]++
			}
		}
	}
	m := sts[0].clone()
	m.pc = mark
	// guards
	gs := make([]*Term, len(sts))
	if len(sts) == 2 && len(extras[0]) > 0 && len(extras[1]) > 0 && same(extras[0][0].t, Not(extras[1][0].t)) {
		gs[0], gs[1] = extras[0][0].t, extras[1][0].t
	} else {
		for i := range sts {
			gs[i] = x.fresh("path", BoolS)
		}
		m.assume(Or(gs...))
	}
	done := map[string]bool{}
	for i := range sts {
		for _, n := range extras[i] {
			k := n.t.String()
			switch {
			case done[k]:
			case n.def:
				done[k] = true
				m.pc = &pcNode{t: n.t, up: m.pc, def: true}
			case count[k] == len(sts):
				done[k] = true
				m.assume(n.t)
			case same(n.t, gs[i]):
			default:
				m.assume(Imp(gs[i], n.t))
			}
		}
	}
	mergeTerms := func(hint string, ts []*Term) *Term {
		eq := true
		for _, t := range ts[1:] {
			if !same(t, ts[0]) {
				eq = false
			}
		}
		if eq {
			return ts[0]
		}
		v := ts[len(ts)-1]
		for i := len(ts) - 2; i >= 0; i-- {
			v = Ite(gs[i], ts[i], v)
		}
		if len(v.String()) < 60 && v.Sort == BoolS {
			return v
		}
		c := x.fresh(hint, v.Sort)
		m.define(c, v)
		return c
	}
	var mergeVals func(hint string, vs []Val) Val
	mergeVals = func(hint string, vs []Val) Val {
		switch y := vs[0].(type) {
		case *Term:
			ts := make([]*Term, len(vs))
			for i := range vs {
				ts[i] = vs[i].(*Term)
			}
			return mergeTerms(hint, ts)
		case *StructVal:
			n := &StructVal{T: y.T, Fields: map[string]Val{}}
			for _, f := range sortedKeys(y.Fields) {
				fs := make([]Val, len(vs))
				for i := range vs {
					fs[i] = vs[i].(*StructVal).Fields[f]
				}
				n.Fields[f] = mergeVals(hint+"."+f, fs)
			}
			return n
		}
		return vs[0]
	}
	// heap
	keys := map[string]*Term{}
	for _, s := range sts {
		for h, t := range s.heap {
			keys[h] = t
		}
	}
	for _, h := range sortedKeys(keys) {
		ts := make([]*Term, len(sts))
		for i, s := range sts {
			ts[i] = s.heap[h]
			if ts[i] == nil {
				n := "H0." + mangle(h)
				if strings.HasPrefix(h, "global.") {
					n = "G0." + mangle(h)
				}
				ts[i] = Const(n, keys[h].Sort)
			}
		}
		m.heap[h] = mergeTerms("M."+h, ts)
	}
	// ghosts and variables known on every path
	for _, g := range sortedKeys(m.ghost) {
		ts := make([]*Term, len(sts))
		ok := true
		for i, s := range sts {
			ts[i] = s.ghost[g]
			if ts[i] == nil || ts[i].Sort != ts[0].Sort {
				ok = false
			}
		}
		if !ok {
			delete(m.ghost, g)
			continue
		}
		m.ghost[g] = mergeTerms("g", ts)
	}
	for _, o := range sortedVars(m.vars) {
		vs := make([]Val, len(sts))
		ok := true
		for i, s := range sts {
			v, has := s.vars[o]
			vs[i] = v
			ok = ok && has
		}
		if !ok {
			delete(m.vars, o)
			continue
		}
		m.vars[o] = mergeVals(o.Name(), vs)
	}
	for _, s := range sts[1:] {
		for k, n := range s.calls {
			if n > m.calls[k] {
				m.calls[k] = n
			}
		}
		j := 0
		for j < len(m.trace) && j < len(s.trace) && m.trace[j] == s.trace[j] {
			j++
		}
		m.trace = m.trace[:j:j]
	}
	x.mergeInvs(m, sts)
	var out []Val
	if vals != nil {
		for j := range vals[0] {
			vs := make([]Val, len(sts))
			for i := range sts {
				vs[i] = vals[i][j]
			}
			out = append(out, mergeVals("r", vs))
		}
	}
	return m, out
}

// mergeInvs carries over the object invariants known on every merged path: the
// merged heap is one of theirs.
func (x *Exec) mergeInvs(m *State, sts []*State) {
	if x.lemma != nil || x.c == nil || x.c.Flags["noinv"] != "" {
		return
	}
	changed := false
	for h, t := range m.heap {
		if !strings.HasPrefix(h, "next.") && (sts[0].heap[h] == nil || !same(sts[0].heap[h], t)) {
			changed = true
		}
	}
	if !changed {
		return
	}
	var ts [][]invTerm
	for _, s := range sts {
		ts = append(ts, x.objInvTerms(s.clone(), false))
	}
	for i, inv := range x.objInvTerms(m, false) {
		if m.known(inv.t) {
			continue
		}
		ok := true
		for j, s := range sts {
			ok = ok && i < len(ts[j]) && ts[j][i].label == inv.label && s.known(ts[j][i].t)
		}
		if ok {
			m.assume(inv.t)
		}
	}
}

func sortedVars(m map[types.Object]Val) []types.Object {
	out := make([]types.Object, 0, len(m))
	for o := range m {
		out = append(out, o)
	}
	sortObjs(out)
	return out
}

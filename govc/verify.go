package main

// Verification of one function or lemma.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

func (v *Verifier) newExec(key string) *Exec {
	return &Exec{v: v, key: key, loopOrds: map[string]int{}, used: map[string]bool{}, pures: map[string]bool{},
		unmod: map[string]bool{}, seenObl: map[string]bool{}, usedLem: map[string]bool{}, mode: "ext"}
}

func (x *Exec) failObl(u unsupported) {
	x.obls = append(x.obls, &Obligation{Fn: x.key, Kind: "unsupported", Label: u.msg, Line: u.pos, Status: "failed", By: "front end"})
}

func (x *Exec) modTargets() []modTarget {
	if x.c == nil {
		return nil
	}
	if !x.modDone {
		x.modDone = true
		x.modCache = x.targetsOf(x.c, x.entryEnv())
	}
	return x.modCache
}

// verifyFn generates every obligation of a function.
func (v *Verifier) verifyFn(key string) (x *Exec) {
	x = v.newExec(key)
	d := v.decls[key]
	c := v.specs.Contracts[key]
	if d == nil {
		x.failObl(unsupported{0, "function " + key + " is not in the source"})
		return
	}
	if c == nil {
		c = &Contract{Key: key, Loops: map[int]*LoopSpec{}, Flags: map[string]string{}}
		n := d.sig.Params().Len()
		if d.sig.Recv() != nil {
			n++
		}
		for i := 0; i < n; i++ {
			c.Params = append(c.Params, fmt.Sprintf("p%d", i))
		}
		for i := 0; i < d.sig.Results().Len(); i++ {
			c.Results = append(c.Results, fmt.Sprintf("r%d", i))
		}
	}
	x.c, x.decl = c, d
	if m := c.Flags["mode"]; m != "" {
		x.mode = m
	}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			x.failObl(u)
		}
	}()
	x.obls = append(x.obls, v.aliasObls(key)...)
	x.numberLoops(d)
	st := newState()
	var args []TV
	if r := d.sig.Recv(); r != nil {
		args = append(args, TV{nil, r.Type()})
	}
	for i := 0; i < d.sig.Params().Len(); i++ {
		args = append(args, TV{nil, d.sig.Params().At(i).Type()})
	}
	if len(args) != len(c.Params) {
		x.fail(d.body.Pos(), "contract of %s names %d parameters, the function has %d", key, len(c.Params), len(args))
	}
	if d.sig.Results().Len() != len(c.Results) {
		x.fail(d.body.Pos(), "contract of %s names %d results, the function has %d", key, len(c.Results), d.sig.Results().Len())
	}
	x.params = map[string]TV{}
	for i := range args {
		n := c.Params[i]
		args[i].V = x.freshVal(st, "p."+n, args[i].Ty)
		x.params[n] = args[i]
	}
	if d.sig.Recv() != nil {
		if _, ok := types.Unalias(d.sig.Recv().Type()).(*types.Pointer); ok && c.Flags["nilrecv"] == "" {
			// methods are called on non-nil receivers; calling one on nil is the caller's panic
			st.assume(Lt(IntLit(0), args[0].V.(*Term)))
		}
	}
	x.assumeAxioms(st)
	x.entry = st.clone()
	env := x.entryEnv()
	for _, r := range c.Requires {
		st.assume(x.specBool(r.E, env))
	}
	if c.Flags["noinv"] == "" {
		x.assumeObjInvsBut(st, c.Opens)
	}
	for h, t := range x.entry.heap {
		if st.heap[h] == nil {
			st.heap[h] = t
		}
	}
	for _, h := range sortedKeys(st.heap) {
		if x.entry.heap[h] == nil {
			x.entry.heap[h] = st.heap[h]
		}
	}
	x.cover(st, "entry", d.body.Pos())
	x.hints(st, c.Hints, "entry", d.body.Lbrace+1)
	nexit := 0
	x.runFn(st, d, args, func(st *State, rs []Val, pos token.Pos) {
		nexit++
		x.exit(st, rs, pos)
	})
	if nexit == 0 && c.Flags["noreturn"] == "" {
		x.oblige(st, "exit", "no exit reached", False, d.body.Pos())
	}
	return
}

func (x *Exec) exit(st *State, rs []Val, pos token.Pos) {
	if x.collect > 0 {
		return
	}
	c := x.c
	env := &SEnv{x: x, st: st, vars: map[string]TV{}, olds: map[string]*State{"old": x.entry}}
	for n, tv := range x.params {
		env.vars[n] = tv
	}
	for i, n := range c.Results {
		t := x.asTerm(st, rs[i], x.decl.sig.Results().At(i).Type())
		if len(t.String()) > 60 {
			t = x.name(st, t, "res")
		}
		rt := x.decl.sig.Results().At(i).Type()
		env.vars[n] = TV{x.v.unpack(t, rt), rt}
	}
	x.coverOnce(st, fmt.Sprintf("exit@%d", x.v.fset.Position(pos).Line), pos)
	if len(st.defers) != 0 {
		x.fail(pos, "internal: defers left")
	}
	for _, u := range c.Updates {
		t := x.specTerm(u.E, env)
		m := x.targetOf(u.Target, env)[0]
		if m.ref == nil {
			x.heapSet(st, m.key, t)
			continue
		}
		x.heapSet(st, m.key, Store(x.heapGet(st, m.key, arrSort(IntS, m.sort)), m.ref, t))
	}
	x.nameHeap(st)
	for _, h := range c.Hints {
		if h.Where == "return" {
			e2 := x.envAt(st, x.decl.body.Rbrace)
			for _, n := range c.Results {
				e2.vars[n] = env.vars[n]
			}
			x.applyHint(st, h, e2, pos)
		}
	}
	changed := false
	for _, h := range sortedKeys(st.heap) {
		if ent := x.entry.heap[h]; ent == nil || !same(ent, st.heap[h]) {
			if ent == nil && (st.heap[h].Op == "H0."+mangle(h) || st.heap[h].Op == "G0."+mangle(h)) {
				continue
			}
			changed = true
			if strings.HasPrefix(h, "next.") {
				tn := strings.TrimPrefix(h, "next.")
				ok := false
				for _, a := range c.Allocates {
					if a == tn {
						ok = true
					}
				}
				if !ok {
					x.oblige(st, "frame", "allocates "+tn, Eq(st.heap[h], x.nextOf(x.entry, tn)), pos)
				}
				continue
			}
			if f := x.frameFormula(st, h); f != nil {
				x.tagged(h, func() { x.oblige(st, "frame", h, f, pos) })
			}
		}
	}
	if changed && c.Flags["noinv"] == "" {
		x.assertObjInvs(st, "exit", pos)
	}
	for i, e := range c.Ensures {
		lab := e.Label
		if lab == "update" {
			continue // the ghost assignment above makes it so
		}
		if lab == "" {
			lab = fmt.Sprint(i)
		}
		x.tagged(sexprString(e.E), func() { x.obligeP(st, "ensures", lab, e.Props, x.specBool(e.E, env), pos) })
	}
}

// ---- lemmas ----

func (v *Verifier) verifyLemma(name string) (x *Exec) {
	l := v.specs.Lemmas[name]
	x = v.newExec("lemma " + name)
	x.lemma = l
	if m := l.Flags["mode"]; m != "" {
		x.mode = m
	}
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupported)
			if !ok {
				panic(r)
			}
			x.failObl(u)
		}
	}()
	if l.Flags["assumed"] != "" {
		return
	}
	st := newState()
	env := &SEnv{x: x, st: st, vars: map[string]TV{}, olds: map[string]*State{}}
	for _, p := range l.Params {
		ty := v.parseType(p.Type)
		c := x.fresh(p.Name, v.sortOfSpec(ty))
		env.vars[p.Name] = TV{v.unpack(c, ty), ty}
	}
	x.assumeAxioms(st)
	for _, r := range l.Requires {
		st.assume(x.specBool(r.E, env))
	}
	x.cover(st, "lemma "+name, token.NoPos)
	var dec0 []*Term
	for _, d := range l.Dec {
		dec0 = append(dec0, x.specTerm(d, env))
	}
	x.proof(st, l.Proof, env, dec0)
	for i, e := range l.Ensures {
		lab := e.Label
		if lab == "" {
			lab = fmt.Sprint(i)
		}
		x.obligeP(st, "lemma", lab, e.Props, x.specBool(e.E, env), token.NoPos)
	}
	return
}

// proof runs proof statements, adding facts to st.
func (x *Exec) proof(st *State, ss []LStmt, env *SEnv, dec0 []*Term) {
	for _, s := range ss {
		switch s := s.(type) {
		case *LAssert:
			x.oblige(st, "lemma-assert", fmt.Sprintf("line %d", s.Line), x.specBool(s.E, env.at(st)), token.NoPos)
		case *LCall:
			x.lemmaCall(st, s, env.at(st), dec0, True)
		case *LIf:
			c := x.specBool(s.C, env.at(st))
			for i, b := range [][]LStmt{s.A, s.B} {
				g := c
				if i == 1 {
					g = Not(c)
				}
				s2 := st.clone()
				s2.assume(g)
				mark := s2.pc
				x.proof(s2, b, env, dec0)
				for _, f := range factsSince(s2, mark) {
					st.assume(Imp(g, f))
				}
			}
		case *LForall:
			en := env
			var bvs, cs []*Term
			for _, q := range s.Vars {
				ty := x.v.parseType(q.Type)
				c := x.fresh(q.Name, x.v.sortOfSpec(ty))
				x.nfresh++
				bvs = append(bvs, BVar(fmt.Sprintf("%s_g%d", mangle(q.Name), x.nfresh), c.Sort))
				cs = append(cs, c)
				en = en.with(q.Name, TV{x.v.unpack(c, ty), ty})
			}
			s2 := st.clone()
			req := True
			if s.Req != nil {
				req = x.specBool(s.Req, en.at(s2))
			}
			s2.assume(req)
			x.proof(s2, s.Body, en, dec0)
			ens := x.specBool(s.Ens, en.at(s2))
			x.oblige(s2, "lemma-forall", fmt.Sprintf("line %d", s.Line), ens, token.NoPos)
			f := Imp(req, ens)
			var trig [][]*Term
			for _, tr := range s.Trig {
				var ts []*Term
				for _, t := range tr {
					ts = append(ts, x.specTerm(t, en.at(st)))
				}
				trig = append(trig, ts)
			}
			for i := range cs {
				f = subst(f, cs[i], bvs[i])
				for _, tr := range trig {
					for j := range tr {
						tr[j] = subst(tr[j], cs[i], bvs[i])
					}
				}
			}
			if len(trig) == 0 {
				trig = autoTriggers(bvs, f)
			}
			st.assume(Forall(bvs, trig, f))
		}
	}
}

func (x *Exec) lemmaCall(st *State, s *LCall, env *SEnv, dec0 []*Term, guard *Term) {
	l := x.v.specs.Lemmas[s.Name]
	if l == nil {
		specErr(s.Line, "unknown lemma %s", s.Name)
	}
	req, ens := x.lemmaInst(s.Name, s.Args, env, s.Line)
	if x.lemma != nil {
		if l == x.lemma {
			e2 := &SEnv{x: x, st: st, vars: map[string]TV{}, olds: map[string]*State{}}
			for i, p := range l.Params {
				a := x.specEval(s.Args[i], env)
				ty := x.v.parseType(p.Type)
				if isNilType(a.Ty) {
					a.V = x.nilOf(ty)
				}
				a.Ty = ty
				e2.vars[p.Name] = a
			}
			var d1 []*Term
			for _, d := range l.Dec {
				d1 = append(d1, x.specTerm(d, e2))
			}
			if len(d1) == 0 {
				x.oblige(st, "decreases", s.Name, False, token.NoPos)
			} else {
				x.oblige(st, "decreases", s.Name, lexLess(d1, dec0), token.NoPos)
			}
		} else if x.v.lemOrd[l.Name] >= x.v.lemOrd[x.lemma.Name] {
			specErr(s.Line, "lemma %s is used before it is proved", s.Name)
		}
	}
	x.oblige(st, "lemma-pre", s.Name, req, token.NoPos)
	st.assume(ens)
}

// checkRec makes sure a recursive specification function is well founded: some
// integer parameter p guards the recursion (if p <= 0 then base else ...) and
// every recursive call passes p - k, k >= 1.
func (v *Verifier) checkRec(f *SpecFn) error {
	for _, u := range usedFns(f.Body) {
		if g := v.specs.Fns[u]; g != nil && (u != f.Name || f.Def || !f.Rec) && g.Seq >= f.Seq {
			return fmt.Errorf("%s uses %s, which is not defined before it", f.Name, u)
		}
	}
	if !f.Rec || f.Def {
		return nil
	}
	if tailRec(f, f.Body, true) {
		for _, u := range usedFns(f.Body) {
			if g := v.specs.Fns[u]; u != f.Name && g != nil && g.Rec && g.Seq >= f.Seq {
				return fmt.Errorf("rec %s uses %s, which is not defined before it", f.Name, u)
			}
		}
		return nil
	}
	top, ok := f.Body.(*SIf)
	if !ok {
		return fmt.Errorf("rec %s: body must be 'if p <= 0 then ... else ...'", f.Name)
	}
	b, ok := top.C.(*SBin)
	if !ok || b.Op != "<=" {
		return fmt.Errorf("rec %s: guard must be p <= 0", f.Name)
	}
	id, ok := b.X.(*SIdent)
	z, ok2 := b.Y.(*SInt)
	if !ok || !ok2 || z.V != "0" {
		return fmt.Errorf("rec %s: guard must be p <= 0", f.Name)
	}
	pi := -1
	for i, p := range f.Params {
		if p.Name == id.Name {
			pi = i
		}
	}
	if pi < 0 {
		return fmt.Errorf("rec %s: guard must test a parameter", f.Name)
	}
	var bad error
	var walk func(e SExpr, base bool)
	walk = func(e SExpr, base bool) {
		switch e := e.(type) {
		case *SBin:
			walk(e.X, base)
			walk(e.Y, base)
		case *SUn:
			walk(e.X, base)
		case *SCall:
			if e.Fun == f.Name {
				a, ok := e.Args[pi].(*SBin)
				okk := false
				if ok && a.Op == "-" {
					x, ok1 := a.X.(*SIdent)
					n, ok2 := a.Y.(*SInt)
					okk = ok1 && ok2 && x.Name == id.Name && n.V != "0"
				}
				if base || !okk {
					bad = fmt.Errorf("rec %s: recursive call does not decrease %s", f.Name, id.Name)
				}
			} else if g := v.specs.Fns[e.Fun]; g != nil && g.Rec && g.Seq >= f.Seq {
				bad = fmt.Errorf("rec %s uses %s, which is not defined before it", f.Name, e.Fun)
			}
			for _, a := range e.Args {
				walk(a, base)
			}
		case *SSel:
			walk(e.X, base)
		case *SIndex:
			walk(e.X, base)
			walk(e.I, base)
		case *SSlice:
			walk(e.X, base)
			if e.Lo != nil {
				walk(e.Lo, base)
			}
			if e.Hi != nil {
				walk(e.Hi, base)
			}
		case *SLet:
			walk(e.E, base)
			walk(e.B, base)
		case *SIf:
			walk(e.C, base)
			walk(e.A, base)
			walk(e.B, base)
		case *SQuant:
			walk(e.Body, base)
		}
	}
	walk(top.A, true)
	walk(top.B, false)
	return bad
}

// lemmaClosure: the lemmas a set of executions relied on, transitively.
func (v *Verifier) lemmaClosure(start map[string]bool) []string {
	seen := map[string]bool{}
	var walk func(n string)
	var stm func(ss []LStmt)
	stm = func(ss []LStmt) {
		for _, s := range ss {
			switch s := s.(type) {
			case *LCall:
				walk(s.Name)
			case *LIf:
				stm(s.A)
				stm(s.B)
			case *LForall:
				stm(s.Body)
			}
		}
	}
	walk = func(n string) {
		if seen[n] || v.specs.Lemmas[n] == nil {
			return
		}
		seen[n] = true
		stm(v.specs.Lemmas[n].Proof)
	}
	for n := range start {
		walk(n)
	}
	var out []string
	for n := range seen {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// assumeAxioms adds the stated assumptions about package-level variables.
func (x *Exec) assumeAxioms(st *State) {
	for _, a := range x.v.axioms {
		st.assume(a.t)
	}
}

// tailRec: every recursive call is the result of the body.  The defining
// equation of such a function always has a solution (the value reached, or any
// value where the recursion does not end), so it cannot be contradictory.
func tailRec(f *SpecFn, e SExpr, tail bool) bool {
	switch e := e.(type) {
	case *SIf:
		return tailRec(f, e.C, false) && tailRec(f, e.A, tail) && tailRec(f, e.B, tail)
	case *SLet:
		return tailRec(f, e.E, false) && tailRec(f, e.B, tail)
	case *SCall:
		if e.Fun == f.Name {
			for _, a := range e.Args {
				if !tailRec(f, a, false) {
					return false
				}
			}
			return tail
		}
	}
	for _, u := range usedFns(e) {
		if u == f.Name {
			return false
		}
	}
	return true
}

// usedFns lists the functions an expression applies.
func usedFns(e SExpr) []string {
	var out []string
	var walk func(e SExpr)
	walk = func(e SExpr) {
		switch e := e.(type) {
		case *SBin:
			walk(e.X)
			walk(e.Y)
		case *SUn:
			walk(e.X)
		case *SCall:
			out = append(out, e.Fun)
			for _, a := range e.Args {
				walk(a)
			}
		case *SSel:
			walk(e.X)
		case *SProj:
			walk(e.X)
		case *SIndex:
			walk(e.X)
			walk(e.I)
		case *SSlice:
			walk(e.X)
			if e.Lo != nil {
				walk(e.Lo)
			}
			if e.Hi != nil {
				walk(e.Hi)
			}
		case *SQuant:
			walk(e.Body)
			for _, t := range e.Trig {
				for _, u := range t {
					walk(u)
				}
			}
		case *SLet:
			walk(e.E)
			walk(e.B)
		case *SIf:
			walk(e.C)
			walk(e.A)
			walk(e.B)
		case *SOld:
			walk(e.E)
		}
	}
	walk(e)
	return out
}

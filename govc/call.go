package main

// Calls: builtins, conversions, contracts, inlining, function values.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strconv"
	"strings"
)

func fnKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			return "(*" + typeName(p.Elem()) + ")." + f.Name()
		}
		return "(" + typeName(t) + ")." + f.Name()
	}
	return f.Name()
}

func extKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := types.Unalias(r.Type())
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		return typeName(t) + "." + f.Name()
	}
	return f.Pkg().Name() + "." + f.Name()
}

// calleeDecl resolves a call to a declaration of the package under test.
func (v *Verifier) calleeDecl(c *ast.CallExpr) *FnDecl {
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		if o, ok := v.info.Uses[f].(*types.Func); ok && o.Pkg() == v.pkg {
			return v.decls[fnKey(o)]
		}
	case *ast.SelectorExpr:
		if o, ok := v.info.Uses[f.Sel].(*types.Func); ok && o.Pkg() == v.pkg {
			return v.decls[fnKey(o)]
		}
	}
	return nil
}

type invoker func(st *State, k func(*State, []Val))

func (x *Exec) evalCall(st *State, c *ast.CallExpr, k func(*State, []Val)) {
	x.prepareCall(st, c, func(st *State, inv invoker) { inv(st, k) })
}

func done(vs ...Val) invoker {
	return func(st *State, k func(*State, []Val)) { k(st, vs) }
}

func (x *Exec) prepareCall(st *State, c *ast.CallExpr, k func(*State, invoker)) {
	info := x.v.info
	fun := unparen(c.Fun)
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		x.eval(st, c.Args[0], func(st *State, v Val) {
			k(st, done(x.convert(st, v, info.TypeOf(c.Args[0]), tv.Type, c.Pos())))
		})
		return
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			x.builtin(st, b.Name(), c, k)
			return
		}
	}
	sig, ok := types.Unalias(info.TypeOf(fun)).Underlying().(*types.Signature)
	if !ok {
		x.fail(c.Pos(), "call of %s", info.TypeOf(fun))
	}
	switch f := fun.(type) {
	case *ast.Ident:
		switch o := info.Uses[f].(type) {
		case *types.Func:
			x.evalArgs(st, c, sig, func(st *State, args []TV) { k(st, x.static(o, args, sig, c)) })
			return
		}
	case *ast.SelectorExpr:
		sel := info.Selections[f]
		if sel == nil {
			if o, ok := info.Uses[f.Sel].(*types.Func); ok {
				x.evalArgs(st, c, sig, func(st *State, args []TV) { k(st, x.static(o, args, sig, c)) })
				return
			}
		} else if sel.Kind() == types.MethodVal {
			m := sel.Obj().(*types.Func)
			x.evalRecv(st, f, sel, m, func(st *State, recv TV) {
				x.evalArgs(st, c, sig, func(st *State, args []TV) {
					k(st, x.static(m, append([]TV{recv}, args...), sig, c))
				})
			})
			return
		}
	}
	// function value
	x.eval(st, fun, func(st *State, fv Val) {
		x.evalArgs(st, c, sig, func(st *State, args []TV) {
			k(st, func(st *State, k func(*State, []Val)) { x.callValue(st, fv, args, sig, c, k) })
		})
	})
}

// evalRecv evaluates a method receiver, following embedded fields and taking
// the address or dereferencing as the method requires.
func (x *Exec) evalRecv(st *State, f *ast.SelectorExpr, sel *types.Selection, m *types.Func, k func(*State, TV)) {
	rt := m.Type().(*types.Signature).Recv().Type()
	t := x.v.info.TypeOf(f.X)
	x.placeOf(st, f.X, func(st *State, p *place) {
		idx := sel.Index()
		for _, ix := range idx[:len(idx)-1] {
			if pe, ok := ptrElem(t); ok {
				ref := x.loadPlace(st, p).(*Term)
				x.derefOK(st, ref, f.Sel.Pos(), "."+f.Sel.Name)
				s := types.Unalias(pe).Underlying().(*types.Struct)
				p = &place{kind: "heap", ref: ref, prefix: typeName(pe) + "." + s.Field(ix).Name(), typ: s.Field(ix).Type(), pos: f.Pos()}
				t = s.Field(ix).Type()
				continue
			}
			s, ok := types.Unalias(t).Underlying().(*types.Struct)
			if !ok {
				x.fail(f.Pos(), "embedded receiver")
			}
			if p.kind == "heap" {
				p = &place{kind: "heap", ref: p.ref, prefix: p.prefix + "." + s.Field(ix).Name(), typ: s.Field(ix).Type(), pos: f.Pos()}
			} else {
				p = &place{kind: "field", base: p, field: s.Field(ix).Name(), typ: s.Field(ix).Type(), pos: f.Pos()}
			}
			t = s.Field(ix).Type()
		}
		if isInterface(t) {
			v := x.loadPlace(st, p).(*Term)
			if _, ok := types.Unalias(t).(*types.TypeParam); !ok {
				if !st.known(Not(Eq(v, App("iface.nil", IfaceS)))) {
					x.oblige(st, "nil", "."+f.Sel.Name, Not(Eq(v, App("iface.nil", IfaceS))), f.Sel.Pos())
				}
			}
			k(st, TV{v, t})
			return
		}
		_, wantPtr := types.Unalias(rt).(*types.Pointer)
		_, havePtr := types.Unalias(t).Underlying().(*types.Pointer)
		switch {
		case wantPtr && havePtr:
			v := x.loadPlace(st, p)
			if x.v.isExtern(m) {
				x.derefOK(st, v.(*Term), f.Sel.Pos(), "."+f.Sel.Name)
			}
			k(st, TV{v, t})
		case wantPtr && !havePtr:
			if x.v.externObj(t) {
				if p.kind == "heap" {
					k(st, TV{p.ref, types.NewPointer(t)})
					return
				}
				k(st, TV{x.loadPlace(st, p), types.NewPointer(t)})
				return
			}
			x.fail(f.Pos(), "pointer method on a %s value", t)
		case !wantPtr && havePtr:
			pe, _ := ptrElem(t)
			ref := x.loadPlace(st, p).(*Term)
			x.derefOK(st, ref, f.Sel.Pos(), "."+f.Sel.Name)
			if x.v.structOf(pe) == nil {
				k(st, TV{ref, pe})
				return
			}
			k(st, TV{x.readField(st, typeName(pe), pe, ref), pe})
		default:
			k(st, TV{x.loadPlace(st, p), t})
		}
	})
}

func (v *Verifier) isExtern(m *types.Func) bool { return m.Pkg() != v.pkg }

func (x *Exec) evalArgs(st *State, c *ast.CallExpr, sig *types.Signature, k func(*State, []TV)) {
	x.evalMulti(st, c.Args, func(st *State, vs []Val, ts []types.Type) {
		np := sig.Params().Len()
		var out []TV
		for i := 0; i < np; i++ {
			pt := sig.Params().At(i).Type()
			if sig.Variadic() && i == np-1 {
				if c.Ellipsis.IsValid() {
					out = append(out, TV{x.coerce(st, vs[i], ts[i], pt), pt})
					break
				}
				et := pt.(*types.Slice).Elem()
				srt := x.v.sortOf(pt)
				acc := SeqEmpty(srt)
				for j := i; j < len(vs); j++ {
					cv := x.coerce(st, vs[j], ts[j], et)
					acc = SeqSnoc(acc, x.asTerm(st, cv, et))
				}
				out = append(out, TV{acc, pt})
				break
			}
			out = append(out, TV{x.coerce(st, vs[i], ts[i], pt), pt})
		}
		k(st, out)
	})
}

// static calls a declared function or method.
func (x *Exec) static(o *types.Func, args []TV, sig *types.Signature, c *ast.CallExpr) invoker {
	v := x.v
	if o.Pkg() == v.pkg {
		// interface method of a package interface
		if r := o.Type().(*types.Signature).Recv(); r != nil && isInterface(r.Type()) {
			return x.named(typeName(r.Type())+"."+o.Name(), args, sig, c)
		}
		key := fnKey(o)
		d := v.decls[key]
		ct := v.specs.Contracts[key]
		if ct != nil && ct.Flags["inline"] == "" {
			return func(st *State, k func(*State, []Val)) { x.contractCall(st, key, ct, d, args, sig, c.Pos(), k) }
		}
		if d == nil {
			x.fail(c.Pos(), "no body for %s", key)
		}
		return func(st *State, k func(*State, []Val)) { x.inline(st, d, args, c, k) }
	}
	return x.named(extKey(o), args, sig, c)
}

// named calls a library function or an interface method through its
// (trusted) contract, or leaves its result arbitrary.
func (x *Exec) named(key string, args []TV, sig *types.Signature, c *ast.CallExpr) invoker {
	ct := x.v.specs.Contracts[key]
	if ct == nil {
		return func(st *State, k func(*State, []Val)) {
			if x.unmod != nil {
				x.unmod[key] = true
			}
			k(st, x.freshResults(st, sig, key))
		}
	}
	return func(st *State, k func(*State, []Val)) { x.contractCall(st, key, ct, nil, args, sig, c.Pos(), k) }
}

func (x *Exec) freshResults(st *State, sig *types.Signature, hint string) []Val {
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		if pe, ok := ptrElem(rt); ok && x.v.structOf(pe) == nil && !x.v.externObj(pe) {
			rs = append(rs, x.fresh(hint, IntS))
			continue
		}
		rs = append(rs, x.freshVal(st, "r."+hint, rt))
	}
	return rs
}

// callValue calls a function value.
func (x *Exec) callValue(st *State, fv Val, args []TV, sig *types.Signature, c *ast.CallExpr, k func(*State, []Val)) {
	switch f := fv.(type) {
	case *ClosureVal:
		d := &FnDecl{key: "func literal", typ: f.Lit.Type, body: f.Lit.Body, sig: f.Sig}
		x.inline(st, d, args, c, k)
		return
	case *Term:
		x.oblige(st, "nil", "call of nil function", Not(Eq(f, App("fn.nil", FnS))), c.Pos())
		k(st, x.fnApply(st, f, args, sig))
		return
	}
	x.fail(c.Pos(), "call of a %T", fv)
}

// fnApply: user-supplied functions are total and have no effect on the file.
func (x *Exec) fnApply(st *State, f *Term, args []TV, sig *types.Signature) []Val {
	var ts []*Term
	var as []string
	for _, a := range args {
		t := x.asTerm(st, a.V, a.Ty)
		ts = append(ts, t)
		as = append(as, string(t.Sort))
	}
	var rs []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		s := x.v.sortOf(rt)
		n := fnApplySym(i, as, s)
		r := App(n, s, append([]*Term{f}, ts...)...)
		x.typeFacts(st, r, rt)
		rs = append(rs, x.v.unpack(r, rt))
	}
	return rs
}

func fnApplySym(i int, as []string, s Sort) string {
	n := fmt.Sprintf("fn.apply%d.%s.%s", i, mangle(strings.Join(as, ".")), mangle(string(s)))
	if pfuns[n] == nil {
		pfuns[n] = &pfun{n, append([]string{"Fn"}, as...), string(s)}
	}
	return n
}

// closureTerm summarises a function literal as a function value, by executing
// its body for arbitrary arguments.
func (x *Exec) closureTerm(st *State, cv *ClosureVal) *Term {
	f := x.fresh("closure", FnS)
	st.assume(Not(Eq(f, App("fn.nil", FnS))))
	s2 := st.clone()
	var args []TV
	var bvs, cs []*Term
	var as []string
	for i := 0; i < cv.Sig.Params().Len(); i++ {
		pt := cv.Sig.Params().At(i).Type()
		c := x.fresh("arg", x.v.sortOf(pt))
		cs = append(cs, c)
		bvs = append(bvs, BVar(fmt.Sprintf("b%d.%s", i, mangle(c.Op)), c.Sort))
		as = append(as, string(c.Sort))
		args = append(args, TV{c, pt})
	}
	mark := s2.pc
	n0 := x.nfresh
	d := &FnDecl{key: "func literal", typ: cv.Lit.Type, body: cv.Lit.Body, sig: cv.Sig}
	sub := func(t *Term) *Term {
		for i := range cs {
			t = subst(t, cs[i], bvs[i])
		}
		return t
	}
	before := st
	var facts []*Term
	var paths []clPath
	x.inline(s2, d, args, nil, func(s *State, rs []Val) {
		if !sameHeap(before, s) {
			x.fail(cv.Lit.Pos(), "function literal with effects used as a value")
		}
		p := clPath{facts: factsSince(s, mark)}
		for i, r := range rs {
			p.res = append(p.res, x.asTerm(s, r, cv.Sig.Results().At(i).Type()))
		}
		// eliminate the constants the execution introduced and defined
		for again := true; again; {
			again = false
			for _, q := range p.facts {
				if q.Op != "=" || len(q.Args) != 2 {
					continue
				}
				c, e := q.Args[0], q.Args[1]
				if !freshAfter(c, n0) {
					c, e = e, c
				}
				if freshAfter(c, n0) && !occurs(c, e) {
					p.subst(c, e)
					again = true
					break
				}
			}
		}
		paths = append(paths, p)
	})
	for _, p := range paths {
		// what the contracts leave open about a result becomes a statement about the function's value
		var aps []*Term
		for i := range p.res {
			t := p.res[i]
			ap := App(fnApplySym(i, as, t.Sort), t.Sort, append([]*Term{f}, bvs...)...)
			aps = append(aps, ap)
			if len(paths) == 1 && freshAfter(t, n0) {
				p.subst(t, ap)
			}
		}
		guard := And(p.facts...)
		if anyFresh(guard, n0) {
			continue
		}
		for i, t := range p.res {
			if anyFresh(t, n0) {
				continue
			}
			body := App("=", BoolS, aps[i], sub(t))
			if aps[i] == t {
				body = True
			}
			if len(paths) == 1 {
				body = And(sub(guard), body)
			} else {
				body = Imp(sub(guard), body)
			}
			facts = append(facts, Forall(bvs, [][]*Term{{aps[i]}}, body))
		}
	}
	for _, t := range facts {
		st.assume(t)
	}
	return f
}

type clPath struct{ facts, res []*Term }

func (p *clPath) subst(c, e *Term) {
	for j := range p.facts {
		p.facts[j] = subst(p.facts[j], c, e)
		if q := p.facts[j]; q.Op == "=" && len(q.Args) == 2 && q.Args[0] == q.Args[1] {
			p.facts[j] = True
		}
	}
	for j := range p.res {
		p.res[j] = subst(p.res[j], c, e)
	}
}

// freshAfter: t is a constant introduced after the counter stood at n.
func freshAfter(t *Term, n int) bool {
	if len(t.Args) > 0 {
		return false
	}
	i := strings.LastIndexByte(t.Op, '!')
	if i < 0 {
		return false
	}
	k, err := strconv.Atoi(t.Op[i+1:])
	return err == nil && k > n
}

func anyFresh(t *Term, n int) bool {
	if freshAfter(t, n) {
		return true
	}
	for _, a := range t.Args {
		if anyFresh(a, n) {
			return true
		}
	}
	return false
}

func occurs(c, t *Term) bool {
	if t.Op == c.Op && len(t.Args) == 0 {
		return true
	}
	for _, a := range t.Args {
		if occurs(c, a) {
			return true
		}
	}
	return false
}

func subst(t, from, to *Term) *Term {
	if t.Kind == from.Kind && t.Op == from.Op && len(t.Args) == 0 {
		return to
	}
	if len(t.Args) == 0 {
		return t
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = subst(a, from, to)
		if args[i] != a {
			ch = true
		}
	}
	trig := t.Trig
	if len(t.Trig) > 0 {
		trig = nil
		for _, tr := range t.Trig {
			var n []*Term
			for _, y := range tr {
				z := subst(y, from, to)
				if z != y {
					ch = true
				}
				n = append(n, z)
			}
			trig = append(trig, n)
		}
	}
	if !ch {
		return t
	}
	return &Term{Kind: t.Kind, Op: t.Op, Args: args, Sort: t.Sort, Vars: t.Vars, Trig: trig}
}

// ---- inlining ----

func (x *Exec) curSig() *types.Signature {
	if len(x.inl) > 0 {
		return x.inl[len(x.inl)-1].decl.sig
	}
	return x.decl.sig
}

func (x *Exec) coerceResults(st *State, vs []Val, ts []types.Type) []Val {
	sig := x.curSig()
	if sig.Results().Len() != len(vs) {
		x.fail(token.NoPos, "result count")
	}
	out := make([]Val, len(vs))
	for i := range vs {
		out[i] = x.coerce(st, vs[i], ts[i], sig.Results().At(i).Type())
	}
	return out
}

func (x *Exec) resultVars(d *FnDecl) []*types.Var {
	var out []*types.Var
	for i := 0; i < d.sig.Results().Len(); i++ {
		out = append(out, d.sig.Results().At(i))
	}
	return out
}

// runBody executes a function body with its parameters bound and calls k with
// the results after running the deferred calls.
func (x *Exec) runFn(st *State, d *FnDecl, args []TV, k func(*State, []Val, token.Pos)) {
	sig := d.sig
	i := 0
	if r := sig.Recv(); r != nil {
		if r.Name() != "" && r.Name() != "_" {
			x.varSet(st, r, args[0].V)
		}
		i = 1
	}
	for j := 0; j < sig.Params().Len(); j++ {
		p := sig.Params().At(j)
		if p.Name() != "" && p.Name() != "_" {
			x.varSet(st, p, args[i+j].V)
		}
	}
	named := false
	for _, r := range x.resultVars(d) {
		if r.Name() != "" {
			named = true
			if r.Name() != "_" {
				x.varSet(st, r, x.zeroVal(st, r.Type()))
			} else {
				st.vars[r] = x.zeroVal(st, r.Type())
			}
		}
	}
	st.defers = append(st.defers, nil)
	ret := func(st *State, vs []Val, pos token.Pos) {
		if named && vs != nil {
			for i, r := range x.resultVars(d) {
				st.vars[r] = vs[i]
			}
		}
		top := len(st.defers) - 1
		ds := st.defers[top]
		var run func(st *State, i int)
		run = func(st *State, i int) {
			if i < 0 {
				st.defers = st.defers[:top:top]
				if named {
					vs = nil
					for _, r := range x.resultVars(d) {
						vs = append(vs, st.vars[r])
					}
				}
				k(st, vs, pos)
				return
			}
			ds[i].run(st, func(st *State) { run(st, i-1) })
		}
		run(st, len(ds)-1)
	}
	x.execBlock(st, d.body.List, Cont{
		next: func(st *State) {
			if sig.Results().Len() > 0 && !named {
				x.fail(d.body.Rbrace, "missing return")
			}
			ret(st, nil, d.body.Rbrace)
		},
		ret: ret,
		brk: map[string]func(*State){},
		cnt: map[string]func(*State){},
	})
}

func (x *Exec) inline(st *State, d *FnDecl, args []TV, c *ast.CallExpr, k func(*State, []Val)) {
	if d.body == nil {
		x.fail(token.NoPos, "%s has no body", d.key)
	}
	for _, f := range x.inl {
		if f.decl.body == d.body {
			x.fail(d.body.Pos(), "recursive call of %s, which has no contract", d.key)
		}
	}
	if d.body == x.decl.body {
		x.fail(d.body.Pos(), "recursive call of %s, which has no contract", d.key)
	}
	pos := d.body.Pos()
	if c != nil {
		pos = c.Pos()
	}
	outer := x.inl
	x.inl = append(outer[:len(outer):len(outer)], inlFrame{decl: d, pos: pos, id: fmt.Sprint(pos)})
	mine := x.inl
	if x.noMerge() {
		x.runFn(st, d, args, func(st *State, vs []Val, _ token.Pos) {
			x.inl = outer
			k(st, vs)
			x.inl = mine
		})
		x.inl = outer
		return
	}
	mark := st.pc
	var sts []*State
	var vals [][]Val
	x.runFn(st, d, args, func(st *State, vs []Val, _ token.Pos) {
		sts = append(sts, st)
		vals = append(vals, vs)
	})
	x.inl = outer
	for _, g := range x.groups(sts, vals) {
		m, vs := x.merge(mark, pick(sts, g), pick(vals, g))
		k(m, vs)
	}
}

func pick[T any](xs []T, is []int) []T {
	var out []T
	for _, i := range is {
		out = append(out, xs[i])
	}
	return out
}

// ---- contract calls ----

type modTarget struct {
	key  string
	sort Sort
	ref  *Term
	cond func(r *Term) *Term
}

func (x *Exec) bindContract(ct *Contract, args []TV) map[string]TV {
	if len(ct.Params) != len(args) {
		x.fail(token.NoPos, "contract of %s names %d parameters, the call has %d", ct.Key, len(ct.Params), len(args))
	}
	m := map[string]TV{}
	for i, p := range ct.Params {
		m[p] = args[i]
	}
	return m
}

func (x *Exec) contractCall(st *State, key string, ct *Contract, d *FnDecl, args []TV, sig *types.Signature, pos token.Pos, k func(*State, []Val)) {
	if ct.Flags["unsupported"] != "" {
		x.fail(pos, "call of %s", key)
	}
	x.used[key] = true
	binds := x.bindContract(ct, args)
	for n, tv := range binds {
		if cv, ok := tv.V.(*ClosureVal); ok {
			binds[n] = TV{x.closureTerm(st, cv), tv.Ty}
		}
	}
	x.hintsAt(st, "before@"+shortKey(key), binds)
	preEnv := &SEnv{x: x, st: st, vars: binds, olds: map[string]*State{}}
	trusted := ct.Flags["trusted"] != ""
	for i, r := range ct.Requires {
		lab := r.Label
		if lab == "" {
			lab = fmt.Sprint(i)
		}
		x.tagged(sexprString(r.E), func() { x.obligeP(st, "pre", key+"."+lab, r.Props, x.specBool(r.E, preEnv), pos) })
	}
	if d != nil && !trusted && x.c != nil && x.c.Flags["guarded"] != "" && ct.Flags["guarded"] == "" {
		for _, g := range x.v.specs.Guards {
			x.obligeP(st, "guard", "call of unguarded "+key, g.Read.Props, False, pos)
			break
		}
	}
	// recursion
	if d != nil && x.decl != nil && x.v.sameSCC(key, x.key) && (x.c == nil || x.c.Flags["partial"] == "") {
		var d0, d1 []*Term
		if len(ct.Dec) > 0 && x.c != nil && len(x.c.Dec) > 0 {
			for _, e := range x.c.Dec {
				d0 = append(d0, x.specTerm(e, x.entryEnv()))
			}
			for _, e := range ct.Dec {
				d1 = append(d1, x.specTerm(e, preEnv))
			}
		}
		if len(d0) > 0 && len(d0) == len(d1) {
			x.oblige(st, "decreases", "call "+key, lexLess(d1, d0), pos)
		} else {
			x.oblige(st, "decreases", "call "+key, False, pos)
		}
	}
	useInv := ct.Flags["noinv"] == "" && (!trusted && d != nil || ct.Flags["interface"] != "")
	if useInv {
		x.assertObjInvsBut(st, "call "+key, pos, ct.Opens)
	}
	// pure function with a defining postcondition
	if ct.Flags["pure"] != "" && len(ct.Results) == 1 && len(ct.Ensures) == 1 {
		if b, ok := ct.Ensures[0].E.(*SBin); ok && (b.Op == "==" || b.Op == "<==>") {
			if id, ok := b.X.(*SIdent); ok && id.Name == ct.Results[0] {
				tv := x.specEval(b.Y, preEnv)
				rt := sig.Results().At(0).Type()
				t := x.name(st, tv.V.(*Term), "p")
				x.typeFacts(st, t, rt)
				k(st, []Val{x.v.unpack(t, rt)})
				return
			}
		}
	}
	var kept []string
	if x.c != nil && len(x.c.Keeps) > 0 {
		for _, tn := range ct.Allocates {
			if k := "next." + tn; x.c.Keeps[k] {
				x.nextOf(st, tn)
				kept = append(kept, k)
			}
		}
		for _, m := range x.targetsOf(ct, preEnv) {
			if x.c.Keeps[m.key] && !strings.HasPrefix(m.key, "global.") {
				x.heapGet(st, m.key, arrSort(IntS, m.sort))
				kept = append(kept, m.key)
			}
		}
	}
	pre := st.clone()
	changed := x.havocTargets(st, x.targetsOf(ct, preEnv), ct, pre)
	rs := x.freshResults(st, sig, key)
	post := &SEnv{x: x, st: st, vars: map[string]TV{}, olds: map[string]*State{"old": pre}}
	for n, tv := range binds {
		post.vars[n] = tv
	}
	if len(ct.Results) != len(rs) {
		x.fail(pos, "contract of %s names %d results, the function has %d", key, len(ct.Results), len(rs))
	}
	for i, n := range ct.Results {
		post.vars[n] = TV{rs[i], sig.Results().At(i).Type()}
	}
	for _, e := range ct.Ensures {
		st.assume(x.specBool(e.E, post))
	}
	for _, k := range kept {
		if st.heap[k] == pre.heap[k] {
			continue
		}
		f := Eq(st.heap[k], pre.heap[k])
		if !strings.HasPrefix(k, "next.") {
			f = App("=", BoolS, st.heap[k], pre.heap[k])
		}
		x.oblige(st, "keeps", k+" at "+key, f, pos)
		st.assume(f)
		st.heap[k] = pre.heap[k]
	}
	if useInv && changed {
		x.assumeObjInvs(st)
	}
	if ct.Flags["noreturn"] != "" {
		return
	}
	x.hintsAt(st, "after@"+shortKey(key), post.vars)
	k(st, rs)
}

func shortKey(k string) string {
	if i := strings.LastIndex(k, "."); i >= 0 {
		return k[i+1:]
	}
	return k
}

// heapSetBy is a write by a callee: a kept field comes back unchanged.
func (x *Exec) heapSetBy(st *State, key string, t *Term) {
	if x.c != nil && x.c.Keeps[key] {
		st.heap[key] = t
		return
	}
	x.heapSet(st, key, t)
}

func (x *Exec) havocTargets(st *State, ts []modTarget, ct *Contract, pre *State) bool {
	changed := false
	for _, tn := range ct.Allocates {
		old := x.nextOf(st, tn)
		n := x.fresh("next."+tn, IntS)
		x.heapSetBy(st, "next."+tn, n)
		st.assume(Le(old, n))
		changed = true
	}
	for _, m := range ts {
		changed = true
		if strings.HasPrefix(m.key, "global.") {
			x.heapSet(st, m.key, x.fresh(m.key, m.sort))
			continue
		}
		h := x.heapGet(st, m.key, arrSort(IntS, m.sort))
		if m.ref != nil {
			c := x.fresh("h."+m.key, m.sort)
			x.heapSetBy(st, m.key, Store(h, m.ref, c))
			if t := x.v.fieldTypeOfKey(m.key); t != nil {
				x.typeFacts(st, c, t)
			}
			continue
		}
		nh := x.fresh("H."+m.key, h.Sort)
		x.heapSetBy(st, m.key, nh)
		if m.cond != nil {
			r := BVar("r!", IntS)
			tn := x.v.ownerType(m.key)
			g := And(Lt(IntLit(0), r), Lt(r, x.nextOf(pre, tn)), Not(m.cond(r)))
			st.assume(Forall([]*Term{r}, [][]*Term{{App("select", m.sort, nh, r)}}, Imp(g, App("=", BoolS, Select(nh, r), Select(h, r)))))
		}
	}
	return changed
}

// targetsOf evaluates a modifies clause.
func (x *Exec) targetsOf(ct *Contract, env *SEnv) []modTarget {
	var out []modTarget
	for _, e := range ct.Modifies {
		out = append(out, x.targetOf(e, env)...)
	}
	return out
}

func (x *Exec) targetOf(e SExpr, env *SEnv) []modTarget {
	v := x.v
	keySort := func(key string) Sort {
		if s, ok := v.allKeys()[key]; ok {
			return s
		}
		x.fail(token.NoPos, "modifies: unknown field %s", key)
		return ""
	}
	switch e := e.(type) {
	case *SCall:
		switch e.Fun {
		case "all":
			key := flattenSel(e.Args[0])
			return []modTarget{{key: key, sort: keySort(key)}}
		case "where": // where(Key.value, k, cond)
			key := flattenSel(e.Args[0])
			name := e.Args[1].(*SIdent).Name
			tn := v.ownerType(key)
			return []modTarget{{key: key, sort: keySort(key), cond: func(r *Term) *Term {
				e2 := env.with(name, TV{r, v.parseType("*" + tn)})
				return x.specBool(e.Args[2], e2)
			}}}
		case "fields":
			tv := x.specEval(e.Args[0], env)
			pe, _ := ptrElem(tv.Ty)
			if pe == nil {
				pe = tv.Ty
			}
			var out []modTarget
			fk := v.fieldKeys(pe)
			for _, k := range sortedKeys(fk) {
				out = append(out, modTarget{key: k, sort: fk[k], ref: tv.V.(*Term)})
			}
			return out
		}
	case *SSel:
		if id, ok := e.X.(*SIdent); ok && id.Name == "global" {
			if gt, ok := v.specs.Ghosts["global."+e.Name]; ok {
				return []modTarget{{key: "global." + e.Name, sort: v.sortOfSpec(v.parseType(gt))}}
			}
			o := v.pkg.Scope().Lookup(e.Name)
			return []modTarget{{key: "global." + e.Name, sort: v.sortOf(o.Type())}}
		}
		key, ref := x.selKey(e, env)
		return []modTarget{{key: key, sort: keySort(key), ref: ref}}
	}
	x.fail(token.NoPos, "bad modifies target")
	return nil
}

func flattenSel(e SExpr) string {
	switch e := e.(type) {
	case *SIdent:
		return e.Name
	case *SSel:
		return flattenSel(e.X) + "." + e.Name
	}
	panic(unsupported{0, "bad field name in modifies"})
}

// selKey resolves x.f.g to a heap key and object reference.
func (x *Exec) selKey(e *SSel, env *SEnv) (string, *Term) {
	v := x.v
	// try X as a reference
	if in, ok := e.X.(*SSel); ok {
		// nested struct field of an object: f.options.X, f.lock.st
		b := x.specEval(in.X, env)
		if pe, ok := ptrElem(b.Ty); ok {
			if st := v.structOf(pe); st != nil {
				for i := 0; i < st.NumFields(); i++ {
					f := st.Field(i)
					if f.Name() == in.Name {
						if v.externObj(f.Type()) {
							return typeName(f.Type()) + "." + e.Name, b.V.(*Term)
						}
						if v.structOf(f.Type()) != nil {
							return typeName(pe) + "." + in.Name + "." + e.Name, b.V.(*Term)
						}
					}
				}
			}
		}
	}
	b := x.specEval(e.X, env)
	t := b.Ty
	if pe, ok := ptrElem(t); ok {
		t = pe
	}
	return typeName(t) + "." + e.Name, b.V.(*Term)
}

// ---- builtins and conversions ----

func (x *Exec) builtin(st *State, name string, c *ast.CallExpr, k func(*State, invoker)) {
	info := x.v.info
	switch name {
	case "len", "cap":
		x.eval(st, c.Args[0], func(st *State, v Val) {
			t := v.(*Term)
			if si := sortInfo[t.Sort]; si != nil && si.Kind == "map" {
				n := "len." + string(t.Sort)
				if pfuns[n] == nil {
					pfuns[n] = &pfun{n, []string{string(t.Sort)}, "Int"}
				}
				r := App(n, IntS, t)
				st.assume(Le(IntLit(0), r))
				k(st, done(r))
				return
			}
			if name == "cap" {
				r := x.fresh("cap", IntS)
				st.assume(Le(SeqLen(t), r))
				k(st, done(r))
				return
			}
			k(st, done(SeqLen(t)))
		})
	case "append":
		t := info.TypeOf(c)
		x.evalMulti(st, c.Args, func(st *State, vs []Val, ts []types.Type) {
			acc := x.asTerm(st, x.coerce(st, vs[0], ts[0], t), t)
			et := types.Unalias(t).Underlying().(*types.Slice).Elem()
			if c.Ellipsis.IsValid() {
				k(st, done(SeqCat(acc, x.asTerm(st, x.coerce(st, vs[1], ts[1], t), t))))
				return
			}
			for i := 1; i < len(vs); i++ {
				acc = SeqSnoc(acc, x.asTerm(st, x.coerce(st, vs[i], ts[i], et), et))
			}
			k(st, done(acc))
		})
	case "copy":
		x.lvalue(st, c.Args[0], func(st *State, lv *lval) {
			x.eval(st, c.Args[1], func(st *State, sv Val) {
				d := lv.get(st).(*Term)
				s := sv.(*Term)
				if d.Sort == StrS {
					x.fail(c.Pos(), "copy into a []byte")
				}
				// d[:min] = s[:min]
				nd, ns := SeqLen(d), SeqLen(s)
				n := Ite(Le(ns, nd), ns, nd)
				r := x.fresh("copied", d.Sort)
				st.assume(Eq(SeqLen(r), nd))
				st.assume(Imp(Eq(nd, ns), App("=", BoolS, r, s)))
				i := BVar("i!", IntS)
				st.assume(Forall([]*Term{i}, [][]*Term{{SeqAt(r, i)}}, Imp(And(Le(IntLit(0), i), Lt(i, nd)), App("=", BoolS, SeqAt(r, i), Ite(Lt(i, n), SeqAt(s, i), SeqAt(d, i))))))
				lv.set(st, r)
				k(st, done(n))
			})
		})
	case "make":
		t := info.TypeOf(c)
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Map:
			x.evalMulti(st, c.Args[1:], func(st *State, vs []Val, _ []types.Type) {
				k(st, done(MapEmpty(x.v.sortOf(t), false)))
			})
		case *types.Slice:
			x.evalMulti(st, c.Args[1:], func(st *State, vs []Val, _ []types.Type) {
				n := vs[0].(*Term)
				x.oblige(st, "bounds", "make", Le(IntLit(0), n), c.Pos())
				if len(vs) > 1 {
					x.oblige(st, "bounds", "make cap", Le(n, vs[1].(*Term)), c.Pos())
				}
				s := x.v.sortOf(t)
				if same(n, IntLit(0)) {
					k(st, done(SeqEmpty(s)))
					return
				}
				if s == StrS {
					k(st, done(App("s.repeat", StrS, App("s.byte", StrS, IntLit(0)), n)))
					return
				}
				z := x.asTerm(st, x.zeroVal(st, u.Elem()), u.Elem())
				k(st, done(SeqRep(s, n, z)))
			})
		default:
			x.fail(c.Pos(), "make %s", t)
		}
	case "new":
		t := info.TypeOf(c.Args[0])
		if x.v.structOf(t) == nil && !x.v.externObj(t) {
			x.fail(c.Pos(), "new(%s)", t)
		}
		r := x.alloc(st, t)
		if x.v.structOf(t) != nil {
			x.writeField(st, typeName(t), t, r, x.zeroVal(st, t))
		}
		k(st, done(r))
	case "delete":
		x.lvalue(st, c.Args[0], func(st *State, lv *lval) {
			x.eval(st, c.Args[1], func(st *State, kv Val) {
				m := lv.get(st).(*Term)
				mt := types.Unalias(info.TypeOf(c.Args[0])).Underlying().(*types.Map)
				kt := x.asTerm(st, x.coerce(st, kv, info.TypeOf(c.Args[1]), mt.Key()), mt.Key())
				lv.set(st, x.name(st, MapDel(m, kt), "m"))
				k(st, done())
			})
		})
	case "panic":
		x.oblige(st, "panic", "panic", False, c.Pos())
	case "min", "max":
		x.evalMulti(st, c.Args, func(st *State, vs []Val, _ []types.Type) {
			acc := vs[0].(*Term)
			for _, v := range vs[1:] {
				b := v.(*Term)
				if acc.Sort != IntS {
					x.fail(c.Pos(), "%s of %s", name, acc.Sort)
				}
				if name == "min" {
					acc = Ite(Le(acc, b), acc, b)
				} else {
					acc = Ite(Le(b, acc), acc, b)
				}
			}
			k(st, done(acc))
		})
	default:
		x.fail(c.Pos(), "builtin %s", name)
	}
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	if isNilType(from) {
		return x.nilOf(to)
	}
	if isInterface(to) {
		return x.coerce(st, v, from, to)
	}
	fs, tf := isString(from), isString(to)
	switch {
	case fs && tf, fs && isBytes(to), isBytes(from) && tf, isBytes(from) && isBytes(to):
		return v
	case fs && !tf: // []rune(s)
		return App("s.runes", seqSort(IntS), v.(*Term))
	case tf && isInt(from):
		return App("s.ofrune", StrS, v.(*Term))
	case tf: // string([]rune)
		return App("s.ofrunes", StrS, v.(*Term))
	case isInt(from) && isInt(to):
		return x.convInt(st, v.(*Term), from, to)
	case isFloat(from) && isFloat(to):
		return v
	}
	if x.v.sortOf(from) == x.v.sortOf(to) {
		return v
	}
	x.fail(pos, "conversion from %s to %s", from, to)
	return nil
}

func intRange(t types.Type) (lo, hi string) {
	switch types.Unalias(t).Underlying().(*types.Basic).Kind() {
	case types.Int8:
		return "-128", "127"
	case types.Int16:
		return "-32768", "32767"
	case types.Int32, types.UntypedRune:
		return "-2147483648", "2147483647"
	case types.Uint8:
		return "0", "255"
	case types.Uint16:
		return "0", "65535"
	case types.Uint32:
		return "0", "4294967295"
	case types.Uint, types.Uint64, types.Uintptr:
		return "0", "18446744073709551615"
	}
	return "-9223372036854775808", "9223372036854775807"
}

func (x *Exec) convInt(st *State, t *Term, from, to types.Type) Val {
	fl, fh := intRange(from)
	tl, th := intRange(to)
	if fl == tl && fh == th {
		return t
	}
	if _, ok := litInt(t); ok {
		return t
	}
	n := "conv." + tl + "." + th
	n = strings.ReplaceAll(n, "-", "m")
	if pfuns[n] == nil {
		pfuns[n] = &pfun{n, []string{"Int"}, "Int"}
		lo, hi := BigLit(tl).Op, BigLit(th).Op
		size := "(+ 1 (- " + hi + " " + lo + "))"
		a := &pax{id: n, keys: []string{n}, mode: "both", text: fmt.Sprintf("(forall ((x Int)) (! (and (=> (and (<= %[1]s x) (<= x %[2]s)) (= (%[3]s x) x)) (<= %[1]s (%[3]s x)) (<= (%[3]s x) %[2]s) (=> (and (< x %[1]s) (<= %[1]s (+ x %[4]s))) (= (%[3]s x) (+ x %[4]s))) (=> (and (< %[2]s x) (<= (- x %[4]s) %[2]s)) (= (%[3]s x) (- x %[4]s)))) :pattern ((%[3]s x))))", lo, hi, n, size)}
		a.finish()
		paxs = append(paxs, a)
	}
	return App(n, IntS, t)
}

package main

// Evaluation of Go expressions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// ClosureVal is a function literal together with nothing else: captured
// variables live in the state, so the literal is executed in place.
type ClosureVal struct {
	Lit *ast.FuncLit
	Sig *types.Signature
}

type lval struct {
	get func(st *State) Val
	set func(st *State, v Val)
}

func isNilType(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func isBytes(t types.Type) bool {
	s, ok := types.Unalias(t).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := types.Unalias(s.Elem()).Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

func isString(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloat(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isInt(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) constVal(v constant.Value, t types.Type) Val {
	t = types.Default(t)
	switch v.Kind() {
	case constant.Bool:
		return BoolLit(constant.BoolVal(v))
	case constant.String:
		return StrLit(constant.StringVal(v))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(v)
		if f == 0 {
			return zeroOfSort(F64S)
		}
		r, ok := new(big.Rat).SetString(v.ExactString())
		if ok {
			return App(fmt.Sprintf("((_ to_fp 11 53) RNE (/ %s.0 %s.0))", r.Num().String(), r.Denom().String()), F64S)
		}
		x.fail(token.NoPos, "float constant %s", v)
	}
	if iv := constant.ToInt(v); iv.Kind() == constant.Int {
		return BigLit(iv.ExactString())
	}
	x.fail(token.NoPos, "constant %s", v)
	return nil
}

func (x *Exec) derefOK(st *State, ref *Term, pos token.Pos, what string) {
	if st.known(Lt(IntLit(0), ref)) {
		return
	}
	x.oblige(st, "nil", what, Not(Eq(ref, IntLit(0))), pos)
}

// ---- places ----

// place describes where an expression's value lives.
type place struct {
	kind   string // "var", "heap", "global", "elem", "val"
	obj    types.Object
	ref    *Term
	prefix string
	typ    types.Type
	base   *place
	idx    *Term
	field  string
	isMap  bool
	val    Val
	pos    token.Pos
}

func (x *Exec) loadPlace(st *State, p *place) Val {
	switch p.kind {
	case "var":
		v, ok := st.vars[p.obj]
		if !ok {
			x.fail(p.pos, "variable %s has no value", p.obj.Name())
		}
		return v
	case "global":
		return x.globalVal(st, p.obj.(*types.Var))
	case "heap":
		x.guard(st, p, false)
		v := x.readField(st, p.prefix, p.typ, p.ref)
		if t, ok := v.(*Term); ok {
			t2 := x.name(st, t, "ld")
			x.typeFacts(st, t2, p.typ)
			return t2
		}
		return v
	case "field":
		b := x.loadPlace(st, p.base)
		sv, ok := b.(*StructVal)
		if !ok {
			sv, ok = x.v.unpack(b.(*Term), p.base.typ).(*StructVal)
			if !ok {
				x.fail(p.pos, "field %s of unmodelled struct %s", p.field, p.base.typ)
			}
		}
		return sv.Fields[p.field]
	case "elem":
		b := x.loadPlace(st, p.base).(*Term)
		if p.isMap {
			v := MapGet(b, p.idx)
			t := x.name(st, v, "mg")
			x.typeFacts(st, t, p.typ)
			return x.v.unpack(t, p.typ)
		}
		t := SeqAt(b, p.idx)
		x.typeFacts(st, t, p.typ)
		return x.v.unpack(t, p.typ)
	case "val":
		return p.val
	}
	panic("loadPlace " + p.kind)
}

// guard obliges the lock discipline of a field in functions with flag guarded.
func (x *Exec) guard(st *State, p *place, write bool) {
	g := x.v.specs.Guards[p.prefix]
	if g == nil || x.c == nil || x.c.Flags["guarded"] == "" {
		return
	}
	c, what := g.Read, "read "
	if write {
		c, what = g.Write, "write "
	}
	env := &SEnv{x: x, st: st, vars: map[string]TV{g.Var: {p.ref, x.v.parseType("*" + g.Type)}}, olds: map[string]*State{"old": x.entry}}
	x.obligeP(st, "guard", what+p.prefix, c.Props, x.specBool(c.E, env), p.pos)
}

func (x *Exec) storePlace(st *State, p *place, v Val) {
	switch p.kind {
	case "var":
		x.varSet(st, p.obj, v)
	case "global":
		srt := x.v.sortOf(p.obj.Type())
		x.globalVal(st, p.obj.(*types.Var))
		t := x.asTerm(st, v, p.typ)
		_ = srt
		x.heapSet(st, "global."+p.obj.Name(), t)
	case "heap":
		x.guard(st, p, true)
		x.writeField(st, p.prefix, p.typ, p.ref, v)
	case "field":
		b := x.loadPlace(st, p.base)
		sv, ok := b.(*StructVal)
		if !ok {
			sv = x.v.unpack(b.(*Term), p.base.typ).(*StructVal)
		}
		n := &StructVal{T: sv.T, Fields: map[string]Val{}}
		for k, f := range sv.Fields {
			n.Fields[k] = f
		}
		n.Fields[p.field] = v
		x.storePlace(st, p.base, n)
	case "elem":
		b := x.loadPlace(st, p.base).(*Term)
		t := x.asTerm(st, v, p.typ)
		if p.isMap {
			x.oblige(st, "nilmap", "", Not(MapNil(b)), p.pos)
			x.storePlace(st, p.base, x.name(st, MapPut(b, p.idx, t), "m"))
			return
		}
		if b.Sort == StrS {
			x.fail(p.pos, "assignment to a byte of a []byte")
		}
		x.storePlace(st, p.base, x.name(st, SeqUpd(b, p.idx, t), "s"))
	default:
		x.fail(p.pos, "cannot assign to this expression")
	}
}

func (x *Exec) lvalue(st *State, e ast.Expr, k func(*State, *lval)) {
	x.placeOf(st, e, func(st *State, p *place) {
		k(st, &lval{
			get: func(st *State) Val { return x.loadPlace(st, p) },
			set: func(st *State, v Val) { x.storePlace(st, p, v) },
		})
	})
}

func (x *Exec) placeOf(st *State, e ast.Expr, k func(*State, *place)) {
	e = unparen(e)
	info := x.v.info
	switch e := e.(type) {
	case *ast.Ident:
		o := info.Uses[e]
		if o == nil {
			o = info.Defs[e]
		}
		v, ok := o.(*types.Var)
		if !ok {
			break
		}
		if v.Parent() == x.v.pkg.Scope() {
			k(st, &place{kind: "global", obj: v, typ: v.Type(), pos: e.Pos()})
			return
		}
		k(st, &place{kind: "var", obj: v, typ: v.Type(), pos: e.Pos()})
		return
	case *ast.SelectorExpr:
		sel := info.Selections[e]
		if sel == nil {
			break
		}
		if sel.Kind() != types.FieldVal {
			break
		}
		x.placeOf(st, e.X, func(st *State, b *place) {
			p := b
			t := info.TypeOf(e.X)
			for _, ix := range sel.Index() {
				if pe, ok := ptrElem(t); ok {
					ref := x.loadPlace(st, p).(*Term)
					x.derefOK(st, ref, e.Sel.Pos(), "."+e.Sel.Name)
					s, ok := types.Unalias(pe).Underlying().(*types.Struct)
					if !ok || x.v.structOf(pe) == nil {
						x.fail(e.Pos(), "field of %s", t)
					}
					f := s.Field(ix)
					p = &place{kind: "heap", ref: ref, prefix: typeName(pe) + "." + f.Name(), typ: f.Type(), pos: e.Pos()}
					t = f.Type()
					continue
				}
				s, ok := types.Unalias(t).Underlying().(*types.Struct)
				if !ok {
					x.fail(e.Pos(), "selector")
				}
				f := s.Field(ix)
				if p.kind == "heap" {
					p = &place{kind: "heap", ref: p.ref, prefix: p.prefix + "." + f.Name(), typ: f.Type(), pos: e.Pos()}
				} else {
					p = &place{kind: "field", base: p, field: f.Name(), typ: f.Type(), pos: e.Pos()}
				}
				t = f.Type()
			}
			k(st, p)
		})
		return
	case *ast.IndexExpr:
		bt := types.Unalias(info.TypeOf(e.X)).Underlying()
		x.placeOf(st, e.X, func(st *State, b *place) {
			x.eval(st, e.Index, func(st *State, iv Val) {
				switch u := bt.(type) {
				case *types.Map:
					kt := x.asTerm(st, x.coerce(st, iv, info.TypeOf(e.Index), u.Key()), u.Key())
					k(st, &place{kind: "elem", base: b, idx: kt, isMap: true, typ: u.Elem(), pos: e.Pos()})
				case *types.Slice, *types.Basic:
					i := iv.(*Term)
					sv := x.loadPlace(st, b).(*Term)
					x.bounds(st, sv, i, e.Pos())
					var et types.Type = types.Typ[types.Byte]
					if s, ok := u.(*types.Slice); ok {
						et = s.Elem()
					}
					k(st, &place{kind: "elem", base: b, idx: i, typ: et, pos: e.Pos()})
				default:
					x.fail(e.Pos(), "index of %s", bt)
				}
			})
		})
		return
	case *ast.StarExpr:
		x.eval(st, e.X, func(st *State, v Val) {
			t := info.TypeOf(e)
			if x.v.structOf(t) == nil {
				x.fail(e.Pos(), "dereference of %s", info.TypeOf(e.X))
			}
			ref := v.(*Term)
			x.derefOK(st, ref, e.Pos(), "*")
			k(st, &place{kind: "heap", ref: ref, prefix: typeName(t), typ: t, pos: e.Pos()})
		})
		return
	}
	x.eval(st, e, func(st *State, v Val) {
		k(st, &place{kind: "val", val: v, typ: info.TypeOf(e), pos: e.Pos()})
	})
}

func (x *Exec) bounds(st *State, sv, i *Term, pos token.Pos) {
	n := SeqLen(sv)
	x.oblige(st, "bounds", "index", And(Le(IntLit(0), i), Lt(i, n)), pos)
}

// globalVal reads a package variable.  Unexported variables that no function
// assigns are their initialiser; everything else is arbitrary.
func (x *Exec) globalVal(st *State, o *types.Var) Val {
	key := "global." + o.Name()
	if t, ok := st.heap[key]; ok {
		return t
	}
	if !o.Exported() && !x.v.assigned[o] {
		if in := x.v.varInit[o]; in != nil {
			if t := x.v.initTerm(in); t != nil {
				return t
			}
			if t := x.initCall(st, in); t != nil {
				return t
			}
		}
	}
	s := x.v.sortOf(o.Type())
	t := Const("G0."+mangle(key), s)
	if !x.v.assigned[o] {
		return t
	}
	st.heap[key] = t
	return t
}

// initCall evaluates an initialiser that calls library functions whose
// contracts give their result exactly.
func (x *Exec) initCall(st *State, in ast.Expr) (res Val) {
	c, ok := unparen(in).(*ast.CallExpr)
	if !ok {
		return nil
	}
	if s, ok := unparen(c.Fun).(*ast.SelectorExpr); ok {
		f, _ := x.v.info.Uses[s.Sel].(*types.Func)
		if f == nil || !x.v.isExtern(f) {
			return nil
		}
		ct := x.v.specs.Contracts[extKey(f)]
		if ct == nil || ct.Flags["pure"] == "" {
			return nil
		}
	} else {
		return nil
	}
	x.eval(st, in, func(s2 *State, v Val) {
		if s2 == st {
			res = v
		}
	})
	return res
}

// initTerm evaluates a package-variable initialiser to a term if it is a
// literal or a regexp.MustCompile of a literal.
func (v *Verifier) initTerm(e ast.Expr) *Term {
	e = unparen(e)
	if tv, ok := v.info.Types[e]; ok && tv.Value != nil {
		switch tv.Value.Kind() {
		case constant.Bool:
			return BoolLit(constant.BoolVal(tv.Value))
		case constant.String:
			return StrLit(constant.StringVal(tv.Value))
		case constant.Int:
			return BigLit(tv.Value.ExactString())
		}
	}
	if c, ok := e.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if s, ok := c.Fun.(*ast.SelectorExpr); ok {
			if f, ok := v.info.Uses[s.Sel].(*types.Func); ok && f.FullName() == "regexp.MustCompile" {
				if a := v.initTerm(c.Args[0]); a != nil && a.Kind == 's' {
					if pfuns["regexp.mk"] == nil {
						pfuns["regexp.mk"] = &pfun{"regexp.mk", []string{"Str"}, "Int"}
					}
					return App("regexp.mk", IntS, a)
				}
			}
		}
	}
	return nil
}

// ---- expressions ----

func (x *Exec) eval(st *State, e ast.Expr, k func(*State, Val)) {
	e = unparen(e)
	info := x.v.info
	if tv, ok := info.Types[e]; ok && tv.Value != nil {
		k(st, x.constVal(tv.Value, tv.Type))
		return
	}
	switch e := e.(type) {
	case *ast.Ident:
		if e.Name == "nil" {
			if _, ok := info.Uses[e].(*types.Nil); ok {
				k(st, App("iface.nil", IfaceS))
				return
			}
		}
		switch o := info.Uses[e].(type) {
		case *types.Var:
			if o.Parent() == x.v.pkg.Scope() {
				k(st, x.globalVal(st, o))
				return
			}
			v, ok := st.vars[o]
			if !ok {
				x.fail(e.Pos(), "variable %s has no value here", e.Name)
			}
			k(st, v)
			return
		case *types.Func:
			k(st, x.funcConst(o))
			return
		}
		x.fail(e.Pos(), "identifier %s", e.Name)
	case *ast.FuncLit:
		k(st, &ClosureVal{Lit: e, Sig: info.TypeOf(e).(*types.Signature)})
	case *ast.SelectorExpr:
		if info.Selections[e] == nil {
			switch o := info.Uses[e.Sel].(type) {
			case *types.Func:
				k(st, x.funcConst(o))
				return
			case *types.Var:
				// library variable: io.EOF, os.Args ...
				s := x.v.sortOf(o.Type())
				n := "ext." + mangle(o.Pkg().Name()+"."+o.Name())
				if pfuns[n] == nil {
					pfuns[n] = &pfun{n, nil, string(s)}
					if s == IfaceS {
						a := &pax{id: n, keys: []string{n}, mode: "both", text: fmt.Sprintf("(not (= %s iface.nil))", n)}
						a.finish()
						paxs = append(paxs, a)
					}
				}
				k(st, App(n, s))
				return
			}
			x.fail(e.Pos(), "selector %s", e.Sel.Name)
		}
		if info.Selections[e].Kind() != types.FieldVal {
			x.fail(e.Pos(), "method value %s", e.Sel.Name)
		}
		x.placeOf(st, e, func(st *State, p *place) { k(st, x.loadPlace(st, p)) })
	case *ast.IndexExpr:
		x.placeOf(st, e, func(st *State, p *place) { k(st, x.loadPlace(st, p)) })
	case *ast.StarExpr:
		x.placeOf(st, e, func(st *State, p *place) { k(st, x.loadPlace(st, p)) })
	case *ast.SliceExpr:
		x.evalSlice(st, e, k)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			x.eval(st, e.X, func(st *State, v Val) { k(st, Not(v.(*Term))) })
		case token.SUB:
			x.eval(st, e.X, func(st *State, v Val) {
				t := v.(*Term)
				if t.Sort == F64S {
					k(st, App("fp.neg", F64S, t))
					return
				}
				k(st, Sub(IntLit(0), t))
			})
		case token.ADD:
			x.eval(st, e.X, k)
		case token.AND:
			x.evalAddr(st, e, k)
		default:
			x.fail(e.Pos(), "operator %s", e.Op)
		}
	case *ast.BinaryExpr:
		if e.Op == token.LAND || e.Op == token.LOR {
			x.evalShort(st, e, k)
			return
		}
		x.eval(st, e.X, func(st *State, a Val) {
			x.eval(st, e.Y, func(st *State, b Val) {
				ta, tb := info.TypeOf(e.X), info.TypeOf(e.Y)
				switch e.Op {
				case token.EQL, token.NEQ:
					t := x.eqTyped(st, a, ta, b, tb, e.Pos())
					if e.Op == token.NEQ {
						t = Not(t)
					}
					k(st, t)
				default:
					k(st, x.binop(st, e.Op, a, b, ta, e.Pos()))
				}
			})
		})
	case *ast.CallExpr:
		x.evalCall(st, e, func(st *State, vs []Val) {
			if len(vs) != 1 {
				x.fail(e.Pos(), "call used as a single value returns %d", len(vs))
			}
			k(st, vs[0])
		})
	case *ast.CompositeLit:
		x.evalComposite(st, e, info.TypeOf(e), k)
	case *ast.TypeAssertExpr:
		x.eval(st, e.X, func(st *State, v Val) {
			t := v.(*Term)
			ty := info.TypeOf(e)
			x.oblige(st, "typeassert", typeName(ty), x.v.hasType(t, ty), e.Pos())
			k(st, x.unboxFacts(st, t, ty))
		})
	default:
		x.fail(e.Pos(), "expression %T", e)
	}
}

func (x *Exec) unboxFacts(st *State, t *Term, ty types.Type) Val {
	if isInterface(ty) {
		return t
	}
	v := x.v.unbox(t, ty)
	if u, ok := v.(*Term); ok {
		x.typeFacts(st, u, ty)
	}
	return v
}

func (x *Exec) funcConst(o *types.Func) Val {
	n := "fn." + mangle(o.FullName())
	if pfuns[n] == nil {
		pfuns[n] = &pfun{n, nil, "Fn"}
		a := &pax{id: n, keys: []string{n}, mode: "both", text: fmt.Sprintf("(not (= %s fn.nil))", n)}
		a.finish()
		paxs = append(paxs, a)
	}
	return App(n, FnS)
}

// evalShort evaluates && and || as values, without forking when the right
// operand has no effects.
func (x *Exec) evalShort(st *State, e *ast.BinaryExpr, k func(*State, Val)) {
	x.eval(st, e.X, func(st *State, av Val) {
		a := av.(*Term)
		if st.known(a) {
			a = True
		} else if st.known(Not(a)) {
			a = False
		}
		if a == False && e.Op == token.LAND || a == True && e.Op == token.LOR {
			k(st, a)
			return
		}
		guard := a
		if e.Op == token.LOR {
			guard = Not(a)
		}
		if guard == True {
			x.eval(st, e.Y, k)
			return
		}
		st2 := st.clone()
		st2.assume(guard)
		mark := st2.pc
		var res *Term
		n := 0
		var end *State
		x.eval(st2, e.Y, func(s *State, bv Val) {
			n++
			res = bv.(*Term)
			end = s
		})
		if n == 1 && sameHeap(st, end) {
			for h, t := range end.heap {
				if st.heap[h] == nil {
					st.heap[h] = t
				}
			}
			for _, n := range nodesSince(end, mark) {
				if n.def {
					st.pc = &pcNode{t: n.t, up: st.pc, def: true}
				} else {
					st.assume(Imp(guard, n.t))
				}
			}
			if e.Op == token.LAND {
				k(st, And(a, res))
			} else {
				k(st, Or(a, res))
			}
			return
		}
		// effects: fork
		x.branch(st, a, func(st *State) {
			if e.Op == token.LAND {
				x.eval(st, e.Y, k)
			} else {
				k(st, True)
			}
		}, func(st *State) {
			if e.Op == token.LAND {
				k(st, False)
			} else {
				x.eval(st, e.Y, k)
			}
		})
	})
}

func sameHeap(a, b *State) bool {
	for h, t := range b.heap {
		if o := a.heap[h]; o != nil && !same(o, t) {
			return false
		} else if o == nil && !strings.HasPrefix(t.Op, "H0.") && !strings.HasPrefix(t.Op, "G0.") {
			return false
		}
	}
	for o, v := range a.vars {
		if b.vars[o] != v {
			return false
		}
	}
	return true
}

func factsSince(s *State, mark *pcNode) []*Term {
	var out []*Term
	for n := s.pc; n != nil && n != mark; n = n.up {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (x *Exec) evalSlice(st *State, e *ast.SliceExpr, k func(*State, Val)) {
	if e.Max != nil {
		x.fail(e.Pos(), "full slice expression")
	}
	x.eval(st, e.X, func(st *State, sv Val) {
		s := sv.(*Term)
		n := SeqLen(s)
		ev := func(st *State, e ast.Expr, d *Term, k func(*State, *Term)) {
			if e == nil {
				k(st, d)
				return
			}
			x.eval(st, e, func(st *State, v Val) { k(st, v.(*Term)) })
		}
		ev(st, e.Low, IntLit(0), func(st *State, lo *Term) {
			ev(st, e.High, n, func(st *State, hi *Term) {
				// the upper bound of a slice may reach its capacity; the value
				// model knows lengths only, so demand the length.
				x.oblige(st, "bounds", "slice", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, n)), e.Pos())
				if same(lo, IntLit(0)) && same(hi, n) {
					k(st, s)
					return
				}
				k(st, SeqSub(s, lo, hi))
			})
		})
	})
}

func (x *Exec) evalAddr(st *State, e *ast.UnaryExpr, k func(*State, Val)) {
	if cl, ok := unparen(e.X).(*ast.CompositeLit); ok {
		t := x.v.info.TypeOf(cl)
		if x.v.externObj(t) {
			if len(cl.Elts) > 0 {
				x.fail(e.Pos(), "composite literal of %s", t)
			}
			k(st, x.alloc(st, t))
			return
		}
		if x.v.structOf(t) == nil {
			x.fail(e.Pos(), "address of %s literal", t)
		}
		x.evalComposite(st, cl, t, func(st *State, v Val) {
			r := x.alloc(st, t)
			s := x.v.structOf(t)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				x.writeField(st, typeName(t)+"."+f.Name(), f.Type(), r, v.(*StructVal).Fields[f.Name()])
			}
			k(st, r)
		})
		return
	}
	// &localVar: modelled as a box of the current value (escapes only into
	// reflect.ValueOf in this code base)
	x.placeOf(st, e.X, func(st *State, p *place) {
		if p.kind == "var" {
			t := x.asTerm(st, x.loadPlace(st, p), p.typ)
			if x.v.externObj(p.typ) {
				k(st, t)
				return
			}
			n := "addr." + string(mangle(typeName(p.typ)))
			if pfuns[n] == nil {
				pfuns[n] = &pfun{n, []string{string(t.Sort)}, "Int"}
			}
			k(st, App(n, IntS, t))
			return
		}
		if p.kind == "heap" && x.v.externObj(p.typ) {
			k(st, p.ref)
			return
		}
		x.fail(e.Pos(), "address of this expression")
	})
}

func (x *Exec) evalComposite(st *State, e *ast.CompositeLit, t types.Type, k func(*State, Val)) {
	info := x.v.info
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		if x.v.externObj(t) {
			k(st, x.alloc(st, t))
			return
		}
		if x.v.structOf(t) == nil {
			if len(e.Elts) == 0 {
				k(st, zeroOfSort(x.v.sortOf(t)))
				return
			}
			x.fail(e.Pos(), "literal of %s", t)
		}
		vals := make(map[string]Val, len(e.Elts))
		var do func(st *State, i int)
		do = func(st *State, i int) {
			if i == len(e.Elts) {
				sv := &StructVal{T: t, Fields: map[string]Val{}}
				for j := 0; j < u.NumFields(); j++ {
					f := u.Field(j)
					if v, ok := vals[f.Name()]; ok {
						sv.Fields[f.Name()] = v
					} else if x.v.externObj(f.Type()) {
						sv.Fields[f.Name()] = IntLit(0)
					} else {
						sv.Fields[f.Name()] = x.zeroVal(st, f.Type())
					}
				}
				k(st, sv)
				return
			}
			el := e.Elts[i]
			name := ""
			ve := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name = kv.Key.(*ast.Ident).Name
				ve = kv.Value
			} else {
				name = u.Field(i).Name()
			}
			var ft types.Type
			for j := 0; j < u.NumFields(); j++ {
				if u.Field(j).Name() == name {
					ft = u.Field(j).Type()
				}
			}
			x.eval(st, ve, func(st *State, v Val) {
				vals[name] = x.coerce(st, v, info.TypeOf(ve), ft)
				do(st, i+1)
			})
		}
		do(st, 0)
	case *types.Slice:
		s := x.v.sortOf(t)
		var do func(st *State, i int, acc *Term)
		do = func(st *State, i int, acc *Term) {
			if i == len(e.Elts) {
				k(st, acc)
				return
			}
			if _, ok := e.Elts[i].(*ast.KeyValueExpr); ok {
				x.fail(e.Pos(), "keyed slice literal")
			}
			x.eval(st, e.Elts[i], func(st *State, v Val) {
				c := x.coerce(st, v, info.TypeOf(e.Elts[i]), u.Elem())
				do(st, i+1, SeqSnoc(acc, x.asTerm(st, c, u.Elem())))
			})
		}
		do(st, 0, SeqEmpty(s))
	case *types.Map:
		s := x.v.sortOf(t)
		var do func(st *State, i int, acc *Term)
		do = func(st *State, i int, acc *Term) {
			if i == len(e.Elts) {
				k(st, acc)
				return
			}
			kv := e.Elts[i].(*ast.KeyValueExpr)
			x.eval(st, kv.Key, func(st *State, a Val) {
				x.eval(st, kv.Value, func(st *State, b Val) {
					do(st, i+1, MapPut(acc, x.asTerm(st, x.coerce(st, a, info.TypeOf(kv.Key), u.Key()), nil), x.asTerm(st, x.coerce(st, b, info.TypeOf(kv.Value), u.Elem()), nil)))
				})
			})
		}
		do(st, 0, MapEmpty(s, false))
	default:
		x.fail(e.Pos(), "composite literal of %s", t)
	}
}

// eqTyped compares two values, converting between interface and concrete.
func (x *Exec) eqTyped(st *State, a Val, ta types.Type, b Val, tb types.Type, pos token.Pos) *Term {
	if isNilType(ta) && isNilType(tb) {
		return True
	}
	if isNilType(ta) {
		a, ta, b, tb = b, tb, a, ta
	}
	if isNilType(tb) {
		if _, ok := a.(*ClosureVal); ok {
			return False
		}
		t := a.(*Term)
		switch u := types.Unalias(ta).Underlying().(type) {
		case *types.Pointer:
			return Eq(t, IntLit(0))
		case *types.Interface:
			return Eq(t, App("iface.nil", IfaceS))
		case *types.Map:
			return MapNil(t)
		case *types.Signature:
			return Eq(t, App("fn.nil", FnS))
		default:
			x.fail(pos, "comparison of %s with nil", u)
		}
	}
	if isInterface(ta) && !isInterface(tb) {
		b = x.coerce(st, b, tb, ta)
	} else if isInterface(tb) && !isInterface(ta) {
		a = x.coerce(st, a, ta, tb)
	}
	return x.eqVals(st, a, b, ta)
}

func (x *Exec) eqVals(st *State, a, b Val, t types.Type) *Term {
	if sa, ok := a.(*StructVal); ok {
		sb, ok := b.(*StructVal)
		if !ok {
			sb = x.v.unpack(b.(*Term), sa.T).(*StructVal)
		}
		var cs []*Term
		for _, f := range sortedKeys(sa.Fields) {
			cs = append(cs, x.eqVals(st, sa.Fields[f], sb.Fields[f], nil))
		}
		return And(cs...)
	}
	ta, tb := a.(*Term), b.(*Term)
	if ta.Sort == F64S {
		return App("fp.eq", BoolS, ta, tb)
	}
	if ta.Sort == StrS && st != nil {
		return Eq(ta, tb)
	}
	return Eq(ta, tb)
}

func (x *Exec) binop(st *State, op token.Token, av, bv Val, t types.Type, pos token.Pos) *Term {
	a, b := av.(*Term), bv.(*Term)
	if a.Sort == F64S {
		switch op {
		case token.LSS:
			return App("fp.lt", BoolS, a, b)
		case token.LEQ:
			return App("fp.leq", BoolS, a, b)
		case token.GTR:
			return App("fp.gt", BoolS, a, b)
		case token.GEQ:
			return App("fp.geq", BoolS, a, b)
		}
		x.fail(pos, "float operator %s", op)
	}
	if a.Sort == StrS {
		switch op {
		case token.ADD:
			return SeqCat(a, b)
		case token.LSS:
			return App("s.lt", BoolS, a, b)
		case token.GTR:
			return App("s.lt", BoolS, b, a)
		case token.LEQ:
			return Not(App("s.lt", BoolS, b, a))
		case token.GEQ:
			return Not(App("s.lt", BoolS, a, b))
		}
		x.fail(pos, "string operator %s", op)
	}
	if a.Sort == BoolS {
		switch op {
		case token.OR:
			return Or(a, b)
		case token.AND:
			return And(a, b)
		}
	}
	if a.Sort != IntS || b.Sort != IntS {
		x.fail(pos, "operator %s on %s", op, a.Sort)
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return App("*", IntS, a, b)
	case token.QUO:
		x.oblige(st, "div", "divisor", Not(Eq(b, IntLit(0))), pos)
		return App("go.div", IntS, a, b)
	case token.REM:
		x.oblige(st, "div", "divisor", Not(Eq(b, IntLit(0))), pos)
		return App("go.mod", IntS, a, b)
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Lt(b, a)
	case token.GEQ:
		return Le(b, a)
	}
	x.fail(pos, "operator %s", op)
	return nil
}

// ---- multiple values ----

func (x *Exec) evalMulti(st *State, es []ast.Expr, k func(*State, []Val, []types.Type)) {
	info := x.v.info
	if len(es) == 1 {
		if c, ok := unparen(es[0]).(*ast.CallExpr); ok {
			if tup, ok := info.TypeOf(c).(*types.Tuple); ok {
				x.evalCall(st, c, func(st *State, vs []Val) {
					var ts []types.Type
					for i := 0; i < tup.Len(); i++ {
						ts = append(ts, tup.At(i).Type())
					}
					k(st, vs, ts)
				})
				return
			}
		}
	}
	vals := make([]Val, len(es))
	ts := make([]types.Type, len(es))
	for i, e := range es {
		ts[i] = info.TypeOf(e)
	}
	var do func(st *State, i int, acc []Val)
	do = func(st *State, i int, acc []Val) {
		if i == len(es) {
			k(st, acc, ts)
			return
		}
		x.eval(st, es[i], func(st *State, v Val) {
			do(st, i+1, append(acc[:len(acc):len(acc)], v))
		})
	}
	_ = vals
	do(st, 0, nil)
}

func (x *Exec) evalMultiN(st *State, es []ast.Expr, n int, k func(*State, []Val, []types.Type)) {
	info := x.v.info
	if len(es) == 1 && n == 2 {
		switch e := unparen(es[0]).(type) {
		case *ast.IndexExpr:
			mt, ok := types.Unalias(info.TypeOf(e.X)).Underlying().(*types.Map)
			if !ok {
				break
			}
			x.eval(st, e.X, func(st *State, mv Val) {
				x.eval(st, e.Index, func(st *State, kv Val) {
					m := mv.(*Term)
					kt := x.asTerm(st, x.coerce(st, kv, info.TypeOf(e.Index), mt.Key()), mt.Key())
					v := x.name(st, MapGet(m, kt), "mg")
					x.typeFacts(st, v, mt.Elem())
					k(st, []Val{x.v.unpack(v, mt.Elem()), MapHas(m, kt)}, []types.Type{mt.Elem(), types.Typ[types.Bool]})
				})
			})
			return
		case *ast.TypeAssertExpr:
			x.eval(st, e.X, func(st *State, v Val) {
				t := v.(*Term)
				ty := info.TypeOf(e)
				if tup, ok := ty.(*types.Tuple); ok {
					ty = tup.At(0).Type()
				}
				has := x.v.hasType(t, ty)
				var val Val
				if isInterface(ty) {
					val = Ite(has, t, App("iface.nil", IfaceS))
				} else {
					u := x.v.unbox(t, ty)
					if ut, ok := u.(*Term); ok {
						val = Ite(has, ut, zeroOfSort(ut.Sort))
					} else {
						u2 := x.zeroVal(st, ty)
						val = x.iteVal(has, u, u2)
					}
				}
				k(st, []Val{val, has}, []types.Type{ty, types.Typ[types.Bool]})
			})
			return
		}
	}
	x.evalMulti(st, es, func(st *State, vs []Val, ts []types.Type) {
		if len(vs) != n {
			x.fail(es[0].Pos(), "assignment count mismatch")
		}
		k(st, vs, ts)
	})
}

func (x *Exec) iteVal(c *Term, a, b Val) Val {
	switch p := a.(type) {
	case *Term:
		return Ite(c, p, b.(*Term))
	case *StructVal:
		q := b.(*StructVal)
		r := &StructVal{T: p.T, Fields: map[string]Val{}}
		for f := range p.Fields {
			r.Fields[f] = x.iteVal(c, p.Fields[f], q.Fields[f])
		}
		return r
	}
	panic(unsupported{0, "ite of closures"})
}

package main

// Evaluation of contract expressions.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type TV struct {
	V  Val
	Ty types.Type
}

func (tv TV) T() *Term {
	t, ok := tv.V.(*Term)
	if !ok {
		panic(unsupported{0, fmt.Sprintf("a %T where a term is needed", tv.V)})
	}
	return t
}

type SEnv struct {
	x      *Exec
	st     *State
	vars   map[string]TV
	olds   map[string]*State
	lookup func(name string, st *State) (TV, bool)
	fuel   *Term
	noheap bool
	depth  int
	// defined is set when the expression's definedness is not checked
}

func (e *SEnv) with(n string, tv TV) *SEnv {
	c := *e
	c.vars = make(map[string]TV, len(e.vars)+1)
	for k, v := range e.vars {
		c.vars[k] = v
	}
	c.vars[n] = tv
	return &c
}

func (e *SEnv) at(st *State) *SEnv {
	c := *e
	c.st = st
	return &c
}

var boolT = types.Typ[types.Bool]
var intT = types.Typ[types.Int]
var strT = types.Typ[types.String]
var anyT = types.NewInterfaceType(nil, nil)
var arrTypes = map[Sort]types.Type{}

func specErr(line int, f string, a ...interface{}) {
	panic(unsupported{line, "contract: " + fmt.Sprintf(f, a...)})
}

func (x *Exec) specBool(e SExpr, env *SEnv) *Term {
	tv := x.specEval(e, env)
	t := tv.T()
	if t.Sort != BoolS {
		specErr(0, "boolean expected, got %s in %s", t.Sort, sexprString(e))
	}
	return t
}

func (x *Exec) specTerm(e SExpr, env *SEnv) *Term {
	tv := x.specEval(e, env)
	if sv, ok := tv.V.(*StructVal); ok {
		return x.v.pack(sv)
	}
	return tv.T()
}

func sexprString(e SExpr) string {
	switch e := e.(type) {
	case *SIdent:
		return e.Name
	case *SInt:
		return e.V
	case *SStr:
		return strconv.Quote(e.V)
	case *SBin:
		return "(" + sexprString(e.X) + " " + e.Op + " " + sexprString(e.Y) + ")"
	case *SUn:
		return e.Op + sexprString(e.X)
	case *SCall:
		var as []string
		for _, a := range e.Args {
			as = append(as, sexprString(a))
		}
		return e.Fun + "(" + strings.Join(as, ", ") + ")"
	case *SSel:
		return sexprString(e.X) + "." + e.Name
	case *SProj:
		return sexprString(e.X) + "." + fmt.Sprint(e.N)
	case *SIndex:
		return sexprString(e.X) + "[" + sexprString(e.I) + "]"
	case *SSlice:
		return sexprString(e.X) + "[:]"
	case *SQuant:
		w := "exists"
		if e.All {
			w = "forall"
		}
		var vs []string
		for _, v := range e.Vars {
			vs = append(vs, v.Name+" "+v.Type)
		}
		return w + " " + strings.Join(vs, ", ") + " :: " + sexprString(e.Body)
	case *SLet:
		return "let " + e.Name + " = " + sexprString(e.E) + " in " + sexprString(e.B)
	case *SIf:
		return "if " + sexprString(e.C) + " then " + sexprString(e.A) + " else " + sexprString(e.B)
	case *SOld:
		return e.Which + "(" + sexprString(e.E) + ")"
	}
	return fmt.Sprintf("%T", e)
}

var sortTypes = map[Sort]types.Type{}

func (v *Verifier) typeOfSort(s Sort) types.Type {
	switch s {
	case BoolS:
		return boolT
	case IntS:
		return intT
	case StrS:
		return strT
	case IfaceS:
		return anyT
	case F64S:
		return types.Typ[types.Float64]
	case FnS:
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	}
	if t, ok := sortTypes[s]; ok {
		return t
	}
	if si := sortInfo[s]; si != nil {
		switch si.Kind {
		case "seq":
			return types.NewSlice(v.typeOfSort(si.Elem))
		case "map":
			return types.NewMap(v.typeOfSort(si.Key), v.typeOfSort(si.Elem))
		}
	}
	return arrType{s}
}

// arrType is the pseudo-type of SMT arrays ($seen).
type arrType struct{ s Sort }

func (a arrType) Underlying() types.Type { return a }
func (a arrType) String() string         { return string(a.s) }

func (v *Verifier) sortOfSpec(t types.Type) Sort {
	if a, ok := t.(arrType); ok {
		return a.s
	}
	s := v.sortOf(t)
	if _, ok := sortTypes[s]; !ok {
		if si := sortInfo[s]; si != nil {
			sortTypes[s] = t
		}
	}
	return s
}

func (v *Verifier) parseType(s string) types.Type {
	if t, ok := v.typeCache[s]; ok {
		return t
	}
	t := v.parseType1(s)
	v.typeCache[s] = t
	return t
}

func (v *Verifier) parseType1(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(v.parseType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(v.parseType(s[2:]))
	case strings.HasPrefix(s, "map["):
		d := 1
		for i := 4; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					return types.NewMap(v.parseType(s[4:i]), v.parseType(s[i+1:]))
				}
			}
		}
	case s == "any":
		return anyT
	case s == "fn":
		return types.NewSignatureType(nil, nil, nil, nil, nil, false)
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	if i := strings.Index(s, "."); i >= 0 {
		for _, p := range v.allImports() {
			if p.Name() == s[:i] {
				if o := p.Scope().Lookup(s[i+1:]); o != nil {
					return o.Type()
				}
			}
		}
	}
	if o := v.pkg.Scope().Lookup(s); o != nil {
		return o.Type()
	}
	panic(unsupported{0, "contract: unknown type " + s})
}

func (v *Verifier) allImports() []*types.Package {
	seen := map[*types.Package]bool{}
	var out []*types.Package
	queue := v.pkg.Imports()
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		if seen[p] {
			continue
		}
		seen[p] = true
		out = append(out, p)
		queue = append(queue, p.Imports()...)
	}
	return out
}

func (x *Exec) heapAt(st *State, key string, s Sort) *Term { return x.heapGet(st, key, s) }

func (x *Exec) specEval(e SExpr, env *SEnv) TV {
	v := x.v
	switch e := e.(type) {
	case *SInt:
		return TV{BigLit(e.V), intT}
	case *SStr:
		return TV{StrLit(e.V), strT}
	case *SIdent:
		switch e.Name {
		case "true":
			return TV{True, boolT}
		case "false":
			return TV{False, boolT}
		case "nil":
			return TV{App("iface.nil", IfaceS), types.Typ[types.UntypedNil]}
		}
		if tv, ok := env.vars[e.Name]; ok {
			return tv
		}
		if strings.HasPrefix(e.Name, "$") {
			if t, ok := env.st.ghost[e.Name]; ok {
				return TV{t, v.typeOfSort(t.Sort)}
			}
			specErr(e.Line, "no %s here", e.Name)
		}
		if env.lookup != nil {
			if tv, ok := env.lookup(e.Name, env.st); ok {
				return tv
			}
		}
		if f := v.specs.Fns[e.Name]; f != nil && len(f.Params) == 0 {
			return x.specCall(&SCall{e.Name, nil, e.Line}, env)
		}
		if pf := pfuns[e.Name]; pf != nil && len(pf.args) == 0 {
			return TV{App(e.Name, Sort(pf.ret)), v.typeOfSort(Sort(pf.ret))}
		}
		if o := v.pkg.Scope().Lookup(e.Name); o != nil {
			switch o := o.(type) {
			case *types.Const:
				return TV{x.constVal(o.Val(), o.Type()), o.Type()}
			case *types.Var:
				return TV{x.globalVal(env.st, o), o.Type()}
			}
		}
		specErr(e.Line, "unknown name %s", e.Name)
	case *SOld:
		o := env.olds[e.Which]
		if o == nil {
			if e.Which == "iter" || e.Which == "pre" {
				o = env.st.snaps[e.Which]
			}
			if o == nil {
				specErr(0, "no %s() state here", e.Which)
			}
		}
		return x.specEval(e.E, env.at(o))
	case *SLet:
		return x.specEval(e.B, env.with(e.Name, x.specEval(e.E, env)))
	case *SIf:
		c := x.specBool(e.C, env)
		if c == True {
			return x.specEval(e.A, env)
		}
		if c == False {
			return x.specEval(e.B, env)
		}
		a, b := x.specEval(e.A, env), x.specEval(e.B, env)
		if isNilType(a.Ty) {
			a = TV{x.nilOf(b.Ty), b.Ty}
		}
		if isNilType(b.Ty) {
			b = TV{x.nilOf(a.Ty), a.Ty}
		}
		return TV{x.iteVal(c, a.V, b.V), a.Ty}
	case *SUn:
		a := x.specEval(e.X, env)
		if e.Op == "!" {
			return TV{Not(a.T()), boolT}
		}
		return TV{Sub(IntLit(0), a.T()), a.Ty}
	case *SBin:
		return x.specBin(e, env)
	case *SSel:
		return x.specSel(e, env)
	case *SProj:
		specErr(0, "projection")
	case *SIndex:
		a := x.specEval(e.X, env)
		t := a.T()
		if si := sortInfo[t.Sort]; si != nil && si.Kind == "map" {
			i := x.specEval(e.I, env)
			mt, ok := types.Unalias(a.Ty).Underlying().(*types.Map)
			var et types.Type
			if ok {
				et = mt.Elem()
				if isInterface(mt.Key()) && !isInterface(i.Ty) {
					i = TV{v.box(i.V, i.Ty), mt.Key()}
				}
			} else {
				et = v.typeOfSort(si.Elem)
			}
			return TV{v.unpack(MapGet(t, i.T()), et), et}
		}
		i := x.specEval(e.I, env)
		if si := sortInfo[t.Sort]; si != nil && si.Kind == "arr" {
			return TV{Select(t, i.T()), v.typeOfSort(si.Elem)}
		}
		var et types.Type = types.Typ[types.Byte]
		if s, ok := types.Unalias(a.Ty).Underlying().(*types.Slice); ok {
			et = s.Elem()
		}
		return TV{v.unpack(SeqAt(t, i.T()), et), et}
	case *SSlice:
		a := x.specEval(e.X, env)
		t := a.T()
		lo, hi := IntLit(0), SeqLen(t)
		if e.Lo != nil {
			lo = x.specEval(e.Lo, env).T()
		}
		if e.Hi != nil {
			hi = x.specEval(e.Hi, env).T()
		}
		return TV{SeqSub(t, lo, hi), a.Ty}
	case *SQuant:
		en := env
		var bvs []*Term
		for _, q := range e.Vars {
			ty := v.parseType(q.Type)
			x.nfresh++
			b := BVar(fmt.Sprintf("%s_q%d", mangle(q.Name), x.nfresh), v.sortOfSpec(ty))
			bvs = append(bvs, b)
			en = en.with(q.Name, TV{v.unpack(b, ty), ty})
		}
		body := x.specBool(e.Body, en)
		var trig [][]*Term
		for _, tr := range e.Trig {
			var ts []*Term
			for _, t := range tr {
				ts = append(ts, x.specTerm(t, en))
			}
			trig = append(trig, ts)
		}
		if len(trig) == 0 {
			trig = autoTriggers(bvs, body)
		}
		if e.All {
			return TV{Forall(bvs, trig, body), boolT}
		}
		return TV{Exists(bvs, nil, body), boolT}
	case *SCall:
		return x.specCall(e, env)
	}
	specErr(0, "expression %T", e)
	return TV{}
}

// autoTriggers picks patterns: the smallest uninterpreted applications that
// mention all bound variables.
func autoTriggers(bvs []*Term, body *Term) [][]*Term {
	names := map[string]bool{}
	for _, b := range bvs {
		names[b.Op] = true
	}
	var cands []*Term
	seen := map[string]bool{}
	memo := map[*Term]map[string]bool{}
	var fv func(t *Term) map[string]bool
	fv = func(t *Term) map[string]bool {
		if m, ok := memo[t]; ok {
			return m
		}
		m := map[string]bool{}
		if t.Kind == 'v' && names[t.Op] {
			m[t.Op] = true
		}
		for _, a := range t.Args {
			for k := range fv(a) {
				m[k] = true
			}
		}
		memo[t] = m
		return m
	}
	pure := func(t *Term) bool { return true }
	var okTerm func(t *Term) bool
	okTerm = func(t *Term) bool {
		// no interpreted symbols over bound variables inside the pattern
		switch t.Kind {
		case 'q':
			return false
		case 'v':
			return names[t.Op]
		case 'a':
			switch t.Op {
			case "+", "-", "*", "<", "<=", "and", "or", "not", "=>", "=", "ite", "div", "mod", "fp.lt", "fp.eq", "fp.leq":
				return len(fv(t)) == 0
			}
			for _, a := range t.Args {
				if !okTerm(a) {
					return false
				}
			}
		}
		return true
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Kind == 'a' && len(t.Args) > 0 {
			switch t.Op {
			case "+", "-", "*", "<", "<=", "and", "or", "not", "=>", "=", "ite", "div", "mod":
			default:
				if !strings.HasPrefix(t.Op, "mk.") && !strings.HasPrefix(t.Op, "(") && len(fv(t)) > 0 && okTerm(t) && pure(t) && !seen[t.String()] {
					seen[t.String()] = true
					cands = append(cands, t)
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	var full []*Term
	for _, c := range cands {
		if len(fv(c)) == len(bvs) {
			full = append(full, c)
		}
	}
	// drop candidates that contain a smaller full candidate
	var out [][]*Term
	for _, c := range full {
		min := true
		for _, d := range full {
			if c != d && strings.Contains(c.String(), d.String()) {
				min = false
			}
		}
		if min {
			out = append(out, []*Term{c})
		}
	}
	if len(out) > 0 {
		if len(out) > 6 {
			out = out[:6]
		}
		return out
	}
	// a multi-pattern: cover the variables greedily
	var multi []*Term
	cov := map[string]bool{}
	sort.SliceStable(cands, func(i, j int) bool { return len(fv(cands[i])) > len(fv(cands[j])) })
	for _, c := range cands {
		add := false
		for k := range fv(c) {
			if !cov[k] {
				add = true
			}
		}
		if add {
			multi = append(multi, c)
			for k := range fv(c) {
				cov[k] = true
			}
		}
	}
	if len(cov) == len(bvs) && len(multi) > 0 {
		return [][]*Term{multi}
	}
	return nil
}

func (x *Exec) specBin(e *SBin, env *SEnv) TV {
	switch e.Op {
	case "==>":
		a := x.specBool(e.X, env)
		if a == False {
			return TV{True, boolT}
		}
		return TV{Imp(a, x.specBool(e.Y, env)), boolT}
	case "<==>":
		return TV{Eq(x.specBool(e.X, env), x.specBool(e.Y, env)), boolT}
	case "&&":
		a := x.specBool(e.X, env)
		if a == False {
			return TV{False, boolT}
		}
		return TV{And(a, x.specBool(e.Y, env)), boolT}
	case "||":
		a := x.specBool(e.X, env)
		if a == True {
			return TV{True, boolT}
		}
		return TV{Or(a, x.specBool(e.Y, env)), boolT}
	}
	a, b := x.specEval(e.X, env), x.specEval(e.Y, env)
	switch e.Op {
	case "==", "!=":
		if isNilType(b.Ty) {
			if t, ok := a.V.(*Term); ok && t.Sort == IntS && !isNilType(a.Ty) {
				r := Eq(t, IntLit(0))
				if e.Op == "!=" {
					r = Not(r)
				}
				return TV{r, boolT}
			}
		}
		t := x.eqTyped(nil, a.V, a.Ty, b.V, b.Ty, token.NoPos)
		if e.Op == "!=" {
			t = Not(t)
		}
		return TV{t, boolT}
	case "++":
		return TV{SeqCat(a.T(), b.T()), a.Ty}
	case "+":
		if a.T().Sort != IntS {
			return TV{SeqCat(a.T(), b.T()), a.Ty}
		}
		return TV{Add(a.T(), b.T()), a.Ty}
	case "-":
		return TV{Sub(a.T(), b.T()), a.Ty}
	case "*":
		return TV{App("*", IntS, a.T(), b.T()), a.Ty}
	case "/":
		return TV{App("div", IntS, a.T(), b.T()), a.Ty}
	case "%":
		return TV{App("mod", IntS, a.T(), b.T()), a.Ty}
	}
	ops := map[string]token.Token{"<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}
	return TV{x.binop(nil, ops[e.Op], a.V, b.V, a.Ty, token.NoPos), boolT}
}

func (x *Exec) specSel(e *SSel, env *SEnv) TV {
	v := x.v
	if id, ok := e.X.(*SIdent); ok {
		if _, bound := env.vars[id.Name]; !bound {
			if n := id.Name + "." + e.Name; pfuns[n] != nil && len(pfuns[n].args) == 0 {
				return TV{App(n, Sort(pfuns[n].ret)), v.typeOfSort(Sort(pfuns[n].ret))}
			}
			// library variable or constant
			isLocal := false
			if env.lookup != nil {
				_, isLocal = env.lookup(id.Name, env.st)
			}
			if !isLocal {
				for _, p := range v.pkg.Imports() {
					if p.Name() == id.Name {
						switch o := p.Scope().Lookup(e.Name).(type) {
						case *types.Const:
							return TV{x.constVal(o.Val(), o.Type()), o.Type()}
						case *types.Func:
							return TV{x.funcConst(o), o.Type()}
						case *types.Var:
							s := v.sortOf(o.Type())
							n := "ext." + mangle(p.Name()+"."+o.Name())
							if pfuns[n] == nil {
								pfuns[n] = &pfun{n, nil, string(s)}
								if s == IfaceS {
									a := &pax{id: n, keys: []string{n}, mode: "both", text: fmt.Sprintf("(not (= %s iface.nil))", n)}
									a.finish()
									paxs = append(paxs, a)
								}
							}
							return TV{App(n, s), o.Type()}
						}
					}
				}
			}
		}
	}
	if id, ok := e.X.(*SIdent); ok && id.Name == "global" {
		key := "global." + e.Name
		gt, ok := v.specs.Ghosts[key]
		if !ok {
			specErr(e.Line, "no ghost variable %s", e.Name)
		}
		ty := v.parseType(gt)
		s := v.sortOfSpec(ty)
		t, ok := env.st.heap[key]
		if !ok {
			t = Const("G0."+mangle(key), s)
			env.st.heap[key] = t
		}
		return TV{v.unpack(t, ty), ty}
	}
	b := x.specEval(e.X, env)
	t := b.Ty
	if sv, ok := b.V.(*StructVal); ok {
		f, ok := sv.Fields[e.Name]
		if !ok {
			specErr(e.Line, "no field %s", e.Name)
		}
		return TV{f, fieldType(t, e.Name)}
	}
	if pe, ok := ptrElem(t); ok {
		t = pe
	}
	key := typeName(t) + "." + e.Name
	if gt, ok := v.specs.Ghosts[key]; ok {
		ty := v.parseType(gt)
		return TV{v.unpack(Select(x.heapGet(env.st, key, arrSort(IntS, v.sortOfSpec(ty))), b.T()), ty), ty}
	}
	if v.structOf(t) != nil {
		ft := fieldType(t, e.Name)
		if ft == nil {
			specErr(e.Line, "no field %s in %s", e.Name, t)
		}
		if b.T().Sort != IntS {
			sv := v.unpack(b.T(), t).(*StructVal)
			return TV{sv.Fields[e.Name], ft}
		}
		return TV{x.readField(env.st, key, ft, b.T()), ft}
	}
	specErr(e.Line, "cannot select %s from %s", e.Name, b.Ty)
	return TV{}
}

func fieldType(t types.Type, name string) types.Type {
	s, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (x *Exec) specCall(e *SCall, env *SEnv) TV {
	v := x.v
	arg := func(i int) TV {
		if i >= len(e.Args) {
			specErr(e.Line, "%s: missing argument", e.Fun)
		}
		return x.specEval(e.Args[i], env)
	}
	switch e.Fun {
	case "len":
		t := arg(0).T()
		if si := sortInfo[t.Sort]; si != nil && si.Kind == "map" {
			n := "len." + string(t.Sort)
			if pfuns[n] == nil {
				pfuns[n] = &pfun{n, []string{string(t.Sort)}, "Int"}
			}
			return TV{App(n, IntS, t), intT}
		}
		return TV{SeqLen(t), intT}
	case "has":
		m := arg(0)
		k := arg(1)
		return TV{MapHas(m.T(), k.T()), boolT}
	case "isnil":
		return TV{MapNil(arg(0).T()), boolT}
	case "mapput":
		return TV{MapPut(arg(0).T(), arg(1).T(), x.specTerm(e.Args[2], env)), arg(0).Ty}
	case "mapdel":
		return TV{MapDel(arg(0).T(), arg(1).T()), arg(0).Ty}
	case "samemap":
		a, b := arg(0).T(), arg(1).T()
		return TV{Eq(a, b), boolT}
	case "contains":
		a, b := arg(0), arg(1)
		if a.T().Sort == StrS {
			return TV{App("s.contains", BoolS, a.T(), b.T()), boolT}
		}
		return TV{SeqContains(a.T(), b.T()), boolT}
	case "snoc":
		a := arg(0)
		return TV{SeqSnoc(a.T(), x.specTerm(e.Args[1], env)), a.Ty}
	case "upd":
		a := arg(0)
		return TV{SeqUpd(a.T(), arg(1).T(), x.specTerm(e.Args[2], env)), a.Ty}
	case "empty": // empty("[]string")
		ty := v.parseType(e.Args[0].(*SStr).V)
		return TV{SeqEmpty(v.sortOfSpec(ty)), ty}
	case "zero":
		ty := v.parseType(e.Args[0].(*SStr).V)
		return TV{x.zeroVal(env.st, ty), ty}
	case "eqs": // extensional string equality
		return TV{ExtEq(arg(0).T(), arg(1).T()), boolT}
	case "same": // SMT equality (floats: bit equality)
		return TV{App("=", BoolS, x.specTerm(e.Args[0], env), x.specTerm(e.Args[1], env)), boolT}
	case "alloc": // allocated and not nil
		a := arg(0)
		pe, _ := ptrElem(a.Ty)
		if pe == nil {
			pe = a.Ty
		}
		return TV{And(Lt(IntLit(0), a.T()), Lt(a.T(), x.nextOf(env.st, typeName(pe)))), boolT}
	case "frame": // frame(iter, targets...): nothing but the targets changed since that state
		id, ok := e.Args[0].(*SIdent)
		if !ok {
			specErr(e.Line, "frame needs a state name")
		}
		o := env.olds[id.Name]
		if o == nil {
			o = env.st.snaps[id.Name]
		}
		if o == nil {
			specErr(e.Line, "no state %s here", id.Name)
		}
		var ts []modTarget
		for _, a := range e.Args[1:] {
			ts = append(ts, x.targetOf(a, env.at(o))...)
		}
		var out []*Term
		for _, h := range sortedKeys(env.st.heap) {
			if strings.HasPrefix(h, "next.") {
				continue
			}
			if f := x.frameSince(env.st, o, h, ts); f != nil {
				out = append(out, f)
			}
		}
		return TV{And(out...), boolT}
	case "next": // allocation counter of a type
		id, ok := e.Args[0].(*SIdent)
		if !ok {
			specErr(e.Line, "next needs a type name")
		}
		return TV{x.nextOf(env.st, id.Name), intT}
	case "fresh":
		a := arg(0)
		pe, _ := ptrElem(a.Ty)
		o := env.olds["old"]
		if o == nil {
			specErr(e.Line, "fresh without an old state")
		}
		return TV{And(Lt(IntLit(0), a.T()), Le(x.nextOf(o, typeName(pe)), a.T()), Lt(a.T(), x.nextOf(env.st, typeName(pe)))), boolT}
	case "typeis":
		a := arg(0)
		return TV{v.hasType(a.T(), v.parseType(e.Args[1].(*SStr).V)), boolT}
	case "unbox":
		a := arg(0)
		ty := v.parseType(e.Args[1].(*SStr).V)
		return TV{v.unbox(a.T(), ty), ty}
	case "box":
		a := arg(0)
		if len(e.Args) > 1 {
			a.Ty = v.parseType(e.Args[1].(*SStr).V)
		}
		return TV{v.box(a.V, a.Ty), anyT}
	case "ref": // an integer as a reference: ref(i, "T")
		a := arg(0)
		return TV{a.V, v.parseType("*" + e.Args[1].(*SStr).V)}
	case "apply": // apply(i, "result type", f, args...)
		n, _ := strconv.Atoi(e.Args[0].(*SInt).V)
		rt := v.parseType(e.Args[1].(*SStr).V)
		f := x.specEval(e.Args[2], env)
		if cv, ok := f.V.(*ClosureVal); ok {
			f.V = x.closureTerm(env.st, cv)
		}
		var as []string
		ts := []*Term{f.T()}
		for _, a := range e.Args[3:] {
			t := x.specTerm(a, env)
			as = append(as, string(t.Sort))
			ts = append(ts, t)
		}
		s := v.sortOfSpec(rt)
		return TV{v.unpack(App(fnApplySym(n, as, s), s, ts...), rt), rt}
	case "int":
		return TV{arg(0).V, intT}
	case "regexp": // regexp("pattern"): the value of regexp.MustCompile("pattern")
		if pfuns["regexp.mk"] == nil {
			pfuns["regexp.mk"] = &pfun{"regexp.mk", []string{"Str"}, "Int"}
		}
		return TV{App("regexp.mk", IntS, StrLit(e.Args[0].(*SStr).V)), intT}
	case "conv": // conv(i, "from", "to")
		return TV{x.convInt(nil, arg(0).T(), v.parseType(e.Args[1].(*SStr).V), v.parseType(e.Args[2].(*SStr).V)), v.parseType(e.Args[2].(*SStr).V)}
	case "fplt":
		return TV{App("fp.lt", BoolS, arg(0).T(), arg(1).T()), boolT}
	case "fpleq":
		return TV{App("fp.leq", BoolS, arg(0).T(), arg(1).T()), boolT}
	case "fpeq":
		return TV{App("fp.eq", BoolS, arg(0).T(), arg(1).T()), boolT}
	case "byteat":
		return TV{SeqAt(arg(0).T(), arg(1).T()), intT}
	}
	if f := v.specs.Fns[e.Fun]; f != nil {
		if len(f.Params) != len(e.Args) {
			specErr(e.Line, "%s takes %d arguments", e.Fun, len(f.Params))
		}
		if f.Body == nil || f.Rec {
			var ts []*Term
			if f.Rec && !f.Def {
				fu := env.fuel
				if fu == nil {
					fu = fuelN(2)
				}
				ts = append(ts, fu)
			}
			for i := range e.Args {
				pt := v.parseType(f.Params[i].Type)
				a := arg(i)
				if isNilType(a.Ty) {
					a = TV{x.nilOf(pt), pt}
				}
				if isInterface(pt) && !isInterface(a.Ty) {
					a = TV{v.box(a.V, a.Ty), pt}
				}
				t, ok := a.V.(*Term)
				if !ok {
					t = v.pack(a.V)
				}
				if t.Sort != v.sortOfSpec(pt) {
					specErr(e.Line, "%s: argument %d has sort %s, want %s", e.Fun, i, t.Sort, v.sortOfSpec(pt))
				}
				ts = append(ts, t)
			}
			for i, h := range f.Heap {
				ts = append(ts, x.heapGet(env.st, h, f.HeapS[i]))
			}
			rt := v.parseType(f.Ret)
			return TV{v.unpack(App("spec."+f.Name, v.sortOfSpec(rt), ts...), rt), rt}
		}
		if env.depth > 40 {
			specErr(e.Line, "macro recursion in %s", e.Fun)
		}
		// macro: parameters are evaluated here, the body in the same state
		c := *env
		c.vars = map[string]TV{}
		for i, p := range f.Params {
			pt := v.parseType(p.Type)
			a := arg(i)
			if isNilType(a.Ty) {
				a = TV{x.nilOf(pt), pt}
			}
			if isInterface(pt) && !isInterface(a.Ty) {
				a = TV{v.box(a.V, a.Ty), pt}
			}
			a.Ty = pt
			c.vars[p.Name] = a
		}
		c.lookup = nil
		c.depth++
		r := x.specEval(f.Body, &c)
		rt := v.parseType(f.Ret)
		if isNilType(r.Ty) {
			r = TV{x.nilOf(rt), rt}
		}
		r.Ty = rt
		return r
	}
	if pf := pfuns[e.Fun]; pf != nil {
		if len(pf.args) != len(e.Args) {
			specErr(e.Line, "%s takes %d arguments", e.Fun, len(pf.args))
		}
		var ts []*Term
		for i := range e.Args {
			t := x.specTerm(e.Args[i], env)
			if string(t.Sort) != pf.args[i] {
				specErr(e.Line, "%s: argument %d has sort %s, want %s", e.Fun, i, t.Sort, pf.args[i])
			}
			ts = append(ts, t)
		}
		v.ensureSort(Sort(pf.ret))
		return TV{App(e.Fun, Sort(pf.ret), ts...), v.typeOfSort(Sort(pf.ret))}
	}
	specErr(e.Line, "unknown function %s", e.Fun)
	return TV{}
}

func (v *Verifier) ensureSort(s Sort) {
	n := string(s)
	if sortInfo[s] != nil {
		return
	}
	if strings.HasPrefix(n, "Seq_") {
		v.ensureSort(Sort(n[4:]))
		seqSort(Sort(n[4:]))
	}
	if strings.HasPrefix(n, "T_") {
		opaqueSort(n[2:])
	}
}

func fuelN(n int) *Term {
	t := App("fz", "Fuel")
	for i := 0; i < n; i++ {
		t = App("fs", "Fuel", t)
	}
	return t
}

// declareSpecFns registers the uninterpreted and recursive specification
// functions of the contracts with the prelude.
func (v *Verifier) declareSpecFns() {
	x := &Exec{v: v, used: map[string]bool{}, seenObl: map[string]bool{}}
	names := sortedKeys(v.specs.Fns)
	sort.SliceStable(names, func(i, j int) bool { return v.specs.Fns[names[i]].Seq < v.specs.Fns[names[j]].Seq })
	for _, n := range names {
		f := v.specs.Fns[n]
		if f.Body != nil && !f.Rec {
			continue
		}
		if f.Rec {
			// the heap fields the body reads
			st := newState()
			env := &SEnv{x: x, st: st, vars: map[string]TV{}, olds: map[string]*State{}, fuel: fuelN(0)}
			for _, p := range f.Params {
				ty := v.parseType(p.Type)
				env.vars[p.Name] = TV{v.unpack(BVar(p.Name+"_p", v.sortOfSpec(ty)), ty), ty}
			}
			x.specEval(f.Body, env)
			for _, h := range sortedKeys(st.heap) {
				if strings.HasPrefix(h, "global.") {
					continue
				}
				if strings.HasPrefix(h, "next.") {
					specErr(f.Line, "recursive function %s depends on allocation", n)
				}
				f.Heap = append(f.Heap, h)
				f.HeapS = append(f.HeapS, st.heap[h].Sort)
			}
		}
		var as []string
		if f.Rec && !f.Def {
			as = append(as, "Fuel")
		}
		for _, p := range f.Params {
			as = append(as, string(v.sortOfSpec(v.parseType(p.Type))))
		}
		for _, h := range f.HeapS {
			as = append(as, string(h))
		}
		pfuns["spec."+n] = &pfun{"spec." + n, as, string(v.sortOfSpec(v.parseType(f.Ret)))}
	}
	for _, n := range names {
		f := v.specs.Fns[n]
		st := newState()
		env := &SEnv{x: x, st: st, vars: map[string]TV{}, olds: map[string]*State{}}
		var bvs []*Term
		for _, p := range f.Params {
			ty := v.parseType(p.Type)
			b := BVar(p.Name+"_p", v.sortOfSpec(ty))
			bvs = append(bvs, b)
			env.vars[p.Name] = TV{v.unpack(b, ty), ty}
		}
		for i, h := range f.Heap {
			b := BVar("heap_"+mangle(h), f.HeapS[i])
			bvs = append(bvs, b)
			st.heap[h] = b
		}
		if f.Rec {
			fb := BVar("fuel_", "Fuel")
			if !f.Def {
				env.fuel = fb
			}
			body := x.specEval(f.Body, env)
			bt, ok := body.V.(*Term)
			if !ok {
				bt = v.pack(body.V)
			}
			rs := v.sortOfSpec(v.parseType(f.Ret))
			if isNilType(body.Ty) {
				bt = x.nilOf(v.parseType(f.Ret)).(*Term)
			}
			for h := range st.heap {
				if st.heap[h].Kind == 'c' && !strings.HasPrefix(h, "global.") {
					specErr(f.Line, "internal: recursive function %s reads %s", n, h)
				}
			}
			if f.Def {
				app := App("spec."+n, rs, bvs...)
				v.addTermAxiom("spec."+n+".def", []string{"spec." + n}, Forall(bvs, [][]*Term{{app}}, App("=", BoolS, app, bt)))
				continue
			}
			all := append([]*Term{fb}, bvs...)
			app := App("spec."+n, rs, append([]*Term{App("fs", "Fuel", fb)}, bvs...)...)
			app0 := App("spec."+n, rs, append([]*Term{fb}, bvs...)...)
			v.addTermAxiom("spec."+n+".def", []string{"spec." + n}, Forall(all, [][]*Term{{app}}, App("=", BoolS, app, bt)))
			v.addTermAxiom("spec."+n+".syn", []string{"spec." + n}, Forall(all, [][]*Term{{app}}, App("=", BoolS, app, app0)))
		}
		for i, a := range f.Axioms {
			env.fuel = nil
			t := x.specBool(a, env)
			keys := []string{"spec." + n}
			if f.Body != nil && !f.Rec {
				specErr(f.Line, "axiom on a macro")
			}
			if len(bvs) > 0 {
				var trig [][]*Term
				app := App("spec."+n, v.sortOfSpec(v.parseType(f.Ret)), bvs...)
				trig = [][]*Term{{app}}
				t = Forall(bvs, trig, t)
			}
			v.addTermAxiom(fmt.Sprintf("spec.%s.ax%d", n, i), keys, t)
		}
	}
	for i, a := range v.specs.Axioms {
		st := newState()
		env := &SEnv{x: x, st: st, vars: map[string]TV{}, olds: map[string]*State{}}
		t := x.specBool(a.E, env)
		v.axioms = append(v.axioms, axiomT{fmt.Sprintf("%s:%d %s", a.File, a.Line, a.Label), t})
		axiomTerms[t] = true
		_ = i
	}
}

type axiomT struct {
	name string
	t    *Term
}

func newState() *State {
	return &State{vars: map[types.Object]Val{}, ghost: map[string]*Term{}, heap: map[string]*Term{}, snaps: map[string]*State{}, calls: map[string]int{}}
}

// addTermAxiom registers a term as a prelude axiom.
func (v *Verifier) addTermAxiom(id string, keys []string, t *Term) {
	ss := newSymset()
	ss.walk(t)
	for s := range ss.sorts {
		if si := sortInfo[s]; si != nil {
			if si.Kind == "seq" {
				instSeq(s)
			}
			if si.Kind == "map" {
				instMap(s)
			}
		}
	}
	a := &pax{id: id, keys: keys, mode: "both", text: t.String()}
	for s := range ss.syms {
		a.syms = append(a.syms, s)
	}
	for s := range ss.sorts {
		a.syms = append(a.syms, string(s))
	}
	for l := range ss.lits {
		a.syms = append(a.syms, strLitName(l))
	}
	sort.Strings(a.syms)
	if len(ss.consts) > 0 {
		a.consts = ss.consts
	}
	paxs = append(paxs, a)
}

// ---- environments ----

func (x *Exec) entryEnv() *SEnv {
	return &SEnv{x: x, st: x.entry, vars: x.params, olds: map[string]*State{"old": x.entry}}
}

// envAt resolves names as Go would at the given position, then falls back on
// the contract's parameter names (entry values).
func (x *Exec) envAt(st *State, pos token.Pos) *SEnv {
	env := &SEnv{x: x, st: st, vars: map[string]TV{}, olds: map[string]*State{}}
	if x.entry != nil {
		env.olds["old"] = x.entry
	}
	for k, s := range st.snaps {
		env.olds[k] = s
	}
	env.lookup = func(name string, st *State) (TV, bool) {
		if pos.IsValid() {
			if sc := x.v.pkg.Scope().Innermost(pos); sc != nil {
				if _, o := sc.LookupParent(name, pos); o != nil {
					if vr, ok := o.(*types.Var); ok && vr.Parent() != x.v.pkg.Scope() {
						if val, ok := st.vars[vr]; ok {
							return TV{val, vr.Type()}, true
						}
					}
				}
			}
		}
		if o := x.v.renamed(x, name); o != nil {
			if val, ok := st.vars[o]; ok {
				return TV{val, o.Type()}, true
			}
		}
		// any local of that name that has a value (unique)
		var found types.Object
		n := 0
		for o := range st.vars {
			if o.Name() == name {
				n++
				found = o
			}
		}
		if n == 1 {
			return TV{st.vars[found], found.Type()}, true
		}
		if tv, ok := x.params[name]; ok {
			return tv, true
		}
		if o := x.moved(st, name); o != nil {
			return TV{st.vars[o], o.Type()}, true
		}
		return TV{}, false
	}
	return env
}

// moved finds a local that went to a new helper under another name: the only
// variable of its type among those of the inlined functions that had no
// locals when the contracts were written.
func (x *Exec) moved(st *State, name string) types.Object {
	typ := ""
	for _, n := range x.v.locals[x.key] {
		f := strings.SplitN(n, " ", 2)
		if f[0] == name {
			if typ != "" && typ != f[1] {
				return nil
			}
			typ = f[1]
		}
	}
	if typ == "" {
		return nil
	}
	var found types.Object
	for _, fr := range x.inl {
		if _, old := x.v.locals[fr.decl.key]; old || fr.decl.body == nil {
			continue
		}
		in := map[string]bool{}
		for _, n := range x.v.locals[x.key] {
			in[strings.SplitN(n, " ", 2)[0]] = true
		}
		for o := range st.vars {
			if o.Pos() < fr.decl.typ.Pos() || o.Pos() > fr.decl.body.End() || in[o.Name()] {
				continue
			}
			if types.TypeString(o.Type(), func(*types.Package) string { return "" }) == typ {
				if found != nil {
					return nil
				}
				found = o
			}
		}
	}
	return found
}

// ---- object invariants ----

func (x *Exec) objInvTerms(st *State, assume bool) []invTerm {
	var out []invTerm
	for _, o := range x.v.specs.Objs {
		ty := x.v.parseType("*" + o.Type)
		for i, c := range o.Invs {
			x.nfresh++
			b := BVar(fmt.Sprintf("%s_o%d", o.Var, i), IntS)
			env := &SEnv{x: x, st: st, vars: map[string]TV{o.Var: {b, ty}}, olds: map[string]*State{}}
			save := x.nfresh
			x.nfresh = 900000 + i*1000
			body := x.specBool(c.E, env)
			x.nfresh = save
			guard := And(Lt(IntLit(0), b), Lt(b, x.nextOf(st, o.Type)))
			lab := c.Label
			if lab == "" {
				lab = fmt.Sprint(i)
			}
			for j, part := range conjuncts(body) {
				l := lab
				if j > 0 {
					l = fmt.Sprintf("%s.%d", lab, j)
				}
				out = append(out, invTerm{o.Type + "." + l, c.Props, mergeForall(b, guard, part)})
			}
		}
	}
	return out
}

type invTerm struct {
	label string
	props []string
	t     *Term
}

func conjuncts(t *Term) []*Term {
	if t.Kind == 'a' && t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

// mergeForall builds forall b. guard => body, pulling an inner quantifier out.
func mergeForall(b, guard, body *Term) *Term {
	pre := guard
	inner := body
	for inner.Kind == 'a' && inner.Op == "=>" {
		pre = And(pre, inner.Args[0])
		inner = inner.Args[1]
	}
	if inner.Kind == 'q' && inner.Op == "forall" {
		vars := append([]*Term{b}, inner.Vars...)
		nb := Imp(pre, inner.Args[0])
		var trig [][]*Term
		for _, tr := range inner.Trig {
			if mentions(tr, vars) {
				trig = append(trig, tr)
			}
		}
		if len(trig) == 0 {
			trig = autoTriggers(vars, inner.Args[0])
		}
		return Forall(vars, trig, nb)
	}
	f := Imp(guard, body)
	// trigger on every field read of b
	var trig [][]*Term
	seen := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.Kind == 'a' && t.Op == "select" && t.Args[1] == b && t.Args[0].Kind == 'c' && !seen[t.String()] {
			seen[t.String()] = true
			trig = append(trig, []*Term{t})
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	if len(trig) == 0 {
		trig = autoTriggers([]*Term{b}, body)
	}
	return Forall([]*Term{b}, trig, f)
}

func mentions(tr []*Term, vars []*Term) bool {
	for _, v := range vars {
		ok := false
		for _, t := range tr {
			if strings.Contains(" "+strings.NewReplacer("(", " ", ")", " ").Replace(t.String())+" ", " "+v.Op+" ") {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// nameHeap gives every heap array a plain name, so invariants trigger well.
func (x *Exec) nameHeap(st *State) {
	for _, h := range sortedKeys(st.heap) {
		t := st.heap[h]
		if t.Kind == 'c' || t.Kind == 'l' {
			continue
		}
		if strings.HasPrefix(h, "next.") {
			continue
		}
		c := x.fresh("H."+h, t.Sort)
		st.assume(App("=", BoolS, c, t))
		st.heap[h] = c
	}
}

func (x *Exec) assumeObjInvs(st *State) { x.assumeObjInvsBut(st, nil) }

// assumeObjInvsBut assumes the object invariants except the opened ones.
func (x *Exec) assumeObjInvsBut(st *State, opened []string) {
	if x.lemma != nil {
		return
	}
	x.nameHeap(st)
	for _, i := range x.objInvTerms(st, true) {
		if !isOpened(i.label, opened) {
			st.assume(i.t)
		}
	}
}

func isOpened(label string, opened []string) bool {
	for _, o := range opened {
		if label == o || strings.HasPrefix(label, o+".") {
			return true
		}
	}
	return false
}

func (x *Exec) assertObjInvs(st *State, when string, pos token.Pos) {
	x.assertObjInvsBut(st, when, pos, nil)
}

func (x *Exec) assertObjInvsBut(st *State, when string, pos token.Pos, opened []string) {
	if x.lemma != nil || x.c != nil && x.c.Flags["noinv"] != "" {
		return
	}
	x.nameHeap(st)
	for _, i := range x.objInvTerms(st, false) {
		if isOpened(i.label, opened) {
			continue
		}
		x.obligeP(st, "objinv", when+": "+i.label, i.props, i.t, pos)
	}
}

// ---- hints ----

func (x *Exec) hints(st *State, hs []*Hint, where string, pos token.Pos) {
	for _, h := range hs {
		if h.Where == where {
			x.applyHint(st, h, x.envAt(st, pos), pos)
		}
	}
}

func (x *Exec) hintsAt(st *State, where string, binds map[string]TV) {
	if x.c == nil {
		return
	}
	for _, h := range x.c.Hints {
		if h.Where == where {
			pos := token.NoPos
			if len(x.inl) > 0 {
				pos = x.inl[len(x.inl)-1].decl.body.Rbrace
			} else if x.decl != nil {
				pos = x.decl.body.Rbrace
			}
			env := x.envAt(st, pos)
			for n, tv := range binds {
				env.vars["c_"+n] = tv
			}
			x.applyHint(st, h, env, pos)
		}
	}
}

func (x *Exec) applyHint(st *State, h *Hint, env *SEnv, pos token.Pos) {
	cond := True
	if h.Cond != nil {
		cond = x.specBool(h.Cond, env)
	}
	switch h.Kind {
	case "assert":
		x.oblige(st, "assert", h.Label, Imp(cond, x.specBool(h.E, env)), pos)
	case "forall":
		q := h.E.(*SQuant)
		c, ok := q.Body.(*SCall)
		if !ok || x.v.specs.Lemmas[c.Fun] == nil {
			specErr(h.Line, "hint forall needs a lemma call")
		}
		en := env
		var bvs []*Term
		for _, qv := range q.Vars {
			ty := x.v.parseType(qv.Type)
			x.nfresh++
			b := BVar(fmt.Sprintf("%s_h%d", mangle(qv.Name), x.nfresh), x.v.sortOfSpec(ty))
			bvs = append(bvs, b)
			en = en.with(qv.Name, TV{x.v.unpack(b, ty), ty})
		}
		req, ens := x.lemmaInst(c.Fun, c.Args, en, h.Line)
		var trig [][]*Term
		for _, tr := range q.Trig {
			var ts []*Term
			for _, t := range tr {
				ts = append(ts, x.specTerm(t, en))
			}
			trig = append(trig, ts)
		}
		if len(trig) == 0 {
			trig = autoTriggers(bvs, Imp(req, ens))
		}
		st.assume(Imp(cond, Forall(bvs, trig, Imp(req, ens))))
	case "lemma":
		req, ens := x.lemmaInst(h.Name, h.Args, env, h.Line)
		x.oblige(st, "lemma-pre", h.Name, Imp(cond, req), pos)
		st.assume(Imp(cond, ens))
	}
}

// lemmaInst instantiates a lemma's statement.
func (x *Exec) lemmaInst(name string, args []SExpr, env *SEnv, line int) (req, ens *Term) {
	l := x.v.specs.Lemmas[name]
	if l == nil {
		specErr(line, "unknown lemma %s", name)
	}
	if x.usedLem != nil {
		x.usedLem[name] = true
	}
	if len(args) != len(l.Params) {
		specErr(line, "lemma %s takes %d arguments", name, len(l.Params))
	}
	e2 := &SEnv{x: x, st: env.st, vars: map[string]TV{}, olds: env.olds}
	for i, p := range l.Params {
		ty := x.v.parseType(p.Type)
		a := x.specEval(args[i], env)
		if isNilType(a.Ty) {
			a.V = x.nilOf(ty)
		}
		a.Ty = ty
		e2.vars[p.Name] = a
	}
	var rs, es []*Term
	for _, r := range l.Requires {
		rs = append(rs, x.specBool(r.E, e2))
	}
	for _, r := range l.Ensures {
		es = append(es, x.specBool(r.E, e2))
	}
	return And(rs...), And(es...)
}

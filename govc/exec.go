package main

// Forward symbolic execution of Go function bodies in continuation-passing
// style.  Every control-flow path is followed to the function's exits; loops
// are cut at their invariants; calls go through contracts.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type Verifier struct {
	fset      *token.FileSet
	info      *types.Info
	pkg       *types.Package
	files     []*ast.File
	decls     map[string]*FnDecl
	specs     *Specs
	assigned  map[types.Object]bool // package variables assigned in some function
	varInit   map[types.Object]ast.Expr
	lemOrd    map[string]int
	typeCache map[string]types.Type
	axioms    []axiomT
	calls     map[string]map[string]bool
	scc       map[string]int
	sccSelf   map[int]bool
	keyCache  map[string]Sort
	keyTypes  map[string]types.Type
	locals    map[string][]string
	aliasRets map[string]pathSet
	inplaces  map[string]pathSet
}

type FnDecl struct {
	key  string
	obj  *types.Func // nil for package-level function variables
	typ  *ast.FuncType
	recv *ast.FieldList
	body *ast.BlockStmt
	sig  *types.Signature
}

type pcNode struct {
	t   *Term
	up  *pcNode
	def bool // defines a fresh constant, so it holds on every path
}

type deferred struct {
	id  string
	run func(st *State, k func(*State))
}

type State struct {
	vars    map[types.Object]Val
	ghost   map[string]*Term
	heap    map[string]*Term
	pc      *pcNode
	defers  [][]deferred
	trace   []int
	snaps   map[string]*State // "iter" snapshots etc
	loopSet []*writeSet       // write sets the current loops allow
	calls   map[string]int
}

type writeSet struct {
	vars  map[types.Object]bool
	heaps map[string]bool
	base  map[types.Object]bool
}

func (s *State) clone() *State {
	n := &State{vars: make(map[types.Object]Val, len(s.vars)+2), ghost: make(map[string]*Term, len(s.ghost)), heap: make(map[string]*Term, len(s.heap)+2), pc: s.pc}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.calls = make(map[string]int, len(s.calls))
	for k, v := range s.calls {
		n.calls[k] = v
	}
	n.defers = make([][]deferred, len(s.defers))
	for i, d := range s.defers {
		n.defers[i] = append([]deferred{}, d...)
	}
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.snaps = s.snaps
	n.loopSet = s.loopSet
	return n
}

func (s *State) assume(t *Term) {
	if t == True {
		return
	}
	if t.Kind == 'a' && t.Op == "and" {
		for _, a := range t.Args {
			s.assume(a)
		}
		return
	}
	n := &pcNode{t: t, up: s.pc}
	s.pc = n
}

// define introduces c as a name for t.
func (s *State) define(c, t *Term) {
	s.pc = &pcNode{t: App("=", BoolS, c, t), up: s.pc, def: true}
}

func (s *State) known(t *Term) bool {
	k := t.String()
	for n := s.pc; n != nil; n = n.up {
		if n.t.String() == k {
			return true
		}
	}
	return false
}

func (s *State) asms() []*Term {
	var out []*Term
	for n := s.pc; n != nil; n = n.up {
		out = append(out, n.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Obligation is one proof obligation.
type Obligation struct {
	Fn    string   `json:"fn"`
	Kind  string   `json:"kind"`
	Label string   `json:"label"`
	Props []string `json:"props,omitempty"`
	Also  []string `json:"-"` // properties the clause belongs to by what it mentions
	Line  int      `json:"line"`
	Trace []int    `json:"trace,omitempty"`
	Name  string   `json:"name"`
	asms  []*Term
	goal  *Term
	mode  string
	cover bool
	// result
	Status string  `json:"status"` // discharged | failed | unknown | covered | vacuous
	By     string  `json:"by"`
	Time   float64 `json:"time"`
	File   string  `json:"file,omitempty"`
}

type Exec struct {
	also     []string
	v        *Verifier
	key      string
	c        *Contract
	decl     *FnDecl
	obls     []*Obligation
	nfresh   int
	collect  int
	logs     []*writeSet
	inl      []inlFrame
	loopOrds map[string]int
	entry    *State
	params   map[string]TV
	ext      bool
	mode     string
	paths    int
	used     map[string]bool // contracts relied upon
	pures    map[string]bool // library functions treated as uninterpreted
	unmod    map[string]bool // unmodelled library functions
	seenObl  map[string]bool
	lemma    *Lemma
	localMap map[string]types.Object
	usedLem  map[string]bool
	modDone  bool
	modCache []modTarget
}

type inlFrame struct {
	decl *FnDecl
	pos  token.Pos // call position in the parent
	id   string
}

func (x *Exec) fail(pos token.Pos, format string, args ...interface{}) {
	line := 0
	if pos.IsValid() {
		line = x.v.fset.Position(pos).Line
	}
	panic(unsupported{line, fmt.Sprintf(format, args...)})
}

func (x *Exec) fresh(hint string, s Sort) *Term {
	x.nfresh++
	return Const(fmt.Sprintf("%s!%d", mangle(hint), x.nfresh), s)
}

func (x *Exec) oblige(st *State, kind, label string, goal *Term, pos token.Pos) {
	x.obligeP(st, kind, label, nil, goal, pos)
}

func (x *Exec) obligeP(st *State, kind, label string, props []string, goal *Term, pos token.Pos) {
	if x.collect > 0 {
		st.assume(goal)
		return
	}
	line := 0
	if pos.IsValid() {
		line = x.v.fset.Position(pos).Line
	}
	if goal.Kind == 'a' && goal.Op == "and" {
		for i, g := range goal.Args {
			l := label
			if kind != "nil" {
				l = fmt.Sprintf("%s.%d", label, i)
			}
			x.obligeP(st, kind, l, props, g, pos)
		}
		return
	}
	o := &Obligation{Fn: x.key, Kind: kind, Label: label, Props: props, Also: x.also, Line: line, Trace: st.trace, goal: goal, mode: x.mode}
	known := goal == True || st.known(goal)
	if known {
		o.Status, o.By = "discharged", "syntactic"
	} else {
		o.asms = st.asms()
	}
	x.obls = append(x.obls, o)
	if !known && kind != "objinv" && kind != "frame" && kind != "ensures" {
		st.assume(goal)
	}
}

// tagged runs f with the properties text belongs to (tag clauses).
func (x *Exec) tagged(text string, f func()) {
	old := x.also
	x.also = nil
	for p, ts := range x.v.specs.Tags {
		for _, t := range ts {
			if strings.Contains(text, t) {
				x.also = append(x.also, p)
				break
			}
		}
	}
	f()
	x.also = old
}

func (x *Exec) cover(st *State, label string, pos token.Pos) {
	if x.collect > 0 {
		return
	}
	line := 0
	if pos.IsValid() {
		line = x.v.fset.Position(pos).Line
	}
	x.obls = append(x.obls, &Obligation{Fn: x.key, Kind: "cover", Label: label, Line: line, goal: False, asms: st.asms(), mode: x.mode, cover: true, Trace: st.trace})
}

// ---- heap ----

func (x *Exec) heapGet(st *State, key string, s Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := Const("H0."+mangle(key), s)
	st.heap[key] = t
	return t
}

func (x *Exec) heapSet(st *State, key string, t *Term) {
	for _, l := range x.logs {
		l.heaps[key] = true
	}
	if x.collect == 0 {
		for _, ws := range st.loopSet {
			if !ws.heaps[key] {
				x.fail(token.NoPos, "internal: heap %s written in a loop outside its write set", key)
			}
		}
	}
	st.heap[key] = t
}

func (x *Exec) varSet(st *State, o types.Object, v Val) {
	for _, l := range x.logs {
		if l.base[o] {
			l.vars[o] = true
		}
	}
	if x.collect == 0 {
		for _, ws := range st.loopSet {
			if ws.base[o] && !ws.vars[o] {
				x.fail(token.NoPos, "internal: variable %s written in a loop outside its write set", o.Name())
			}
		}
	}
	st.vars[o] = v
}

func (x *Exec) nextOf(st *State, tn string) *Term {
	k := "next." + tn
	if t, ok := st.heap[k]; ok {
		return t
	}
	t := x.heapGet(st, k, IntS)
	return t
}

// fieldKeys lists the heap keys (with sorts) that hold the fields of struct T.
func (v *Verifier) fieldKeys(t types.Type) map[string]Sort {
	out := map[string]Sort{}
	n := typeName(t)
	var rec func(prefix string, ty types.Type)
	rec = func(prefix string, ty types.Type) {
		s := v.structOf(ty)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			ft := f.Type()
			switch {
			case v.externObj(ft):
				for g, gt := range v.specs.Ghosts {
					if strings.HasPrefix(g, typeName(ft)+".") {
						out[g] = v.sortOf(v.parseType(gt))
					}
				}
			case v.structOf(ft) != nil:
				rec(prefix+"."+f.Name(), ft)
			default:
				out[prefix+"."+f.Name()] = v.sortOf(ft)
			}
		}
	}
	if v.structOf(t) != nil {
		rec(n, t)
	}
	for g, gt := range v.specs.Ghosts {
		if strings.HasPrefix(g, n+".") && strings.Count(g, ".") == strings.Count(n, ".")+1 {
			out[g] = v.sortOf(v.parseType(gt))
		}
	}
	return out
}

// readField reads field path (prefix is the type name) of object ref.
func (x *Exec) readField(st *State, prefix string, ft types.Type, ref *Term) Val {
	v := x.v
	if v.externObj(ft) {
		return ref // identity of the embedded object
	}
	if s := v.structOf(ft); s != nil {
		sv := &StructVal{T: ft, Fields: map[string]Val{}}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			sv.Fields[f.Name()] = x.readField(st, prefix+"."+f.Name(), f.Type(), ref)
		}
		return sv
	}
	srt := v.sortOf(ft)
	return Select(x.heapGet(st, prefix, arrSort(IntS, srt)), ref)
}

func (x *Exec) writeField(st *State, prefix string, ft types.Type, ref *Term, val Val) {
	v := x.v
	if v.externObj(ft) {
		// value copy of an object: only zero-initialisation is modelled
		for g, gt := range v.specs.Ghosts {
			if strings.HasPrefix(g, typeName(ft)+".") {
				srt := v.sortOf(v.parseType(gt))
				h := x.heapGet(st, g, arrSort(IntS, srt))
				x.heapSet(st, g, Store(h, ref, zeroOfSort(srt)))
			}
		}
		return
	}
	if s := v.structOf(ft); s != nil {
		sv, ok := val.(*StructVal)
		if !ok {
			sv = v.unpack(val.(*Term), ft).(*StructVal)
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			x.writeField(st, prefix+"."+f.Name(), f.Type(), ref, sv.Fields[f.Name()])
		}
		return
	}
	srt := v.sortOf(ft)
	h := x.heapGet(st, prefix, arrSort(IntS, srt))
	t := x.asTerm(st, val, ft)
	x.heapSet(st, prefix, Store(h, ref, x.name(st, t, "v")))
}

// zeroVal is the zero value of a Go type.
func (x *Exec) zeroVal(st *State, t types.Type) Val {
	v := x.v
	if v.externObj(t) {
		return x.alloc(st, t)
	}
	if s := v.structOf(t); s != nil {
		sv := &StructVal{T: t, Fields: map[string]Val{}}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if v.externObj(f.Type()) {
				sv.Fields[f.Name()] = IntLit(0)
				continue
			}
			sv.Fields[f.Name()] = x.zeroVal(st, f.Type())
		}
		return sv
	}
	return zeroOfSort(v.sortOf(t))
}

// alloc allocates a new object of struct type t with zero ghost state.
func (x *Exec) alloc(st *State, t types.Type) *Term {
	tn := typeName(t)
	r := x.nextOf(st, tn)
	x.heapSet(st, "next."+tn, Add(r, IntLit(1)))
	st.assume(Lt(IntLit(0), r))
	for g, gt := range x.v.specs.Ghosts {
		if strings.HasPrefix(g, tn+".") {
			srt := x.v.sortOf(x.v.parseType(gt))
			h := x.heapGet(st, g, arrSort(IntS, srt))
			x.heapSet(st, g, Store(h, r, zeroOfSort(srt)))
		}
	}
	return r
}

// freshVal makes an arbitrary value of a type, with its type facts assumed.
func (x *Exec) freshVal(st *State, hint string, t types.Type) Val {
	v := x.v
	if s := v.structOf(t); s != nil {
		sv := &StructVal{T: t, Fields: map[string]Val{}}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if v.externObj(f.Type()) {
				sv.Fields[f.Name()] = IntLit(0)
				continue
			}
			sv.Fields[f.Name()] = x.freshVal(st, hint+"."+f.Name(), f.Type())
		}
		return sv
	}
	c := x.fresh(hint, v.sortOf(t))
	x.typeFacts(st, c, t)
	return c
}

func (x *Exec) typeFacts(st *State, c *Term, t types.Type) {
	if pe, ok := ptrElem(t); ok {
		if x.v.structOf(pe) != nil || x.v.externObj(pe) {
			st.assume(Le(IntLit(0), c))
			st.assume(Lt(c, x.nextOf(st, typeName(pe))))
			return
		}
	}
	if b, ok := types.Unalias(t).Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		switch b.Kind() {
		case types.Uint8:
			st.assume(And(Le(IntLit(0), c), Le(c, IntLit(255))))
		case types.Int, types.Int64:
			st.assume(And(Le(BigLit("-9223372036854775808"), c), Le(c, BigLit("9223372036854775807"))))
		case types.Uint, types.Uint64:
			st.assume(And(Le(IntLit(0), c), Le(c, BigLit("18446744073709551615"))))
		case types.Int32:
			st.assume(And(Le(IntLit(-2147483648), c), Le(c, IntLit(2147483647))))
		}
	}
}

// name introduces a constant for a large term.
func (x *Exec) name(st *State, t *Term, hint string) *Term {
	if t.Kind == 'q' || len(t.String()) < 100 {
		return t
	}
	c := x.fresh(hint, t.Sort)
	st.define(c, t)
	return c
}

func (x *Exec) nameVal(st *State, v Val, hint string) Val {
	if t, ok := v.(*Term); ok {
		return x.name(st, t, hint)
	}
	return v
}

func (x *Exec) asTerm(st *State, v Val, t types.Type) *Term {
	switch y := v.(type) {
	case *Term:
		return y
	case *StructVal:
		return x.v.pack(y)
	case *ClosureVal:
		return x.closureTerm(st, y)
	case nil:
		panic(unsupported{0, "nil value"})
	}
	panic(unsupported{0, fmt.Sprintf("cannot use %T as a term", v)})
}

// coerce converts val of type from to type to (implicit conversions).
func (x *Exec) coerce(st *State, val Val, from, to types.Type) Val {
	if to == nil || from == nil {
		return val
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return x.nilOf(to)
	}
	if isInterface(to) && !isInterface(from) {
		if _, ok := types.Unalias(to).(*types.TypeParam); ok {
			return val
		}
		if cv, ok := val.(*ClosureVal); ok {
			val = x.closureTerm(st, cv)
		}
		return x.v.box(val, from)
	}
	return val
}

func (x *Exec) nilOf(t types.Type) Val {
	if _, ok := ptrElem(t); ok {
		return IntLit(0)
	}
	return zeroOfSort(x.v.sortOf(t))
}

// ---- statements ----

type Cont struct {
	next func(*State)
	ret  func(*State, []Val, token.Pos)
	brk  map[string]func(*State)
	cnt  map[string]func(*State)
	fall func(*State)
}

func (k Cont) withNext(f func(*State)) Cont { k.next = f; return k }

func (x *Exec) execBlock(st *State, list []ast.Stmt, k Cont) {
	if len(list) == 0 {
		k.next(st)
		return
	}
	x.exec(st, list[0], "", k.withNext(func(s *State) { x.execBlock(s, list[1:], k) }))
}

func (x *Exec) line(n ast.Node) int { return x.v.fset.Position(n.Pos()).Line }

func copyMap(m map[string]func(*State)) map[string]func(*State) {
	n := map[string]func(*State){}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (x *Exec) exec(st *State, s ast.Stmt, label string, k Cont) {
	switch s := s.(type) {
	case *ast.ExprStmt:
		if c, ok := unparen(s.X).(*ast.CallExpr); ok {
			x.evalCall(st, c, func(st *State, _ []Val) { k.next(st) })
			return
		}
		x.eval(st, s.X, func(st *State, _ Val) { k.next(st) })
	case *ast.AssignStmt:
		x.execAssign(st, s, k.next)
	case *ast.IncDecStmt:
		x.lvalue(st, s.X, func(st *State, lv *lval) {
			cur := lv.get(st).(*Term)
			var nv *Term
			if s.Tok == token.INC {
				nv = Add(cur, IntLit(1))
			} else {
				nv = Sub(cur, IntLit(1))
			}
			lv.set(st, nv)
			k.next(st)
		})
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k.next(st)
			return
		}
		x.execSpecs(st, gd.Specs, k.next)
	case *ast.BlockStmt:
		x.execBlock(st, s.List, k)
	case *ast.EmptyStmt:
		k.next(st)
	case *ast.LabeledStmt:
		x.exec(st, s.Stmt, s.Label.Name, k)
	case *ast.IfStmt:
		body := func(st *State) {
			x.join(st, func(st *State, next func(*State)) {
				k := k.withNext(next)
				x.cond(st, s.Cond, func(st *State) {
					st.trace = append(st.trace, x.line(s))
					x.execBlock(st, s.Body.List, k)
				}, func(st *State) {
					st.trace = append(st.trace, -x.line(s))
					if s.Else != nil {
						x.exec(st, s.Else, "", k)
					} else {
						k.next(st)
					}
				})
			}, k.next)
		}
		if s.Init != nil {
			x.exec(st, s.Init, "", k.withNext(body))
		} else {
			body(st)
		}
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			k.ret(st, nil, s.Pos())
			return
		}
		x.evalMulti(st, s.Results, func(st *State, vs []Val, ts []types.Type) {
			st.ghost = copyGhost(st.ghost)
			k.ret(st, x.coerceResults(st, vs, ts), s.Pos())
		})
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			if f := k.brk[l]; f != nil {
				f(st)
				return
			}
		case token.CONTINUE:
			if f := k.cnt[l]; f != nil {
				f(st)
				return
			}
		case token.FALLTHROUGH:
			if k.fall != nil {
				k.fall(st)
				return
			}
		}
		x.fail(s.Pos(), "branch statement %s %s", s.Tok, l)
	case *ast.SwitchStmt:
		x.join(st, func(st *State, next func(*State)) { x.execSwitch(st, s, label, k.withNext(next)) }, k.next)
	case *ast.TypeSwitchStmt:
		x.join(st, func(st *State, next func(*State)) { x.execTypeSwitch(st, s, label, k.withNext(next)) }, k.next)
	case *ast.ForStmt:
		x.execFor(st, s, label, k)
	case *ast.RangeStmt:
		x.execRange(st, s, label, k)
	case *ast.DeferStmt:
		if len(x.inl) > 0 && x.inDeferLoop(s) {
			x.fail(s.Pos(), "defer inside a loop")
		}
		if fl, ok := unparen(s.Call.Fun).(*ast.FuncLit); ok && len(s.Call.Args) == 0 {
			top := len(st.defers) - 1
			st.defers[top] = append(st.defers[top], deferred{x.loopID(s), func(st *State, kk func(*State)) {
				x.execBlock(st, fl.Body.List, Cont{next: kk, ret: func(s *State, _ []Val, _ token.Pos) { kk(s) }})
			}})
			k.next(st)
			return
		}
		x.prepareCall(st, s.Call, func(st *State, inv invoker) {
			top := len(st.defers) - 1
			st.defers[top] = append(st.defers[top], deferred{x.loopID(s), func(st *State, kk func(*State)) {
				inv(st, func(s *State, _ []Val) { kk(s) })
			}})
			k.next(st)
		})
	default:
		x.fail(s.Pos(), "statement %T", s)
	}
}

func (x *Exec) inDeferLoop(s ast.Stmt) bool { return false }

func copyGhost(g map[string]*Term) map[string]*Term { return g }

func (x *Exec) execSpecs(st *State, specs []ast.Spec, next func(*State)) {
	if len(specs) == 0 {
		next(st)
		return
	}
	vs := specs[0].(*ast.ValueSpec)
	rest := func(st *State) { x.execSpecs(st, specs[1:], next) }
	if len(vs.Values) == 0 {
		for _, n := range vs.Names {
			o := x.v.info.Defs[n]
			if o != nil {
				x.varSet(st, o, x.zeroVal(st, o.Type()))
			}
		}
		rest(st)
		return
	}
	x.evalMulti(st, vs.Values, func(st *State, vals []Val, ts []types.Type) {
		for i, n := range vs.Names {
			if n.Name == "_" {
				continue
			}
			o := x.v.info.Defs[n]
			x.varSet(st, o, x.nameVal(st, x.coerce(st, vals[i], ts[i], o.Type()), n.Name))
		}
		rest(st)
	})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (x *Exec) execAssign(st *State, s *ast.AssignStmt, next func(*State)) {
	if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
		// op=
		x.lvalue(st, s.Lhs[0], func(st *State, lv *lval) {
			x.eval(st, s.Rhs[0], func(st *State, r Val) {
				op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND}[s.Tok]
				if op == 0 {
					x.fail(s.Pos(), "assignment operator %s", s.Tok)
				}
				t := x.binop(st, op, lv.get(st), r, x.v.info.TypeOf(s.Lhs[0]), s.Pos())
				lv.set(st, x.nameVal(st, t, "a"))
				next(st)
			})
		})
		return
	}
	x.evalMultiN(st, s.Rhs, len(s.Lhs), func(st *State, vals []Val, ts []types.Type) {
		var do func(st *State, i int)
		do = func(st *State, i int) {
			if i == len(s.Lhs) {
				next(st)
				return
			}
			if id, ok := s.Lhs[i].(*ast.Ident); ok {
				if id.Name == "_" {
					do(st, i+1)
					return
				}
				if o := x.v.info.Defs[id]; o != nil {
					x.varSet(st, o, x.nameVal(st, x.coerce(st, vals[i], ts[i], o.Type()), id.Name))
					do(st, i+1)
					return
				}
			}
			x.lvalue(st, s.Lhs[i], func(st *State, lv *lval) {
				lt := x.v.info.TypeOf(s.Lhs[i])
				lv.set(st, x.nameVal(st, x.coerce(st, vals[i], ts[i], lt), "a"))
				do(st, i+1)
			})
		}
		do(st, 0)
	})
}

func (x *Exec) execSwitch(st *State, s *ast.SwitchStmt, label string, k Cont) {
	run := func(st *State) {
		kk := k
		kk.brk = copyMap(k.brk)
		kk.brk[""] = k.next
		if label != "" {
			kk.brk[label] = k.next
		}
		var clauses []*ast.CaseClause
		var def = -1
		for i, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			clauses = append(clauses, cc)
			if cc.List == nil {
				def = i
			}
		}
		var body func(st *State, i int)
		body = func(st *State, i int) {
			b := kk
			b.fall = func(st *State) { body(st, i+1) }
			st.trace = append(st.trace, x.line(clauses[i]))
			x.execBlock(st, clauses[i].Body, b)
		}
		dispatch := func(st *State, tag Val) {
			var try func(st *State, ci, ei int)
			try = func(st *State, ci, ei int) {
				if ci == len(clauses) {
					if def >= 0 {
						body(st, def)
					} else {
						k.next(st)
					}
					return
				}
				if clauses[ci].List == nil || ei == len(clauses[ci].List) {
					try(st, ci+1, 0)
					return
				}
				e := clauses[ci].List[ei]
				if s.Tag == nil {
					x.cond(st, e, func(st *State) { body(st, ci) }, func(st *State) { try(st, ci, ei+1) })
					return
				}
				// group constant cases of one clause into a disjunction
				allConst := true
				for _, e := range clauses[ci].List {
					if tv := x.v.info.Types[e]; tv.Value == nil {
						allConst = false
					}
				}
				tt := x.v.info.TypeOf(s.Tag)
				if allConst && ei == 0 {
					var ds []*Term
					for _, e := range clauses[ci].List {
						cv := x.constVal(x.v.info.Types[e].Value, x.v.info.TypeOf(e))
						ds = append(ds, x.eqVals(st, tag, cv, tt))
					}
					x.branch(st, Or(ds...), func(st *State) { body(st, ci) }, func(st *State) { try(st, ci+1, 0) })
					return
				}
				x.eval(st, e, func(st *State, v Val) {
					c := x.eqVals(st, tag, x.coerce(st, v, x.v.info.TypeOf(e), tt), tt)
					x.branch(st, c, func(st *State) { body(st, ci) }, func(st *State) { try(st, ci, ei+1) })
				})
			}
			try(st, 0, 0)
		}
		if s.Tag == nil {
			dispatch(st, nil)
		} else {
			x.eval(st, s.Tag, func(st *State, v Val) { dispatch(st, v) })
		}
	}
	if s.Init != nil {
		x.exec(st, s.Init, "", k.withNext(run))
	} else {
		run(st)
	}
}

func (x *Exec) execTypeSwitch(st *State, s *ast.TypeSwitchStmt, label string, k Cont) {
	var ex ast.Expr
	switch a := s.Assign.(type) {
	case *ast.AssignStmt:
		ex = a.Rhs[0].(*ast.TypeAssertExpr).X
	case *ast.ExprStmt:
		ex = a.X.(*ast.TypeAssertExpr).X
	}
	kk := k
	kk.brk = copyMap(k.brk)
	kk.brk[""] = k.next
	if label != "" {
		kk.brk[label] = k.next
	}
	run := func(st *State) {
		x.eval(st, ex, func(st *State, v Val) {
			t := v.(*Term)
			var def *ast.CaseClause
			var try func(st *State, i int)
			bind := func(st *State, cc *ast.CaseClause, val Val) {
				if o := x.v.info.Implicits[cc]; o != nil {
					st.vars[o] = val
				}
				st.trace = append(st.trace, x.line(cc))
				x.execBlock(st, cc.Body, kk)
			}
			try = func(st *State, i int) {
				if i == len(s.Body.List) {
					if def != nil {
						bind(st, def, t)
					} else {
						k.next(st)
					}
					return
				}
				cc := s.Body.List[i].(*ast.CaseClause)
				if cc.List == nil {
					def = cc
					try(st, i+1)
					return
				}
				var ds []*Term
				var one types.Type
				for _, e := range cc.List {
					ct := x.v.info.TypeOf(e)
					if b, ok := ct.(*types.Basic); ok && b.Kind() == types.UntypedNil {
						ds = append(ds, Eq(t, App("iface.nil", IfaceS)))
						continue
					}
					one = ct
					ds = append(ds, x.v.hasType(t, ct))
				}
				x.branch(st, Or(ds...), func(st *State) {
					var val Val = t
					if len(cc.List) == 1 && one != nil && !isInterface(one) {
						val = x.v.unbox(t, one)
						if tt, ok := val.(*Term); ok {
							x.typeFacts(st, tt, one)
						}
					}
					bind(st, cc, val)
				}, func(st *State) { try(st, i+1) })
			}
			try(st, 0)
		})
	}
	if s.Init != nil {
		x.exec(st, s.Init, "", k.withNext(run))
	} else {
		run(st)
	}
}

// branch forks the state on a condition, pruning decided branches.
func (x *Exec) branch(st *State, c *Term, yes, no func(*State)) {
	if c == True {
		yes(st)
		return
	}
	if c == False {
		no(st)
		return
	}
	nc := Not(c)
	if st.known(c) {
		yes(st)
		return
	}
	if st.known(nc) {
		no(st)
		return
	}
	x.paths++
	if x.paths > 200000 {
		x.fail(token.NoPos, "too many paths")
	}
	s2 := st.clone()
	st.assume(c)
	yes(st)
	s2.assume(nc)
	no(s2)
}

// cond evaluates a boolean expression with short-circuit control flow.
func (x *Exec) cond(st *State, e ast.Expr, yes, no func(*State)) {
	e = unparen(e)
	if tv := x.v.info.Types[e]; tv.Value != nil {
		if constant.BoolVal(tv.Value) {
			yes(st)
		} else {
			no(st)
		}
		return
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		x.cond(st, u.X, no, yes)
		return
	}
	if b, ok := e.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) && x.noMerge() {
		if b.Op == token.LAND {
			x.cond(st, b.X, func(st *State) { x.cond(st, b.Y, yes, no) }, no)
		} else {
			x.cond(st, b.X, yes, func(st *State) { x.cond(st, b.Y, yes, no) })
		}
		return
	}
	x.eval(st, e, func(st *State, v Val) { x.branch(st, v.(*Term), yes, no) })
}

// ---- loops ----

func (x *Exec) loopID(n ast.Node) string {
	id := ""
	for _, f := range x.inl {
		id += f.id + "/"
	}
	return id + fmt.Sprint(n.Pos())
}

// numberLoops assigns ordinals to loops in source order, walking into the
// bodies of functions that will be inlined.
func (x *Exec) numberLoops(d *FnDecl) {
	n := 0
	var walk func(d *FnDecl, prefix string, depth int)
	walk = func(d *FnDecl, prefix string, depth int) {
		ast.Inspect(d.body, func(nd ast.Node) bool {
			switch e := nd.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				if r, ok := nd.(*ast.RangeStmt); ok && r.Key == nil && r.Value == nil && len(r.Body.List) == 0 {
					return true
				}
				if f, ok := nd.(*ast.ForStmt); ok && len(f.Body.List) == 0 {
					return true
				}
				x.loopOrds[prefix+fmt.Sprint(nd.Pos())] = n
				n++
			case *ast.CallExpr:
				if fd := x.v.calleeDecl(e); fd != nil && depth < 6 {
					c := x.v.specs.Contracts[fd.key]
					if c == nil || c.Flags["inline"] != "" {
						walk(fd, prefix+fmt.Sprint(e.Pos())+"/", depth+1)
					}
				}
			}
			return true
		})
	}
	walk(d, "", 0)
}

func (x *Exec) loopSpec(n ast.Node) (*LoopSpec, int) {
	ord, ok := x.loopOrds[x.loopID(n)]
	if !ok {
		return &LoopSpec{}, -1
	}
	if x.c == nil {
		return &LoopSpec{}, ord
	}
	// an inlined contracted function brings its own loop specs
	if ls := x.c.Loops[ord]; ls != nil {
		return ls, ord
	}
	return &LoopSpec{}, ord
}

// usable drops the invariants (not those that state a property) that mention
// names or ghosts the loop no longer has: less is then known about the loop,
// and whatever needed them fails on its own account.
func (x *Exec) usable(ls *LoopSpec, env func() *SEnv) *LoopSpec {
	ok := func(f func()) (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if u, is := r.(unsupported); is && strings.HasPrefix(u.msg, "contract: ") {
					ok = false
					return
				}
				panic(r)
			}
		}()
		f()
		return true
	}
	var invs []*Clause
	for _, c := range ls.Invs {
		if len(c.Props) > 0 || ok(func() { x.specBool(c.E, env()) }) {
			invs = append(invs, c)
		}
	}
	dec := ls.Dec
	for _, d := range dec {
		if !ok(func() { x.specTerm(d, env()) }) {
			dec = nil
			break
		}
	}
	if len(invs) == len(ls.Invs) && len(dec) == len(ls.Dec) {
		return ls
	}
	n := *ls
	n.Invs, n.Dec = invs, dec
	return &n
}

// counter is the variable of a loop "for i := a; i < b; i++" (or downwards,
// "i >= b", "i > b", "i--") whose body does not assign it.
type counter struct {
	obj   types.Object
	down  bool
	bound ast.Expr // i < bound, or i > bound (strict) when down
	incl  bool     // <= or >=
}

func (x *Exec) counterOf(s *ast.ForStmt) *counter {
	as, ok := s.Init.(*ast.AssignStmt)
	if !ok || as.Tok != token.DEFINE {
		return nil
	}
	var id *ast.Ident
	c := &counter{}
	step := func(e ast.Expr, down bool) {
		if i, ok := unparen(e).(*ast.Ident); ok {
			id = i
			c.down = down
		}
	}
	one := func(e ast.Expr) bool {
		tv := x.v.info.Types[e]
		return tv.Value != nil && tv.Value.ExactString() == "1"
	}
	switch p := s.Post.(type) {
	case *ast.IncDecStmt:
		step(p.X, p.Tok == token.DEC)
	case *ast.AssignStmt:
		if (p.Tok == token.ADD_ASSIGN || p.Tok == token.SUB_ASSIGN) && len(p.Lhs) == 1 && one(p.Rhs[0]) {
			step(p.Lhs[0], p.Tok == token.SUB_ASSIGN)
		}
	}
	if id == nil {
		return nil
	}
	c.obj = x.v.info.Uses[id]
	found := false
	for _, l := range as.Lhs {
		if li, ok := l.(*ast.Ident); ok && x.v.info.Defs[li] == c.obj && c.obj != nil {
			found = true
		}
	}
	if !found {
		return nil
	}
	is := func(e ast.Expr) bool {
		i, ok := unparen(e).(*ast.Ident)
		return ok && x.v.info.Uses[i] == c.obj
	}
	assigned := false
	ast.Inspect(s.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				assigned = assigned || is(l)
			}
		case *ast.IncDecStmt:
			assigned = assigned || is(n.X)
		case *ast.RangeStmt:
			if n.Key != nil {
				assigned = assigned || is(n.Key)
			}
			if n.Value != nil {
				assigned = assigned || is(n.Value)
			}
		case *ast.UnaryExpr:
			assigned = assigned || n.Op == token.AND && is(n.X)
		case *ast.FuncLit:
			ast.Inspect(n.Body, func(m ast.Node) bool {
				if i, ok := m.(*ast.Ident); ok && x.v.info.Uses[i] == c.obj {
					assigned = true
				}
				return true
			})
		}
		return true
	})
	if assigned {
		return nil
	}
	cond := s.Cond
	for {
		b, ok := unparen(cond).(*ast.BinaryExpr)
		if !ok {
			break
		}
		if b.Op == token.LAND {
			cond = b.X
			continue
		}
		op, l, r := b.Op, b.X, b.Y
		if is(r) {
			l, r = r, l
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if is(l) && !c.down && (op == token.LSS || op == token.LEQ || op == token.NEQ) ||
			is(l) && c.down && (op == token.GTR || op == token.GEQ || op == token.NEQ) {
			if op != token.NEQ {
				c.bound, c.incl = r, op == token.LEQ || op == token.GEQ
			}
		}
		break
	}
	return c
}

// stable: an expression made of local variables, constants, len, field
// selections and arithmetic only; evaluating it cannot branch or fail.
func (x *Exec) pureBound(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.BinaryExpr:
		return (e.Op == token.ADD || e.Op == token.SUB) && x.pureBound(e.X) && x.pureBound(e.Y)
	case *ast.CallExpr:
		id, ok := e.Fun.(*ast.Ident)
		if !ok || id.Name != "len" || len(e.Args) != 1 {
			return false
		}
		if _, ok := x.v.info.Uses[id].(*types.Builtin); !ok {
			return false
		}
		return x.pureBound(e.Args[0])
	case *ast.SelectorExpr:
		_, ok := x.v.info.Selections[e]
		return ok && x.pureBound(e.X)
	}
	return false
}

// boundTerm evaluates a pure bound in a copy of the state, without obligations.
func (x *Exec) boundTerm(st *State, e ast.Expr) (t *Term) {
	s2 := st.clone()
	x.collect++
	defer func() {
		x.collect--
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				t = nil
				return
			}
			panic(r)
		}
	}()
	x.eval(s2, e, func(_ *State, v Val) { t, _ = v.(*Term) })
	return t
}

// sameStep: "for v := e; cond; v = e": the step is the initialisation again,
// so it is the same as computing v at the head of every iteration.
func sameStep(s *ast.ForStmt) bool {
	a, ok := s.Init.(*ast.AssignStmt)
	b, ok2 := s.Post.(*ast.AssignStmt)
	if !ok || !ok2 || len(a.Lhs) != 1 || len(b.Lhs) != 1 || len(a.Rhs) != 1 || len(b.Rhs) != 1 || b.Tok != token.ASSIGN {
		return false
	}
	if types.ExprString(a.Lhs[0]) != types.ExprString(b.Lhs[0]) || types.ExprString(a.Rhs[0]) != types.ExprString(b.Rhs[0]) {
		return false
	}
	// nothing in the body may keep or change v
	v, ok := a.Lhs[0].(*ast.Ident)
	if !ok || a.Tok != token.DEFINE {
		return false
	}
	clean := true
	ast.Inspect(a.Rhs[0], func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok && i.Name == v.Name {
			clean = false
		}
		return true
	})
	ast.Inspect(s.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			clean = false
		case *ast.UnaryExpr:
			if i, ok := n.X.(*ast.Ident); ok && n.Op == token.AND && i.Name == v.Name {
				clean = false
			}
		}
		return true
	})
	return clean
}

func (x *Exec) execFor(st *State, s *ast.ForStmt, label string, k Cont) {
	ls, ord := x.loopSpec(s)
	var indVar types.Object
	if as, ok := s.Init.(*ast.AssignStmt); ok && as.Tok == token.DEFINE && len(as.Lhs) >= 1 {
		indVar = x.v.info.Defs[as.Lhs[0].(*ast.Ident)]
	}
	again := sameStep(s)
	ctr := x.counterOf(s)
	var from *Term
	start := func(st *State) {
		var facts func(st *State)
		var dec func(st *State) *Term
		if ctr != nil {
			from, _ = st.vars[ctr.obj].(*Term)
			bound := func(st *State) *Term {
				if ctr.bound == nil || !x.pureBound(ctr.bound) {
					return nil
				}
				return x.boundTerm(st, ctr.bound)
			}
			b0 := bound(st)
			facts = func(st *State) {
				i, ok := st.vars[ctr.obj].(*Term)
				if !ok || from == nil {
					return
				}
				// it starts there and only ever moves one way
				if ctr.down {
					st.assume(Le(i, from))
				} else {
					st.assume(Le(from, i))
				}
				// and moved last while the unchanged bound allowed it
				if b := bound(st); b != nil && b0 != nil && same(b, b0) {
					d := IntLit(0)
					if ctr.incl {
						d = IntLit(1)
					}
					if ctr.down {
						st.assume(Or(Eq(i, from), Le(Sub(b, d), i)))
					} else {
						st.assume(Or(Eq(i, from), Le(i, Add(b, d))))
					}
				}
			}
			dec = func(st *State) *Term {
				i, ok := st.vars[ctr.obj].(*Term)
				b := bound(st)
				if !ok || b == nil {
					return nil
				}
				d := IntLit(0)
				if ctr.incl {
					d = IntLit(1)
				}
				if ctr.down {
					return Add(Sub(i, b), d)
				}
				return Add(Sub(b, i), d)
			}
		}
		x.loop(st, s, ls, ord, label, k, loopShape{
			pos:   s.Body.Lbrace + 1,
			havoc: facts,
			dec:   dec,
			ghosts: func(st *State) map[string]*Term {
				if indVar != nil {
					if t, ok := st.vars[indVar].(*Term); ok {
						if ctr != nil && ctr.down && ctr.obj == indVar && from != nil {
							return map[string]*Term{"$i": Sub(from, t)}
						}
						return map[string]*Term{"$i": t}
					}
				}
				return nil
			},
			head: func(st *State, body, exit func(*State)) {
				test := func(st *State) {
					if s.Cond == nil {
						body(st)
						return
					}
					x.cond(st, s.Cond, body, exit)
				}
				if again {
					x.exec(st, s.Init, "", Cont{next: test})
				} else {
					test(st)
				}
			},
			body: s.Body.List,
			post: func(st *State, next func(*State)) {
				if s.Post == nil || again {
					next(st)
					return
				}
				x.exec(st, s.Post, "", Cont{next: next})
			},
		})
	}
	if s.Init != nil && !again {
		x.exec(st, s.Init, "", k.withNext(start))
	} else {
		start(st)
	}
}

type loopShape struct {
	pos    token.Pos
	init   func(st *State)
	havoc  func(st *State)
	ghosts func(st *State) map[string]*Term
	head   func(st *State, body, exit func(*State))
	body   []ast.Stmt
	post   func(st *State, next func(*State))
	dec    func(st *State) *Term // built-in measure
}

func (x *Exec) loop(st *State, node ast.Node, ls *LoopSpec, ord int, label string, k Cont, sh loopShape) {
	if sh.init != nil {
		sh.init(st)
	}
	setGhosts := func(st *State) {
		if sh.ghosts == nil {
			return
		}
		for n, t := range sh.ghosts(st) {
			st.ghost[n] = t
			if ord >= 0 {
				st.ghost[fmt.Sprintf("%s%d", n, ord)] = t
			}
		}
	}
	setGhosts(st)
	outerGhost := st.ghost["$i"]
	lname := fmt.Sprintf("loop%d", ord)
	base := map[types.Object]bool{}
	for o := range st.vars {
		base[o] = true
	}
	pre := st.clone()
	// discover what the loop writes
	ws := &writeSet{map[types.Object]bool{}, map[string]bool{}, base}
	// of these, what may have changed when the next iteration begins; a write
	// that always leaves the loop does not count
	carried := &writeSet{map[types.Object]bool{}, map[string]bool{}, base}
	changed := func(head, st *State, report func(o types.Object, h string)) {
		for o := range ws.vars {
			if a, ok := head.vars[o]; ok && !sameVal(a, st.vars[o]) {
				report(o, "")
			}
		}
		for h := range ws.heaps {
			a, b := head.heap[h], st.heap[h]
			if b == nil || a != nil && same(a, b) {
				continue
			}
			if a == nil && b.Kind == 'c' && (b.Op == "H0."+mangle(h) || b.Op == "G0."+mangle(h)) {
				continue
			}
			report(nil, h)
		}
	}
	havoc := func(st *State) {
		var os []types.Object
		for o := range carried.vars {
			os = append(os, o)
		}
		sortObjs(os)
		hs := sortedKeys(carried.heaps)
		// allocation counters first: typing facts refer to them
		for _, h := range hs {
			if strings.HasPrefix(h, "next.") {
				old := x.heapGet(st, h, IntS)
				n := x.fresh(h, IntS)
				st.heap[h] = n
				st.assume(Le(old, n))
			}
		}
		for _, o := range os {
			if _, isC := st.vars[o].(*ClosureVal); isC {
				continue
			}
			st.vars[o] = x.freshVal(st, o.Name(), o.Type())
		}
		for _, h := range hs {
			if strings.HasPrefix(h, "next.") {
				continue
			}
			old := st.heap[h]
			if old == nil {
				continue
			}
			nh := x.fresh("H."+h, old.Sort)
			st.heap[h] = nh
		}
		for _, h := range hs {
			if !strings.HasPrefix(h, "next.") && st.heap[h] != nil {
				if f := x.frameFormula(st, h); f != nil {
					st.assume(f)
				}
			}
		}
		if sh.havoc != nil {
			sh.havoc(st)
		}
		setGhosts(st)
	}
	runBody1 := func(st *State, done func(*State), kk Cont) {
		b := kk
		b.brk = copyMap(kk.brk)
		b.cnt = copyMap(kk.cnt)
		end := func(st *State) {
			if sh.post != nil {
				sh.post(st, done)
			} else {
				done(st)
			}
		}
		b.next = end
		b.cnt[""] = end
		b.brk[""] = kk.next
		if label != "" {
			b.cnt[label] = end
			b.brk[label] = kk.next
		}
		b.fall = nil
		x.execBlock(st, sh.body, b)
	}
	runBody := func(st *State, done0 func(*State), kk Cont) {
		x.join(st, func(st *State, done func(*State)) { runBody1(st, done, kk) }, done0)
	}
	stop := func(*State) {}
	stopCont := Cont{next: stop, ret: func(*State, []Val, token.Pos) {}, brk: map[string]func(*State){}, cnt: map[string]func(*State){}}
	for l := range k.brk {
		stopCont.brk[l] = stop
	}
	for l := range k.cnt {
		stopCont.cnt[l] = stop
	}
	for iter := 0; iter < 20; iter++ {
		s2 := st.clone()
		havoc(s2)
		log := &writeSet{map[types.Object]bool{}, map[string]bool{}, base}
		x.collect++
		x.logs = append(x.logs, log)
		head := s2.clone()
		var ends []*State
		sh.head(s2, func(st *State) {
			x.hints(st, ls.Hints, "begin", sh.pos)
			runBody(st, func(st *State) { ends = append(ends, st) }, stopCont)
		}, stop)
		x.logs = x.logs[:len(x.logs)-1]
		x.collect--
		grew := false
		for o := range log.vars {
			if !ws.vars[o] {
				ws.vars[o] = true
				grew = true
			}
		}
		for h := range log.heaps {
			if !ws.heaps[h] {
				ws.heaps[h] = true
				grew = true
				if st.heap[h] == nil && !strings.HasPrefix(h, "next.") {
					// first touched inside the loop: materialise the entry version
					x.materialise(st, h, s2)
				}
			}
		}
		for _, e := range ends {
			changed(head, e, func(o types.Object, h string) {
				if o != nil && !carried.vars[o] {
					carried.vars[o] = true
					grew = true
				}
				if h != "" && !carried.heaps[h] {
					carried.heaps[h] = true
					grew = true
				}
			})
		}
		if !grew {
			break
		}
	}
	// report writes to enclosing collectors
	for o := range ws.vars {
		for _, l := range x.logs {
			if l.base[o] {
				l.vars[o] = true
			}
		}
	}
	for h := range ws.heaps {
		for _, l := range x.logs {
			l.heaps[h] = true
		}
	}
	env := func(st *State) *SEnv {
		e := x.envAt(st, sh.pos)
		e.olds["pre"] = pre
		return e
	}
	heapChanged := len(carried.heaps) > 0 // allocation included
	useObj := heapChanged && x.c != nil && x.c.Flags["noinv"] == "" && ls != nil && x.lemma == nil
	assertInvs := func(st *State, when string) {
		for i, c := range ls.Invs {
			e := env(st)
			lab := c.Label
			if lab == "" {
				lab = fmt.Sprint(i)
			}
			x.tagged(sexprString(c.E), func() { x.obligeP(st, "inv-"+when, lname+"."+lab, c.Props, x.specBool(c.E, e), sh.pos) })
		}
		for _, h := range sortedKeys(carried.heaps) {
			if !strings.HasPrefix(h, "next.") && st.heap[h] != nil {
				if f := x.frameFormula(st, h); f != nil {
					x.tagged(h, func() { x.oblige(st, "loop-frame-"+when, lname+"."+h, f, sh.pos) })
				}
			}
		}
		if useObj {
			x.assertObjInvsBut(st, lname+"-"+when, sh.pos, ls.Opens)
		}
	}
	ls = x.usable(ls, func() *SEnv { return env(st) })
	for _, c := range ls.Starts {
		x.obligeP(st, "starts", lname+"."+c.Label, c.Props, x.specBool(c.E, env(st)), sh.pos)
	}
	assertInvs(st, "init")
	s2 := st.clone()
	havoc(s2)
	for _, c := range ls.Invs {
		s2.assume(x.specBool(c.E, env(s2)))
	}
	if useObj {
		x.assumeObjInvsBut(s2, ls.Opens)
	}
	iterSnap := s2.clone()
	s2.snaps = copySnaps(s2.snaps)
	s2.snaps["iter"] = iterSnap
	s2.snaps["pre"] = pre
	s2.loopSet = append(append([]*writeSet{}, s2.loopSet...), ws)
	var dec0 []*Term
	for _, d := range ls.Dec {
		dec0 = append(dec0, x.specTerm(d, env(s2)))
	}
	if len(ls.Dec) == 0 && sh.dec != nil {
		if d := sh.dec(s2); d != nil {
			dec0 = []*Term{d}
		}
	}
	outSnaps := st.snaps
	outLoop := st.loopSet
	leave := func(f func(*State)) func(*State) {
		return func(st *State) {
			st.snaps = outSnaps
			st.loopSet = outLoop
			if outerGhost != nil {
				st.ghost["$i"] = outerGhost
			}
			f(st)
		}
	}
	kk := k
	kk.brk = map[string]func(*State){}
	kk.cnt = map[string]func(*State){}
	for l, f := range k.brk {
		kk.brk[l] = leave(f)
	}
	for l, f := range k.cnt {
		kk.cnt[l] = leave(f)
	}
	kk.next = leave(func(st *State) {
		x.hints(st, ls.Hints, "exit", sh.pos)
		for _, c := range ls.Lvs {
			x.obligeP(st, "leaves", lname+"."+c.Label, c.Props, x.specBool(c.E, env(st)), sh.pos)
		}
		k.next(st)
	})
	kk.ret = func(st *State, v []Val, p token.Pos) {
		if len(ls.Rets) > 0 && x.c != nil && len(v) == len(x.c.Results) && x.collect == 0 {
			e := env(st)
			e2 := *e
			e2.vars = map[string]TV{}
			for n, tv := range e.vars {
				e2.vars[n] = tv
			}
			for i, n := range x.c.Results {
				rt := x.decl.sig.Results().At(i).Type()
				e2.vars[n] = TV{x.v.unpack(x.asTerm(st, v[i], rt), rt), rt}
			}
			for _, c := range ls.Rets {
				x.obligeP(st, "returns", lname+"."+c.Label, c.Props, x.specBool(c.E, &e2), p)
			}
		}
		st.snaps = outSnaps
		st.loopSet = outLoop
		k.ret(st, v, p)
	}
	exitNext := kk.next
	x.join(s2, func(s2 *State, next func(*State)) {
		kk.next = next
		sh.head(s2, func(st *State) {
			x.hints(st, ls.Hints, "begin", sh.pos)
			x.coverOnce(st, lname+"-body", sh.pos)
			runBody(st, func(st *State) {
				changed(iterSnap, st, func(o types.Object, h string) {
					if o != nil && !carried.vars[o] {
						x.fail(sh.pos, "internal: variable %s changes in the loop", o.Name())
					}
					if h != "" && !carried.heaps[h] {
						x.fail(sh.pos, "internal: heap %s changes in the loop", h)
					}
				})
				setGhosts(st)
				x.hints(st, ls.Hints, "end", sh.pos)
				for _, c := range ls.Steps {
					x.obligeP(st, "step", lname+"."+c.Label, c.Props, x.specBool(c.E, env(st)), sh.pos)
				}
				assertInvs(st, "keep")
				if dec0 != nil {
					var dec1 []*Term
					if len(ls.Dec) > 0 {
						for _, d := range ls.Dec {
							dec1 = append(dec1, x.specTerm(d, env(st)))
						}
					} else {
						d := sh.dec(st)
						if d == nil {
							d = IntLit(0)
						}
						dec1 = []*Term{d}
					}
					x.oblige(st, "decreases", lname, lexLess(dec1, dec0), sh.pos)
				} else {
					x.oblige(st, "decreases", lname, False, sh.pos)
				}
			}, kk)
		}, kk.next)
	}, exitNext)
}

func sameVal(a, b Val) bool {
	switch y := a.(type) {
	case *Term:
		z, ok := b.(*Term)
		return ok && same(y, z)
	case *StructVal:
		z, ok := b.(*StructVal)
		if !ok {
			return false
		}
		for f, v := range y.Fields {
			if !sameVal(v, z.Fields[f]) {
				return false
			}
		}
		return true
	case *ClosureVal:
		z, ok := b.(*ClosureVal)
		return ok && y == z
	}
	return false
}

func (x *Exec) materialise(st *State, h string, from *State) {
	t := from.heap[h]
	if t == nil {
		return
	}
	st.heap[h] = Const("H0."+mangle(h), t.Sort)
	if strings.HasPrefix(h, "global.") {
		st.heap[h] = Const("G0."+mangle(h), t.Sort)
	}
}

func (x *Exec) coverOnce(st *State, label string, pos token.Pos) {
	if x.seenObl[label] || x.collect > 0 {
		return
	}
	x.seenObl[label] = true
	x.cover(st, label, pos)
}

func sortObjs(os []types.Object) {
	sort.Slice(os, func(i, j int) bool {
		return os[i].Pos() < os[j].Pos() || os[i].Pos() == os[j].Pos() && os[i].Name() < os[j].Name()
	})
}

func copySnaps(m map[string]*State) map[string]*State {
	n := map[string]*State{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// lexLess: a < b lexicographically, with b's components bounded below by 0.
func lexLess(a, b []*Term) *Term {
	var ors []*Term
	for i := range a {
		var c []*Term
		for j := 0; j < i; j++ {
			c = append(c, Eq(a[j], b[j]))
		}
		c = append(c, Lt(a[i], b[i]), Le(IntLit(0), b[i]))
		ors = append(ors, And(c...))
	}
	return Or(ors...)
}

func (x *Exec) execRange(st *State, s *ast.RangeStmt, label string, k Cont) {
	ls, ord := x.loopSpec(s)
	xt := x.v.info.TypeOf(s.X)
	assign := func(st *State, e ast.Expr, val Val, t types.Type, next func(*State)) {
		if e == nil {
			next(st)
			return
		}
		id, ok := e.(*ast.Ident)
		if ok && id.Name == "_" {
			next(st)
			return
		}
		if ok {
			if o := x.v.info.Defs[id]; o != nil {
				x.varSet(st, o, val)
				next(st)
				return
			}
		}
		x.lvalue(st, e, func(st *State, lv *lval) {
			lv.set(st, val)
			next(st)
		})
	}
	if len(s.Body.List) == 0 && s.Key == nil {
		x.eval(st, s.X, func(st *State, _ Val) { k.next(st) })
		return
	}
	x.eval(st, s.X, func(st *State, sv Val) {
		gname := fmt.Sprintf("$ri%s", x.loopID(s))
		switch u := types.Unalias(xt).Underlying().(type) {
		case *types.Slice, *types.Basic:
			seq, _ := sv.(*Term)
			isStr, isInt := false, false
			var et types.Type
			var limit *Term
			var runes *Term
			switch uu := u.(type) {
			case *types.Slice:
				et = uu.Elem()
				limit = SeqLen(seq)
			case *types.Basic:
				if uu.Info()&types.IsInteger != 0 {
					isInt = true
					limit = seq
				} else {
					isStr = true
					et = types.Typ[types.Rune]
					runes = App("s.runes", seqSort(IntS), seq)
					limit = SeqLen(runes)
				}
			}
			x.loop(st, s, ls, ord, label, k, loopShape{
				pos:  s.Body.Lbrace + 1,
				init: func(st *State) { st.ghost[gname] = IntLit(0) },
				havoc: func(st *State) {
					c := x.fresh("i", IntS)
					st.ghost[gname] = c
					if isInt {
						st.assume(And(Le(IntLit(0), c), Or(Le(c, limit), Eq(c, IntLit(0)))))
					} else {
						st.assume(And(Le(IntLit(0), c), Le(c, limit)))
					}
				},
				ghosts: func(st *State) map[string]*Term {
					m := map[string]*Term{"$i": st.ghost[gname]}
					if isStr {
						m["$s"] = runes
					} else if !isInt {
						m["$s"] = seq
					}
					return m
				},
				head: func(st *State, body, exit func(*State)) {
					i := st.ghost[gname]
					x.branch(st, Lt(i, limit), func(st *State) {
						var kv Val = i
						if isStr {
							kv = App("s.runepos", IntS, seq, i)
						}
						assign(st, s.Key, kv, types.Typ[types.Int], func(st *State) {
							var vv Val
							if isStr {
								vv = SeqAt(runes, i)
							} else if !isInt {
								vv = SeqAt(seq, i)
								if x.v.structOf(et) != nil {
									vv = x.v.unpack(vv.(*Term), et)
								} else if s.Value != nil {
									x.typeFacts(st, vv.(*Term), et)
								}
							}
							assign(st, s.Value, vv, et, body)
						})
					}, exit)
				},
				body: s.Body.List,
				post: func(st *State, next func(*State)) {
					st.ghost[gname] = Add(st.ghost[gname], IntLit(1))
					next(st)
				},
				dec: func(st *State) *Term { return Sub(limit, st.ghost[gname]) },
			})
		case *types.Map:
			m := sv.(*Term)
			ks := sortInfo[m.Sort].Key
			seenS := arrSort(ks, BoolS)
			empty := App(fmt.Sprintf("(as const %s)", seenS), seenS, False)
			gn, rn := gname+"seen", gname+"rem"
			x.loop(st, s, ls, ord, label, k, loopShape{
				pos:  s.Body.Lbrace + 1,
				init: func(st *State) { st.ghost[gn] = empty; st.ghost[rn] = x.fresh("rem", IntS) },
				havoc: func(st *State) {
					c := x.fresh("seen", seenS)
					st.ghost[gn] = c
					b := BVar("k!", ks)
					st.assume(Forall([]*Term{b}, [][]*Term{{Select(c, b)}}, Imp(Select(c, b), MapHas(m, b))))
					st.ghost[rn] = x.fresh("rem", IntS)
					st.assume(Le(IntLit(0), st.ghost[rn]))
				},
				ghosts: func(st *State) map[string]*Term {
					return map[string]*Term{"$seen": st.ghost[gn], "$m": m}
				},
				head: func(st *State, body, exit func(*State)) {
					seen := st.ghost[gn]
					// an unvisited key exists, or all were visited
					s2 := st.clone()
					kc := x.fresh("key", ks)
					st.assume(MapHas(m, kc))
					st.assume(Not(Select(seen, kc)))
					st.ghost[gn] = Store(seen, kc, True)
					st.assume(Lt(IntLit(0), st.ghost[rn]))
					assign(st, s.Key, kc, u.Key(), func(st *State) {
						var vv Val = MapGet(m, kc)
						if x.v.structOf(u.Elem()) != nil {
							vv = x.v.unpack(vv.(*Term), u.Elem())
						} else {
							x.typeFacts(st, vv.(*Term), u.Elem())
						}
						assign(st, s.Value, vv, u.Elem(), body)
					})
					b := BVar("k!", ks)
					s2.assume(Forall([]*Term{b}, [][]*Term{{MapHas(m, b)}, {Select(seen, b)}}, Imp(MapHas(m, b), Select(seen, b))))
					exit(s2)
				},
				body: s.Body.List,
				post: func(st *State, next func(*State)) {
					st.ghost[rn] = Sub(st.ghost[rn], IntLit(1))
					next(st)
				},
				dec: func(st *State) *Term { return st.ghost[rn] },
			})
		default:
			x.fail(s.Pos(), "range over %s", xt)
		}
	})
}

// frameFormula: objects allocated at entry and outside the modifies clause
// keep their entry value of heap field h.  nil when h may change everywhere.
func (x *Exec) frameFormula(st *State, h string) *Term {
	if x.entry == nil || x.lemma != nil {
		return nil
	}
	if strings.HasPrefix(h, "next.") || st.heap[h] == nil {
		return nil
	}
	return x.frameSince(st, x.entry, h, x.modTargets())
}

func (x *Exec) frameSince(st, entry *State, h string, targets []modTarget) *Term {
	cur := st.heap[h]
	ent := entry.heap[h]
	if ent == nil {
		n := "H0." + mangle(h)
		if strings.HasPrefix(h, "global.") {
			n = "G0." + mangle(h)
		}
		ent = Const(n, cur.Sort)
	}
	if same(cur, ent) {
		return True
	}
	if strings.HasPrefix(h, "global.") {
		for _, m := range targets {
			if m.key == h {
				return nil
			}
		}
		return Eq(cur, ent)
	}
	r := BVar("r!", IntS)
	tn := x.v.ownerType(h)
	conds := []*Term{Lt(IntLit(0), r), Lt(r, x.nextOf(entry, tn))}
	for _, m := range targets {
		if m.key == h {
			if m.cond != nil {
				conds = append(conds, Not(m.cond(r)))
			} else if m.ref == nil {
				return nil
			} else {
				conds = append(conds, Not(Eq(r, m.ref)))
			}
		}
	}
	return Forall([]*Term{r}, [][]*Term{{App("select", sortInfo[cur.Sort].Elem, cur, r)}}, Imp(And(conds...), App("=", BoolS, Select(cur, r), Select(ent, r))))
}

// ownerType gives the type whose allocation counter governs heap key h.
func (v *Verifier) ownerType(h string) string {
	if i := strings.LastIndex(h, "."); i >= 0 {
		t := h[:i]
		// nested struct fields: File.options.X
		for _, n := range v.pkg.Scope().Names() {
			if strings.HasPrefix(h, n+".") {
				return n
			}
		}
		// ghost fields of embedded library objects belong to their container
		if t == "sync.RWMutex" {
			return "File"
		}
		return t
	}
	return h
}

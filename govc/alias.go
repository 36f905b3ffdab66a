package main

// Aliasing check. The verifier treats slices as values. That is sound as long
// as no slice is read after its backing array was changed in place through
// another path. This flow-sensitive pass over each function reports
//   - a range loop that goes on after the ranged slice was moved in place,
//   - a read of a variable that shares its backing array with a slice that was
//     changed in place since,
//   - an exported function that hands out (or keeps) a slice or map field
//     itself instead of a copy, unless the contract's flags say "shares".
// Each report is a failed obligation of kind "alias".

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type aliasReport struct {
	fn   string
	line int
	msg  string
}

type pathSet map[string]bool

type aState struct {
	alias  map[types.Object]pathSet
	poison map[types.Object]string
	rd     map[ast.Node]bool // active range loops whose slice moved
}

func (s *aState) clone() *aState {
	if s == nil {
		return nil
	}
	n := &aState{map[types.Object]pathSet{}, map[types.Object]string{}, map[ast.Node]bool{}}
	for k, v := range s.alias {
		n.alias[k] = v
	}
	for k, v := range s.poison {
		n.poison[k] = v
	}
	for k, v := range s.rd {
		n.rd[k] = v
	}
	return n
}

func joinA(a, b *aState) *aState {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	n := a.clone()
	for k, v := range b.alias {
		m := pathSet{}
		for p := range n.alias[k] {
			m[p] = true
		}
		for p := range v {
			m[p] = true
		}
		n.alias[k] = m
	}
	for k, v := range b.poison {
		n.poison[k] = v
	}
	for k, v := range b.rd {
		n.rd[k] = n.rd[k] || v
	}
	return n
}

type aliasPass struct {
	v       *Verifier
	key     string
	reports map[string]aliasReport
	active  []*ast.RangeStmt
	params  map[types.Object]bool
	results []types.Object
	ret     pathSet // what the results may share
	brk     []*aState
	cnt     []*aState
	flags   map[string]string
}

func (v *Verifier) slicey(t types.Type) bool {
	if t == nil {
		return false
	}
	if tu, ok := t.(*types.Tuple); ok {
		for i := 0; i < tu.Len(); i++ {
			if v.slicey(tu.At(i).Type()) {
				return true
			}
		}
		return false
	}
	switch types.Unalias(t).Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// pathOf: where the slice an expression denotes is kept.
func (a *aliasPass) pathOf(e ast.Expr, st *aState) pathSet {
	out := pathSet{}
	switch e := unparen(e).(type) {
	case *ast.Ident:
		o := a.v.info.Uses[e]
		if o == nil {
			o = a.v.info.Defs[e]
		}
		if vr, ok := o.(*types.Var); ok && !vr.IsField() {
			if vr.Parent() == a.v.pkg.Scope() {
				out["global."+vr.Name()] = true
			} else {
				out[fmt.Sprintf("var %s@%d", vr.Name(), vr.Pos())] = true
				if st != nil {
					for p := range st.alias[o] {
						out[p] = true
					}
				}
			}
		}
	case *ast.SelectorExpr:
		if s, ok := a.v.info.Selections[e]; ok && s.Kind() == types.FieldVal {
			t := s.Recv()
			if p, ok := types.Unalias(t).(*types.Pointer); ok {
				t = p.Elem()
			}
			out["field "+types.TypeString(t, func(*types.Package) string { return "" })+"."+e.Sel.Name] = true
		}
	case *ast.IndexExpr:
		for p := range a.pathOf(e.X, st) {
			out[p+"[]"] = true
		}
	case *ast.SliceExpr:
		return a.pathOf(e.X, st)
	case *ast.CallExpr:
		if id, ok := unparen(e.Fun).(*ast.Ident); ok && id.Name == "append" && len(e.Args) > 0 {
			return a.pathOf(e.Args[0], st)
		}
		for _, k := range a.v.calleeKeys(e) {
			for p := range a.v.aliasRet(k) {
				out[p] = true
			}
		}
	}
	return out
}

func (v *Verifier) calleeKeys(c *ast.CallExpr) []string {
	var o types.Object
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		o = v.info.Uses[f]
	case *ast.SelectorExpr:
		o = v.info.Uses[f.Sel]
	}
	if f, ok := o.(*types.Func); ok && f.Pkg() == v.pkg {
		for k, d := range v.decls {
			if d.obj == f {
				return []string{k}
			}
		}
	}
	return nil
}

// aliasRet: the shared places a function's results may denote.
func (v *Verifier) aliasRet(key string) pathSet {
	if v.aliasRets == nil {
		v.aliasRets = map[string]pathSet{}
	}
	if r, ok := v.aliasRets[key]; ok {
		return r
	}
	v.aliasRets[key] = pathSet{}
	v.aliasRets[key] = v.aliasFn(key).ret
	return v.aliasRets[key]
}

// inplace: the shared places a function may change in place.
func (v *Verifier) inplace(key string) pathSet {
	if v.inplaces == nil {
		v.inplaces = map[string]pathSet{}
	}
	if r, ok := v.inplaces[key]; ok {
		return r
	}
	out := pathSet{}
	v.inplaces[key] = out
	d := v.decls[key]
	a := &aliasPass{v: v, key: key}
	ast.Inspect(d.body, func(n ast.Node) bool {
		for p := range a.effects(n, nil) {
			if !strings.HasPrefix(p, "var ") {
				out[p] = true
			}
		}
		return true
	})
	return out
}

// effects: the places the node itself changes in place (not its children).
func (a *aliasPass) effects(n ast.Node, st *aState) pathSet {
	out := pathSet{}
	add := func(e ast.Expr) {
		for p := range a.pathOf(e, st) {
			out[p] = true
		}
	}
	target := func(e ast.Expr) {
		if ix, ok := unparen(e).(*ast.IndexExpr); ok {
			if _, ok := types.Unalias(a.v.info.TypeOf(ix.X)).Underlying().(*types.Slice); ok {
				// the usual "for i := range s { s[i] = ... }" touches the current element only
				if id, ok := unparen(ix.Index).(*ast.Ident); ok {
					for _, r := range a.active {
						if k, ok := r.Key.(*ast.Ident); ok && a.v.info.Defs[k] != nil && a.v.info.Defs[k] == a.v.info.Uses[id] && types.ExprString(r.X) == types.ExprString(ix.X) {
							return
						}
					}
				}
				add(ix.X)
			}
		}
	}
	switch n := n.(type) {
	case *ast.AssignStmt:
		for _, l := range n.Lhs {
			target(l)
		}
	case *ast.IncDecStmt:
		target(n.X)
	case *ast.CallExpr:
		if id, ok := unparen(n.Fun).(*ast.Ident); ok && len(n.Args) > 0 {
			if _, isB := a.v.info.Uses[id].(*types.Builtin); isB {
				switch id.Name {
				case "append":
					if se, ok := unparen(n.Args[0]).(*ast.SliceExpr); ok && !se.Slice3 {
						add(se.X)
					}
				case "copy":
					add(n.Args[0])
				}
				return out
			}
		}
		for _, k := range a.v.calleeKeys(n) {
			for p := range a.v.inplace(k) {
				out[p] = true
			}
		}
	}
	return out
}

func (a *aliasPass) report(n ast.Node, f string, args ...interface{}) {
	line := a.v.fset.Position(n.Pos()).Line
	m := fmt.Sprintf(f, args...)
	a.reports[fmt.Sprintf("%d %s", line, m)] = aliasReport{a.key, line, m}
}

// visit handles reads, then effects, of an expression or simple statement.
func (a *aliasPass) visit(n ast.Node, st *aState) {
	if n == nil || st == nil {
		return
	}
	skip := map[ast.Node]bool{}
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil || skip[m] {
			return false
		}
		switch e := m.(type) {
		case *ast.CallExpr:
			if id, ok := unparen(e.Fun).(*ast.Ident); ok && (id.Name == "len" || id.Name == "cap") {
				return false
			}
		case *ast.AssignStmt:
			for _, l := range e.Lhs {
				if _, ok := unparen(l).(*ast.Ident); ok {
					skip[l] = true
				}
			}
		case *ast.FuncLit:
			for p := range a.litEffects(e) {
				a.dirty(p, "", st)
			}
			return false
		case *ast.Ident:
			if o := a.v.info.Uses[e]; o != nil {
				if by, ok := st.poison[o]; ok {
					a.report(e, "%s shares its array with %s, which was changed in place", e.Name, by)
				}
			}
		}
		return true
	})
	ast.Inspect(n, func(m ast.Node) bool {
		if _, ok := m.(*ast.FuncLit); ok || m == nil {
			return false
		}
		own := ""
		if as, ok := m.(*ast.AssignStmt); ok && len(as.Lhs) == 1 {
			if id, ok := as.Lhs[0].(*ast.Ident); ok {
				own = id.Name
			}
		}
		for p := range a.effects(m, st) {
			a.dirty(p, own, st)
		}
		return true
	})
}

func (a *aliasPass) litEffects(l *ast.FuncLit) pathSet {
	out := pathSet{}
	ast.Inspect(l.Body, func(m ast.Node) bool {
		for p := range a.effects(m, nil) {
			out[p] = true
		}
		return true
	})
	return out
}

func (a *aliasPass) dirty(p, own string, st *aState) {
	for _, r := range a.active {
		if a.pathOf(r.X, st)[p] {
			st.rd[r] = true
		}
	}
	for o, ps := range st.alias {
		if ps[p] && !strings.HasPrefix(p, "var "+o.Name()+"@") {
			st.poison[o] = strings.TrimPrefix(p, "field ")
		}
	}
}

// bind records what a variable shares after being assigned e.
func (a *aliasPass) bind(st *aState, l ast.Expr, r ast.Expr) {
	id, ok := unparen(l).(*ast.Ident)
	if !ok {
		return
	}
	o := a.v.info.Defs[id]
	if o == nil {
		o = a.v.info.Uses[id]
	}
	if o == nil || !a.v.slicey(o.Type()) {
		return
	}
	ps := pathSet{}
	if r != nil {
		self := fmt.Sprintf("var %s@%d", o.Name(), o.Pos())
		for p := range a.pathOf(r, st) {
			if p != self {
				ps[p] = true
			}
		}
		if c, ok := unparen(r).(*ast.CallExpr); ok {
			if id, ok := unparen(c.Fun).(*ast.Ident); ok && id.Name == "append" {
				// growing one's own slice keeps what it shared
				if f, ok := unparen(c.Args[0]).(*ast.Ident); ok && a.v.info.Uses[f] == o {
					return
				}
			}
		}
	}
	st.alias[o] = ps
	delete(st.poison, o)
}

func (a *aliasPass) block(l []ast.Stmt, st *aState) *aState {
	for _, s := range l {
		st = a.stmt(s, st)
	}
	return st
}

func (a *aliasPass) loop(st *aState, body func(*aState) *aState) *aState {
	out := st
	in := st
	for i := 0; i < 3; i++ {
		sb, sc := a.brk, a.cnt
		a.brk, a.cnt = nil, nil
		end := body(in.clone())
		for _, c := range a.cnt {
			end = joinA(end, c)
		}
		for _, b := range a.brk {
			out = joinA(out, b)
		}
		a.brk, a.cnt = sb, sc
		out = joinA(out, end)
		in = joinA(in, end)
	}
	return out
}

func (a *aliasPass) stmt(s ast.Stmt, st *aState) *aState {
	if st == nil {
		return nil
	}
	switch s := s.(type) {
	case nil:
	case *ast.AssignStmt:
		a.visit(s, st)
		for i, l := range s.Lhs {
			var r ast.Expr
			if len(s.Rhs) == len(s.Lhs) {
				r = s.Rhs[i]
			} else if i == 0 {
				r = s.Rhs[0]
			}
			a.bind(st, l, r)
			a.keeps(st, l, r)
		}
	case *ast.DeclStmt:
		a.visit(s, st)
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if vs, ok := sp.(*ast.ValueSpec); ok {
					for i, n := range vs.Names {
						if i < len(vs.Values) {
							a.bind(st, n, vs.Values[i])
						}
					}
				}
			}
		}
	case *ast.BlockStmt:
		return a.block(s.List, st)
	case *ast.LabeledStmt:
		return a.stmt(s.Stmt, st)
	case *ast.IfStmt:
		st = a.stmt(s.Init, st)
		a.visit(s.Cond, st)
		t := a.block(s.Body.List, st.clone())
		var e *aState = st
		if s.Else != nil {
			e = a.stmt(s.Else, st.clone())
		}
		return joinA(t, e)
	case *ast.ReturnStmt:
		a.visit(s, st)
		for _, r := range s.Results {
			if a.v.slicey(a.v.info.TypeOf(r)) {
				a.returns(s, r, st)
			}
		}
		if len(s.Results) == 0 {
			for _, o := range a.results {
				for p := range st.alias[o] {
					a.retPath(s, p)
				}
			}
		}
		return nil
	case *ast.BranchStmt:
		switch s.Tok {
		case token.BREAK:
			a.brk = append(a.brk, st)
		case token.CONTINUE:
			a.cnt = append(a.cnt, st)
		case token.FALLTHROUGH:
			return st
		}
		return nil
	case *ast.SwitchStmt:
		st = a.stmt(s.Init, st)
		a.visit(s.Tag, st)
		return a.cases(s.Body, st)
	case *ast.TypeSwitchStmt:
		st = a.stmt(s.Init, st)
		st = a.stmt(s.Assign, st)
		return a.cases(s.Body, st)
	case *ast.ForStmt:
		st = a.stmt(s.Init, st)
		return a.loop(st, func(in *aState) *aState {
			if s.Cond != nil {
				a.visit(s.Cond, in)
			}
			end := a.block(s.Body.List, in)
			for _, c := range a.cnt {
				end = joinA(end, c)
			}
			a.cnt = nil
			return a.stmt(s.Post, end)
		})
	case *ast.RangeStmt:
		a.visit(s.X, st)
		return a.loop(st, func(in *aState) *aState {
			a.active = append(a.active, s)
			delete(in.rd, s)
			if s.Value != nil {
				a.bind(in, s.Value, nil)
			}
			end := a.block(s.Body.List, in)
			for _, c := range a.cnt {
				end = joinA(end, c)
			}
			a.cnt = nil
			if _, isMap := types.Unalias(a.v.info.TypeOf(s.X)).Underlying().(*types.Map); end != nil && end.rd[s] && s.Value != nil && !isMap {
				a.report(s, "the loop goes on after the slice %s it ranges over was changed in place", types.ExprString(s.X))
			}
			a.active = a.active[:len(a.active)-1]
			return end
		})
	default:
		a.visit(s, st)
	}
	return st
}

func (a *aliasPass) cases(b *ast.BlockStmt, st *aState) *aState {
	out := st
	sb := a.brk
	a.brk = nil
	var fall *aState
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		in := joinA(st.clone(), fall)
		fall = nil
		for _, e := range cc.List {
			a.visit(e, in)
		}
		o := a.block(cc.Body, in)
		if n := len(cc.Body); n > 0 {
			if br, ok := cc.Body[n-1].(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				fall = o
				continue
			}
		}
		out = joinA(out, o)
	}
	for _, x := range a.brk {
		out = joinA(out, x)
	}
	a.brk = sb
	return out
}

func (a *aliasPass) returns(s ast.Node, r ast.Expr, st *aState) {
	for p := range a.pathOf(r, st) {
		a.retPath(s, p)
	}
}

func (a *aliasPass) retPath(s ast.Node, p string) {
	if strings.HasPrefix(p, "var ") {
		return
	}
	a.ret[p] = true
	name := a.key[strings.LastIndex(a.key, ".")+1:]
	if ast.IsExported(name) && a.flags["shares"] == "" {
		a.report(s, "returns %s itself, not a copy", strings.TrimPrefix(p, "field "))
	}
}

// keeps: storing a parameter's slice into a field shares it with the caller.
func (a *aliasPass) keeps(st *aState, l, r ast.Expr) {
	if r == nil || !a.v.slicey(a.v.info.TypeOf(r)) {
		return
	}
	if _, ok := unparen(l).(*ast.SelectorExpr); !ok {
		return
	}
	name := a.key[strings.LastIndex(a.key, ".")+1:]
	if id, ok := unparen(r).(*ast.Ident); ok && a.params[a.v.info.Uses[id]] && ast.IsExported(name) && a.flags["shares"] == "" {
		a.report(l, "keeps the caller's %s itself, not a copy", id.Name)
	}
}

func (v *Verifier) aliasFn(key string) *aliasPass {
	d := v.decls[key]
	a := &aliasPass{v: v, key: key, reports: map[string]aliasReport{}, ret: pathSet{}, params: map[types.Object]bool{}, flags: map[string]string{}}
	if c := v.specs.Contracts[key]; c != nil {
		a.flags = c.Flags
	}
	for i := 0; i < d.sig.Params().Len(); i++ {
		a.params[d.sig.Params().At(i)] = true
	}
	for i := 0; i < d.sig.Results().Len(); i++ {
		a.results = append(a.results, d.sig.Results().At(i))
	}
	a.block(d.body.List, &aState{map[types.Object]pathSet{}, map[types.Object]string{}, map[ast.Node]bool{}})
	return a
}

// aliasObls: the failed obligations of the pass for one function.
func (v *Verifier) aliasObls(key string) []*Obligation {
	a := v.aliasFn(key)
	var out []*Obligation
	for _, k := range sortedKeys(a.reports) {
		r := a.reports[k]
		out = append(out, &Obligation{Fn: key, Kind: "alias", Label: r.msg, Line: r.line, Status: "failed", By: "alias pass"})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Line < out[j].Line })
	return out
}

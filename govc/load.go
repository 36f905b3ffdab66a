package main

// Loading and type-checking the package under verification.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func loadVerifier(repo, contracts string) (*Verifier, error) {
	v := &Verifier{
		fset:      token.NewFileSet(),
		decls:     map[string]*FnDecl{},
		assigned:  map[types.Object]bool{},
		varInit:   map[types.Object]ast.Expr{},
		typeCache: map[string]types.Type{},
		lemOrd:    map[string]int{},
	}
	bp, err := build.ImportDir(repo, 0)
	if err != nil {
		return nil, err
	}
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(v.fset, filepath.Join(repo, f), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		v.files = append(v.files, af)
	}
	v.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Implicits:  map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes:     map[ast.Node]*types.Scope{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: importer.ForCompiler(v.fset, "source", nil)}
	v.pkg, err = conf.Check("gopkg.in/ini.v1", v.fset, v.files, v.info)
	if err != nil {
		return nil, err
	}
	for _, f := range v.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				o, ok := v.info.Defs[d.Name].(*types.Func)
				if !ok || d.Body == nil || d.Name.Name == "_" {
					continue
				}
				if d.Name.Name == "init" {
					continue
				}
				k := fnKey(o)
				v.decls[k] = &FnDecl{key: k, obj: o, typ: d.Type, recv: d.Recv, body: d.Body, sig: o.Type().(*types.Signature)}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					vs, ok := s.(*ast.ValueSpec)
					if !ok {
						continue
					}
					for i, n := range vs.Names {
						o := v.info.Defs[n]
						if o == nil || len(vs.Values) != len(vs.Names) {
							continue
						}
						v.varInit[o] = vs.Values[i]
						if fl, ok := unparen(vs.Values[i]).(*ast.FuncLit); ok && d.Tok == token.VAR {
							v.decls[n.Name] = &FnDecl{key: n.Name, typ: fl.Type, body: fl.Body, sig: v.info.TypeOf(fl).(*types.Signature)}
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			mark := func(e ast.Expr) {
				for {
					switch y := unparen(e).(type) {
					case *ast.SelectorExpr:
						e = y.X
						continue
					case *ast.IndexExpr:
						e = y.X
						continue
					case *ast.Ident:
						if o, ok := v.info.Uses[y].(*types.Var); ok && o.Parent() == v.pkg.Scope() {
							v.assigned[o] = true
						}
					}
					return
				}
			}
			switch s := n.(type) {
			case *ast.AssignStmt:
				for _, l := range s.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(s.X)
			case *ast.UnaryExpr:
				if s.Op == token.AND {
					mark(s.X)
				}
			case *ast.RangeStmt:
				if s.Tok == token.ASSIGN {
					if s.Key != nil {
						mark(s.Key)
					}
					if s.Value != nil {
						mark(s.Value)
					}
				}
			}
			return true
		})
	}
	v.buildCallGraph()
	v.loadLocals(contracts)
	v.specs = loadSpecs(contracts)
	n := 0
	var ls []*Lemma
	for _, l := range v.specs.Lemmas {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if ls[i].File != ls[j].File {
			return ls[i].File < ls[j].File
		}
		return ls[i].Line < ls[j].Line
	})
	for _, l := range ls {
		n++
		v.lemOrd[l.Name] = n
	}
	return v, nil
}

// ---- call graph ----

func (v *Verifier) buildCallGraph() {
	edges := map[string]map[string]bool{}
	for k, d := range v.decls {
		e := map[string]bool{}
		edges[k] = e
		ast.Inspect(d.body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o, ok := v.info.Uses[id].(*types.Func); ok && o.Pkg() == v.pkg {
					e[fnKey(o)] = true
				}
			}
			return true
		})
	}
	v.calls = edges
	// Tarjan
	idx := map[string]int{}
	low := map[string]int{}
	on := map[string]bool{}
	var stack []string
	v.scc = map[string]int{}
	v.sccSelf = map[int]bool{}
	n, c := 0, 0
	var strong func(k string)
	strong = func(k string) {
		n++
		idx[k], low[k] = n, n
		stack = append(stack, k)
		on[k] = true
		for _, w := range sortedKeys(edges[k]) {
			if idx[w] == 0 {
				strong(w)
				if low[w] < low[k] {
					low[k] = low[w]
				}
			} else if on[w] && idx[w] < low[k] {
				low[k] = idx[w]
			}
		}
		if low[k] == idx[k] {
			c++
			size := 0
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				v.scc[w] = c
				size++
				if w == k {
					break
				}
			}
			v.sccSelf[c] = size > 1 || edges[k][k]
		}
	}
	for _, k := range sortedKeys(edges) {
		if idx[k] == 0 {
			strong(k)
		}
	}
}

func (v *Verifier) sameSCC(a, b string) bool {
	return v.scc[a] != 0 && v.scc[a] == v.scc[b] && v.sccSelf[v.scc[a]]
}

// ---- heap keys ----

func (v *Verifier) allKeys() map[string]Sort {
	if v.keyCache != nil {
		return v.keyCache
	}
	m := map[string]Sort{}
	v.keyTypes = map[string]types.Type{}
	for _, n := range v.pkg.Scope().Names() {
		tn, ok := v.pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if v.structOf(tn.Type()) == nil {
			continue
		}
		for k, s := range v.fieldKeys(tn.Type()) {
			m[k] = s
		}
		var rec func(prefix string, t types.Type)
		rec = func(prefix string, t types.Type) {
			s := v.structOf(t)
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				if v.externObj(f.Type()) {
					continue
				}
				if v.structOf(f.Type()) != nil {
					rec(prefix+"."+f.Name(), f.Type())
					continue
				}
				v.keyTypes[prefix+"."+f.Name()] = f.Type()
			}
		}
		rec(n, tn.Type())
	}
	for g, gt := range v.specs.Ghosts {
		t := v.parseType(gt)
		m[g] = v.sortOfSpec(t)
		v.keyTypes[g] = t
	}
	v.keyCache = m
	return m
}

func (v *Verifier) fieldTypeOfKey(k string) types.Type {
	v.allKeys()
	return v.keyTypes[k]
}

// ---- renamed locals ----

// The contracts name Go locals in loop invariants.  contracts/locals.json
// records, for the tree the contracts were written for, the locals of each
// function in declaration order; a renamed local is found by its ordinal.
func (v *Verifier) localsOf(key string) []types.Object {
	d := v.decls[key]
	if d == nil {
		return nil
	}
	var out []types.Object
	ast.Inspect(d.body, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			if o, ok := v.info.Defs[id].(*types.Var); ok && !o.IsField() && id.Name != "_" {
				out = append(out, o)
			}
		}
		return true
	})
	return out
}

func (v *Verifier) loadLocals(dir string) {
	v.locals = map[string][]string{}
	b, err := os.ReadFile(filepath.Join(dir, "locals.json"))
	if err == nil {
		json.Unmarshal(b, &v.locals)
	}
}

func (v *Verifier) snapshotLocals(dir string) error {
	m := map[string][]string{}
	for k := range v.decls {
		var ns []string
		for _, o := range v.localsOf(k) {
			ns = append(ns, o.Name()+" "+types.TypeString(o.Type(), func(*types.Package) string { return "" }))
		}
		if len(ns) > 0 {
			m[k] = ns
		}
	}
	b, err := json.MarshalIndent(m, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "locals.json"), append(b, '\n'), 0o644)
}

func (v *Verifier) renamed(x *Exec, name string) types.Object {
	keys := []string{x.key}
	for _, f := range x.inl {
		keys = append(keys, f.decl.key)
	}
	for i := len(keys) - 1; i >= 0; i-- {
		old := v.locals[keys[i]]
		if len(old) == 0 {
			continue
		}
		cur := v.localsOf(keys[i])
		have := map[string]bool{}
		for _, o := range cur {
			have[o.Name()] = true
		}
		if have[name] {
			continue
		}
		// the ordinal among the locals of that type
		for j, n := range old {
			f := strings.SplitN(n, " ", 2)
			if f[0] != name {
				continue
			}
			if len(cur) == len(old) {
				o := cur[j]
				if types.TypeString(o.Type(), func(*types.Package) string { return "" }) == f[1] {
					return o
				}
			}
			// count unknown names of this type on both sides
			ord, k := 0, 0
			for _, m := range old[:j] {
				g := strings.SplitN(m, " ", 2)
				if g[1] == f[1] && !have[g[0]] {
					ord++
				}
			}
			known := map[string]bool{}
			for _, m := range old {
				known[strings.SplitN(m, " ", 2)[0]] = true
			}
			for _, o := range cur {
				if !known[o.Name()] && types.TypeString(o.Type(), func(*types.Package) string { return "" }) == f[1] {
					if k == ord {
						return o
					}
					k++
				}
			}
		}
	}
	return nil
}

// interfaceContracts turns the contract of an interface method into an
// obligation of every type of the package that implements the interface.
func (v *Verifier) interfaceContracts() {
	for _, key := range sortedKeys(v.specs.Contracts) {
		c := v.specs.Contracts[key]
		if c.Flags["interface"] == "" {
			continue
		}
		c.Flags["trusted"] = "1"
		tn, mn, _ := strings.Cut(key, ".")
		it, ok := v.pkg.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			panic(unsupported{c.Line, "no interface " + tn})
		}
		iface := it.Type().Underlying().(*types.Interface)
		for _, n := range v.pkg.Scope().Names() {
			o, ok := v.pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || o.IsAlias() || isInterface(o.Type()) {
				continue
			}
			ptr := types.NewPointer(o.Type())
			if !types.Implements(ptr, iface) {
				continue
			}
			ik := "(*" + n + ")." + mn
			if v.decls[ik] == nil {
				ik = "(" + n + ")." + mn
			}
			ic := v.specs.Contracts[ik]
			if ic == nil {
				ic = &Contract{Key: ik, Params: c.Params, Results: c.Results, Loops: map[int]*LoopSpec{}, Flags: map[string]string{}, File: c.File, Line: c.Line}
				v.specs.Contracts[ik] = ic
			}
			box := func(cl *Clause) *Clause {
				r := c.Params[0]
				return &Clause{cl.Label, cl.Props, &SLet{r, &SCall{Fun: "box", Args: []SExpr{&SIdent{Name: r}}, Line: cl.Line}, cl.E}, cl.Line, cl.File}
			}
			for _, cl := range c.Requires {
				ic.Requires = append(ic.Requires, box(cl))
			}
			for _, cl := range c.Ensures {
				ic.Ensures = append(ic.Ensures, box(cl))
			}
			ic.Modifies = append(ic.Modifies, c.Modifies...)
			ic.Allocates = append(ic.Allocates, c.Allocates...)
			ic.Home = append(ic.Home, c.Home...)
		}
	}
}

var _ = fmt.Sprint

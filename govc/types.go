package main

// Mapping of Go types to SMT sorts, and run-time values of the executor.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Val is *Term, *StructVal, TupleVal, *ClosureVal or *BoundMethod.
type Val interface{}

type StructVal struct {
	T      types.Type // named struct type
	Fields map[string]Val
}

type TupleVal []Val

func (v *Verifier) isPkgType(n *types.Named) bool {
	return n.Obj().Pkg() == v.pkg
}

func typeName(t types.Type) string {
	switch t := t.(type) {
	case *types.Named:
		o := t.Obj()
		if o.Pkg() == nil || o.Pkg().Name() == "ini" {
			return o.Name()
		}
		return o.Pkg().Name() + "." + o.Name()
	case *types.Alias:
		return typeName(types.Unalias(t))
	case *types.Pointer:
		return "*" + typeName(t.Elem())
	case *types.Slice:
		return "[]" + typeName(t.Elem())
	case *types.Map:
		return "map[" + typeName(t.Key()) + "]" + typeName(t.Elem())
	}
	return t.String()
}

// structOf returns the struct type when t is a struct whose fields we model.
func (v *Verifier) structOf(t types.Type) *types.Struct {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if s, ok := n.Underlying().(*types.Struct); ok {
			if v.isPkgType(n) {
				return s
			}
			if n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "StructField") {
				return s
			}
		}
		return nil
	}
	if s, ok := t.(*types.Struct); ok {
		return s
	}
	return nil
}

// externObj reports whether t is a library struct modelled as an object with
// ghost fields (identity matters): bytes.Buffer, bufio.Reader, sync.RWMutex...
func (v *Verifier) externObj(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || v.isPkgType(n) {
		return false
	}
	nm := typeName(n)
	for g := range v.specs.Ghosts {
		if strings.HasPrefix(g, nm+".") {
			return true
		}
	}
	return false
}

func (v *Verifier) sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		if _, ok := n.Underlying().(*types.Struct); ok {
			if v.externObj(n) {
				return IntS
			}
			return opaqueSort(typeName(n))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS
		case u.Info()&types.IsInteger != 0:
			return IntS
		case u.Info()&types.IsFloat != 0:
			return F64S
		case u.Info()&types.IsString != 0:
			return StrS
		case u.Kind() == types.UntypedNil:
			return IfaceS
		case u.Kind() == types.UnsafePointer:
			return IntS
		}
	case *types.Pointer:
		return IntS
	case *types.Slice:
		if b, ok := types.Unalias(u.Elem()).Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
			return StrS
		}
		return seqSort(v.sortOf(u.Elem()))
	case *types.Map:
		return mapSort(v.sortOf(u.Key()), v.sortOf(u.Elem()))
	case *types.Interface:
		return IfaceS
	case *types.Signature:
		return FnS
	case *types.Struct:
		return opaqueSort(strings.ReplaceAll(u.String(), " ", ""))
	case *types.Tuple:
	case *types.TypeParam:
		return IfaceS
	case *types.Array:
		return opaqueSort(u.String())
	case *types.Chan:
		return IntS
	}
	panic(unsupported{0, fmt.Sprintf("type %s", t)})
}

func isInterface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := types.Unalias(t).Underlying().(*types.Interface)
	return ok
}

func isUnsigned(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func ptrElem(t types.Type) (types.Type, bool) {
	p, ok := types.Unalias(t).Underlying().(*types.Pointer)
	if !ok {
		return nil, false
	}
	return p.Elem(), true
}

// unpack turns an opaque term of struct type into a StructVal.
func (v *Verifier) unpack(t *Term, ty types.Type) Val {
	st := v.structOf(ty)
	if st == nil {
		return t
	}
	sv := &StructVal{T: ty, Fields: map[string]Val{}}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s := v.sortOf(f.Type())
		name := "fld." + string(t.Sort) + "." + mangle(f.Name())
		if pfuns[name] == nil {
			pfuns[name] = &pfun{name, []string{string(t.Sort)}, string(s)}
		}
		sv.Fields[f.Name()] = v.unpack(App(name, s, t), f.Type())
	}
	return sv
}

// pack turns a StructVal into an opaque term.
func (v *Verifier) pack(val Val) *Term {
	switch x := val.(type) {
	case *Term:
		return x
	case *StructVal:
		st := v.structOf(x.T)
		s := v.sortOf(x.T)
		name := "mk." + string(s)
		var args []*Term
		var as []string
		for i := 0; i < st.NumFields(); i++ {
			a := v.pack(x.Fields[st.Field(i).Name()])
			args = append(args, a)
			as = append(as, string(a.Sort))
		}
		if pfuns[name] == nil {
			pfuns[name] = &pfun{name, as, string(s)}
			var vars, app []string
			for i, a := range as {
				vars = append(vars, fmt.Sprintf("(x%d %s)", i, a))
				app = append(app, fmt.Sprintf("x%d", i))
			}
			ap := "(" + name + " " + strings.Join(app, " ") + ")"
			if len(app) == 0 {
				ap = name
			}
			for i := 0; i < st.NumFields(); i++ {
				fn := "fld." + string(s) + "." + mangle(st.Field(i).Name())
				if pfuns[fn] == nil {
					pfuns[fn] = &pfun{fn, []string{string(s)}, as[i]}
				}
				a := &pax{id: fn + ".mk", keys: []string{name}, mode: "both", text: fmt.Sprintf("(forall (%s) (! (= (%s %s) x%d) :pattern (%s)))", strings.Join(vars, ""), fn, ap, i, ap)}
				a.finish()
				paxs = append(paxs, a)
			}
		}
		return App(name, s, args...)
	}
	panic(unsupported{0, fmt.Sprintf("cannot pack %T", val)})
}

var typeTags = map[string]int{}
var tagTypes = map[string]types.Type{}

func typeTag(t types.Type) *Term {
	n := types.TypeString(t, nil)
	if _, ok := typeTags[n]; !ok {
		typeTags[n] = len(typeTags) + 1
		tagTypes[n] = t
	}
	return IntLit(int64(typeTags[n]))
}

// box converts a concrete value to an interface value.
func (v *Verifier) box(val Val, t types.Type) *Term {
	if isInterface(t) {
		return val.(*Term)
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return App("iface.nil", IfaceS)
	}
	t = types.Default(t)
	p := v.pack(val)
	tag := typeTag(t)
	name := fmt.Sprintf("box.%s", mangle(typeName(t)))
	v.declBox(name, p.Sort, tag)
	return App(name, IfaceS, p)
}

func (v *Verifier) declBox(name string, s Sort, tag *Term) {
	if pfuns[name] != nil {
		return
	}
	pfuns[name] = &pfun{name, []string{string(s)}, "Iface"}
	un := "un" + name
	pfuns[un] = &pfun{un, []string{"Iface"}, string(s)}
	if pfuns["iface.tag"] == nil {
		pfuns["iface.tag"] = &pfun{"iface.tag", []string{"Iface"}, "Int"}
	}
	a := &pax{id: name + ".ax", keys: []string{name}, mode: "both", text: fmt.Sprintf("(forall ((x %s)) (! (and (= (%s (%s x)) x) (= (iface.tag (%s x)) %s) (not (= (%s x) iface.nil))) :pattern ((%s x))))", s, un, name, name, tag, name, name)}
	a.finish()
	paxs = append(paxs, a)
	b := &pax{id: un + ".ax", keys: []string{un, "iface.tag"}, mode: "both", text: fmt.Sprintf("(forall ((x Iface)) (! (=> (and (not (= x iface.nil)) (= (iface.tag x) %s)) (= (%s (%s x)) x)) :pattern ((%s x))))", tag, name, un, un)}
	b.finish()
	paxs = append(paxs, b)
}

func (v *Verifier) unbox(t *Term, ty types.Type) Val {
	s := v.sortOf(ty)
	name := fmt.Sprintf("box.%s", mangle(typeName(ty)))
	v.declBox(name, s, typeTag(ty))
	return v.unpack(App("un"+name, s, t), ty)
}

var ifacesSeen = map[string]types.Type{}

// hasType is the condition that interface value t holds dynamic type ty.
func (v *Verifier) hasType(t *Term, ty types.Type) *Term {
	if pfuns["iface.tag"] == nil {
		pfuns["iface.tag"] = &pfun{"iface.tag", []string{"Iface"}, "Int"}
	}
	if isInterface(ty) {
		n := "iface.is." + mangle(typeName(ty))
		if pfuns[n] == nil {
			pfuns[n] = &pfun{n, []string{"Iface"}, "Bool"}
			ifacesSeen[n] = ty
			// whatever implements an interface implements those with fewer methods
			var seen []string
			for m := range ifacesSeen {
				if m != n {
					seen = append(seen, m)
				}
			}
			sort.Strings(seen)
			for _, m := range seen {
				for _, p := range [][2]string{{n, m}, {m, n}} {
					if types.Implements(ifacesSeen[p[0]], ifacesSeen[p[1]].Underlying().(*types.Interface)) {
						a := &pax{id: p[0] + "." + p[1] + ".ax", keys: []string{p[0], p[1]}, mode: "both", text: fmt.Sprintf("(forall ((x Iface)) (! (=> (%s x) (%s x)) :pattern ((%s x))))", p[0], p[1], p[0])}
						a.finish()
						paxs = append(paxs, a)
					}
				}
			}
		}
		return And(Not(Eq(t, App("iface.nil", IfaceS))), App(n, BoolS, t))
	}
	return And(Not(Eq(t, App("iface.nil", IfaceS))), Eq(App("iface.tag", IntS, t), typeTag(ty)))
}

type unsupported struct {
	pos int
	msg string
}

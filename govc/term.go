package main

// SMT terms.  Terms are immutable; builders do a little simplification.

import (
	"fmt"
	"sort"
	"strings"
)

// Sort is an SMT sort, written as it appears in SMT-LIB.
type Sort string

const (
	BoolS  Sort = "Bool"
	IntS   Sort = "Int"
	StrS   Sort = "Str"
	IfaceS Sort = "Iface"
	FnS    Sort = "Fn"
	F64S   Sort = "F64"
)

// SortInfo describes composite sorts.
type SortInfo struct {
	Kind string // "seq", "map", "opaque"
	Elem Sort
	Key  Sort
}

var sortInfo = map[Sort]*SortInfo{}

func seqSort(e Sort) Sort {
	s := Sort("Seq_" + mangle(string(e)))
	if sortInfo[s] == nil {
		sortInfo[s] = &SortInfo{Kind: "seq", Elem: e}
	}
	return s
}

func mapSort(k, v Sort) Sort {
	s := Sort("Map_" + mangle(string(k)) + "_" + mangle(string(v)))
	if sortInfo[s] == nil {
		sortInfo[s] = &SortInfo{Kind: "map", Key: k, Elem: v}
	}
	return s
}

func arrSort(k, v Sort) Sort {
	s := Sort("(Array " + string(k) + " " + string(v) + ")")
	if sortInfo[s] == nil {
		sortInfo[s] = &SortInfo{Kind: "arr", Key: k, Elem: v}
	}
	return s
}

func opaqueSort(name string) Sort {
	s := Sort("T_" + mangle(name))
	if sortInfo[s] == nil {
		sortInfo[s] = &SortInfo{Kind: "opaque"}
	}
	return s
}

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.':
			b.WriteRune(c)
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// Term kinds: 'c' constant to declare, 'l' builtin literal, 'a' application,
// 'q' quantifier, 'v' bound variable, 's' string literal.
type Term struct {
	Kind byte
	Op   string
	Args []*Term
	Sort Sort
	Vars []*Term
	Trig [][]*Term
	key  string
}

func (t *Term) String() string {
	if t.key == "" {
		var b strings.Builder
		t.print(&b)
		t.key = b.String()
	}
	return t.key
}

func (t *Term) print(b *strings.Builder) {
	switch t.Kind {
	case 'c', 'l', 'v':
		b.WriteString(t.Op)
	case 's':
		b.WriteString(strLitName(t.Op))
	case 'a':
		if len(t.Args) == 0 {
			b.WriteString(t.Op)
			return
		}
		b.WriteByte('(')
		b.WriteString(t.Op)
		for _, a := range t.Args {
			b.WriteByte(' ')
			b.WriteString(a.String())
		}
		b.WriteByte(')')
	case 'q':
		b.WriteString("(" + t.Op + " (")
		for i, v := range t.Vars {
			if i > 0 {
				b.WriteByte(' ')
			}
			fmt.Fprintf(b, "(%s %s)", v.Op, v.Sort)
		}
		b.WriteString(") ")
		if len(t.Trig) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(t.Args[0].String())
		for _, tr := range t.Trig {
			b.WriteString(" :pattern (")
			for i, x := range tr {
				if i > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(x.String())
			}
			b.WriteByte(')')
		}
		if len(t.Trig) > 0 {
			b.WriteByte(')')
		}
		b.WriteByte(')')
	}
}

var strLits = map[string]string{}

func strLitName(s string) string {
	if n, ok := strLits[s]; ok {
		return n
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, ".%02x", c)
		}
	}
	n := "lit!" + b.String()
	strLits[s] = n
	return n
}

func Const(name string, s Sort) *Term { return &Term{Kind: 'c', Op: name, Sort: s} }
func BVar(name string, s Sort) *Term  { return &Term{Kind: 'v', Op: name, Sort: s} }
func StrLit(s string) *Term           { return &Term{Kind: 's', Op: s, Sort: StrS} }
func App(op string, s Sort, args ...*Term) *Term {
	for i, a := range args {
		if a == nil {
			panic(fmt.Sprintf("nil arg %d of %s", i, op))
		}
	}
	return &Term{Kind: 'a', Op: op, Args: args, Sort: s}
}

var True = &Term{Kind: 'l', Op: "true", Sort: BoolS}
var False = &Term{Kind: 'l', Op: "false", Sort: BoolS}

func BoolLit(b bool) *Term {
	if b {
		return True
	}
	return False
}

func IntLit(i int64) *Term {
	if i < 0 {
		if i == -i {
			return &Term{Kind: 'l', Op: "(- 9223372036854775808)", Sort: IntS}
		}
		return &Term{Kind: 'l', Op: fmt.Sprintf("(- %d)", -i), Sort: IntS}
	}
	return &Term{Kind: 'l', Op: fmt.Sprint(i), Sort: IntS}
}

func BigLit(s string) *Term {
	if strings.HasPrefix(s, "-") {
		return &Term{Kind: 'l', Op: "(- " + s[1:] + ")", Sort: IntS}
	}
	return &Term{Kind: 'l', Op: s, Sort: IntS}
}

func same(a, b *Term) bool { return a == b || a.String() == b.String() }

func isLit(t *Term) bool { return t.Kind == 'l' || t.Kind == 's' }

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.Kind == 'a' && a.Op == "not" {
		return a.Args[0]
	}
	return App("not", BoolS, a)
}

func And(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x == True {
			continue
		}
		if x == False {
			return False
		}
		if x.Kind == 'a' && x.Op == "and" {
			out = append(out, x.Args...)
			continue
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return App("and", BoolS, out...)
}

func Or(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x == False {
			continue
		}
		if x == True {
			return True
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return App("or", BoolS, out...)
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if b.Kind == 'a' && b.Op == "=>" {
		return App("=>", BoolS, And(a, b.Args[0]), b.Args[1])
	}
	return App("=>", BoolS, a, b)
}

func Eq(a, b *Term) *Term {
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq of different sorts: %s : %s  vs  %s : %s", a, a.Sort, b, b.Sort))
	}
	if same(a, b) {
		return True
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if a.Sort == BoolS {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if si := sortInfo[a.Sort]; si != nil && (si.Kind == "seq" || si.Kind == "map") {
		return App(string(a.Sort)+".eq", BoolS, a, b)
	}
	return App("=", BoolS, a, b)
}

// ExtEq is like Eq but for strings compares extensionally (see prelude).
func ExtEq(a, b *Term) *Term {
	if a.Sort == StrS && !same(a, b) && !(isLit(a) && isLit(b)) {
		return App("s.eq", BoolS, a, b)
	}
	return Eq(a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if same(a, b) {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Ite of different sorts: %s : %s  vs  %s : %s", a, a.Sort, b, b.Sort))
	}
	return App("ite", a.Sort, c, a, b)
}

func Select(arr, i *Term) *Term {
	si := sortInfo[arr.Sort]
	if si == nil || si.Kind != "arr" {
		panic("select on " + string(arr.Sort) + " " + arr.String())
	}
	for arr.Kind == 'a' && arr.Op == "store" {
		if same(arr.Args[1], i) {
			return arr.Args[2]
		}
		if isLit(arr.Args[1]) && isLit(i) {
			arr = arr.Args[0]
			continue
		}
		break
	}
	return App("select", si.Elem, arr, i)
}

func Store(arr, i, v *Term) *Term {
	si := sortInfo[arr.Sort]
	if v.Sort != si.Elem {
		panic(fmt.Sprintf("store sort mismatch %s into %s", v.Sort, arr.Sort))
	}
	if arr.Kind == 'a' && arr.Op == "store" && same(arr.Args[1], i) {
		arr = arr.Args[0]
	}
	return App("store", arr.Sort, arr, i, v)
}

func litInt(t *Term) (int64, bool) {
	if t.Kind != 'l' {
		return 0, false
	}
	var n int64
	if strings.HasPrefix(t.Op, "(- ") {
		if _, err := fmt.Sscanf(t.Op, "(- %d)", &n); err == nil && fmt.Sprintf("(- %d)", n) == t.Op {
			return -n, true
		}
		return 0, false
	}
	if _, err := fmt.Sscanf(t.Op, "%d", &n); err == nil && fmt.Sprint(n) == t.Op {
		return n, true
	}
	return 0, false
}

func Add(a, b *Term) *Term {
	x, ok1 := litInt(a)
	y, ok2 := litInt(b)
	if ok1 && ok2 && x < 1<<61 && y < 1<<61 && x > -1<<61 && y > -1<<61 {
		return IntLit(x + y)
	}
	if ok1 && x == 0 {
		return b
	}
	if ok2 && y == 0 {
		return a
	}
	// (x + c1) + c2
	if ok2 && a.Kind == 'a' && a.Op == "+" && len(a.Args) == 2 {
		if z, ok := litInt(a.Args[1]); ok && z < 1<<60 && y < 1<<60 && z > -1<<60 && y > -1<<60 {
			return Add(a.Args[0], IntLit(z+y))
		}
	}
	return App("+", IntS, a, b)
}

func Sub(a, b *Term) *Term {
	if y, ok := litInt(b); ok && y > -1<<60 && y < 1<<60 {
		return Add(a, IntLit(-y))
	}
	if same(a, b) {
		return IntLit(0)
	}
	return App("-", IntS, a, b)
}
func Lt(a, b *Term) *Term {
	x, ok1 := litInt(a)
	y, ok2 := litInt(b)
	if ok1 && ok2 {
		return BoolLit(x < y)
	}
	return App("<", BoolS, a, b)
}
func Le(a, b *Term) *Term {
	x, ok1 := litInt(a)
	y, ok2 := litInt(b)
	if ok1 && ok2 {
		return BoolLit(x <= y)
	}
	if same(a, b) {
		return True
	}
	return App("<=", BoolS, a, b)
}

func Forall(vars []*Term, trig [][]*Term, body *Term) *Term {
	if body == True || len(vars) == 0 {
		return body
	}
	return &Term{Kind: 'q', Op: "forall", Vars: vars, Trig: lowFuel(trig), Args: []*Term{body}, Sort: BoolS}
}

// lowFuel makes patterns match recursive functions at any unfolding depth: the
// synonym axioms make every application available at the lowest level.
func lowFuel(trig [][]*Term) [][]*Term {
	var out [][]*Term
	for _, tr := range trig {
		var n []*Term
		for _, t := range tr {
			n = append(n, lowFuelTerm(t))
		}
		out = append(out, n)
	}
	return out
}

func lowFuelTerm(t *Term) *Term {
	if t.Sort == "Fuel" && t.Kind == 'a' {
		for u := t; ; u = u.Args[0] {
			if u.Kind == 'v' {
				return t
			}
			if len(u.Args) == 0 {
				return u
			}
		}
	}
	ch := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = lowFuelTerm(a)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	return &Term{Kind: t.Kind, Op: t.Op, Args: args, Sort: t.Sort, Vars: t.Vars, Trig: t.Trig}
}

func Exists(vars []*Term, trig [][]*Term, body *Term) *Term {
	if len(vars) == 0 {
		return body
	}
	return &Term{Kind: 'q', Op: "exists", Vars: vars, Trig: trig, Args: []*Term{body}, Sort: BoolS}
}

// ---- sequences and maps ----

func seqElem(s *Term) Sort {
	si := sortInfo[s.Sort]
	if si == nil || si.Kind != "seq" {
		panic("not a sequence: " + s.String() + " : " + string(s.Sort))
	}
	return si.Elem
}

func SeqLen(s *Term) *Term {
	if s.Sort == StrS {
		if s.Kind == 's' {
			return IntLit(int64(len(s.Op)))
		}
		return App("s.len", IntS, s)
	}
	seqElem(s)
	switch {
	case s.Kind == 'a' && s.Op == string(s.Sort)+".snoc":
		return Add(SeqLen(s.Args[0]), IntLit(1))
	case s.Kind == 'a' && s.Op == string(s.Sort)+".empty":
		return IntLit(0)
	case s.Kind == 'a' && s.Op == string(s.Sort)+".upd":
		return SeqLen(s.Args[0])
	}
	return App(string(s.Sort)+".len", IntS, s)
}
func SeqAt(s, i *Term) *Term {
	if s.Sort == StrS {
		if s.Kind == 's' {
			if n, ok := litInt(i); ok && n >= 0 && n < int64(len(s.Op)) {
				return IntLit(int64(s.Op[n]))
			}
		}
		return App("s.at", IntS, s, i)
	}
	return App(string(s.Sort)+".at", seqElem(s), s, i)
}
func SeqEmpty(s Sort) *Term {
	if s == StrS {
		return StrLit("")
	}
	return App(string(s)+".empty", s)
}
func SeqSnoc(s, v *Term) *Term {
	if s.Sort == StrS {
		return App("s.cat", StrS, s, App("s.byte", StrS, v))
	}
	if seqElem(s) != v.Sort {
		panic("snoc sort: " + s.String() + " " + v.String())
	}
	return App(string(s.Sort)+".snoc", s.Sort, s, v)
}
func SeqCat(a, b *Term) *Term {
	if a.Sort == StrS {
		if a.Kind == 's' && a.Op == "" {
			return b
		}
		if b.Kind == 's' && b.Op == "" {
			return a
		}
		if a.Kind == 's' && b.Kind == 's' {
			return StrLit(a.Op + b.Op)
		}
		// right-associate
		if a.Kind == 'a' && a.Op == "s.cat" {
			return SeqCat(a.Args[0], SeqCat(a.Args[1], b))
		}
		return App("s.cat", StrS, a, b)
	}
	if e := string(a.Sort) + ".empty"; a.Op == e && len(a.Args) == 0 {
		return b
	} else if b.Op == e && len(b.Args) == 0 {
		return a
	}
	return App(string(a.Sort)+".cat", a.Sort, a, b)
}
func SeqSub(s, i, j *Term) *Term {
	if s.Sort == StrS {
		if s.Kind == 's' {
			a, ok1 := litInt(i)
			b, ok2 := litInt(j)
			if ok1 && ok2 && 0 <= a && a <= b && b <= int64(len(s.Op)) {
				return StrLit(s.Op[a:b])
			}
		}
		return App("s.sub", StrS, s, i, j)
	}
	return App(string(s.Sort)+".sub", s.Sort, s, i, j)
}
func SeqUpd(s, i, v *Term) *Term { return App(string(s.Sort)+".upd", s.Sort, s, i, v) }
func SeqContains(s, x *Term) *Term {
	return App(string(s.Sort)+".contains", BoolS, s, x)
}
func SeqRep(s Sort, n, v *Term) *Term { return App(string(s)+".rep", s, n, v) }

// Maps are an uninterpreted sort with has/get/put/del/empty/isnil and an
// extensionality predicate; get of an absent key is the zero value.
func MapNil(m *Term) *Term {
	switch m.Op {
	case string(m.Sort) + ".put", string(m.Sort) + ".empty":
		return False
	case string(m.Sort) + ".nil":
		return True
	}
	return App(string(m.Sort)+".isnil", BoolS, m)
}
func MapHas(m, k *Term) *Term {
	for m.Kind == 'a' {
		switch m.Op {
		case string(m.Sort) + ".put":
			if same(m.Args[1], k) {
				return True
			}
			if isLit(m.Args[1]) && isLit(k) {
				m = m.Args[0]
				continue
			}
		case string(m.Sort) + ".empty", string(m.Sort) + ".nil":
			return False
		}
		break
	}
	return App(string(m.Sort)+".has", BoolS, m, k)
}
func MapGet(m, k *Term) *Term {
	for m.Kind == 'a' {
		switch m.Op {
		case string(m.Sort) + ".put":
			if same(m.Args[1], k) {
				return m.Args[2]
			}
			if isLit(m.Args[1]) && isLit(k) {
				m = m.Args[0]
				continue
			}
		case string(m.Sort) + ".empty", string(m.Sort) + ".nil":
			return zeroOfSort(sortInfo[m.Sort].Elem)
		}
		break
	}
	return App(string(m.Sort)+".get", sortInfo[m.Sort].Elem, m, k)
}
func MapPut(m, k, v *Term) *Term { return App(string(m.Sort)+".put", m.Sort, m, k, v) }
func MapDel(m, k *Term) *Term    { return App(string(m.Sort)+".del", m.Sort, m, k) }
func MapEmpty(s Sort, isnil bool) *Term {
	if isnil {
		return App(string(s)+".nil", s)
	}
	return App(string(s)+".empty", s)
}

func zeroOfSort(s Sort) *Term {
	switch s {
	case BoolS:
		return False
	case IntS:
		return IntLit(0)
	case StrS:
		return StrLit("")
	case IfaceS:
		return App("iface.nil", IfaceS)
	case FnS:
		return App("fn.nil", FnS)
	case F64S:
		return App("f64.zero", F64S)
	}
	si := sortInfo[s]
	if si != nil {
		switch si.Kind {
		case "seq":
			return SeqEmpty(s)
		case "map":
			return MapEmpty(s, true)
		case "opaque":
			return App("zero."+string(s), s)
		}
	}
	panic("zeroOfSort " + string(s))
}

// collect walks a term, recording constants, symbols, sorts, string literals.
type symset struct {
	consts map[string]Sort
	syms   map[string]bool
	sorts  map[Sort]bool
	lits   map[string]bool
	seen   map[*Term]bool
}

func newSymset() *symset {
	return &symset{map[string]Sort{}, map[string]bool{}, map[Sort]bool{}, map[string]bool{}, map[*Term]bool{}}
}

func (ss *symset) addSort(s Sort) {
	if ss.sorts[s] {
		return
	}
	ss.sorts[s] = true
	if si := sortInfo[s]; si != nil {
		if si.Elem != "" {
			ss.addSort(si.Elem)
		}
		if si.Key != "" {
			ss.addSort(si.Key)
		}
	}
}

func (ss *symset) walk(t *Term) {
	if ss.seen[t] {
		return
	}
	ss.seen[t] = true
	ss.addSort(t.Sort)
	switch t.Kind {
	case 'c':
		ss.consts[t.Op] = t.Sort
	case 's':
		ss.lits[t.Op] = true
	case 'a':
		ss.syms[t.Op] = true
	}
	for _, a := range t.Args {
		ss.walk(a)
	}
	for _, v := range t.Vars {
		ss.addSort(v.Sort)
	}
	for _, tr := range t.Trig {
		for _, x := range tr {
			ss.walk(x)
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

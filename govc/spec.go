package main

// The contract language: lexer, parser and AST.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type tok struct {
	kind string // ident int str char op eof
	s    string
	line int
}

type lexer struct {
	file string
	toks []tok
	p    int
}

func lex(file, src string) *lexer {
	l := &lexer{file: file}
	line := 1
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":=", "++", "{", "}", "(", ")", "[", "]", ",", ".", ":", ";", "+", "-", "*", "/", "%", "<", ">", "!", "=", "|", "@"}
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(src[i:], "//"):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$':
			j := i + 1
			for j < len(src) && (src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9' || src[j] == '_' || src[j] == '#') {
				j++
			}
			l.toks = append(l.toks, tok{"ident", src[i:j], line})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			l.toks = append(l.toks, tok{"int", src[i:j], line})
			i = j
		case c == '"' || c == '`' || c == '\'':
			j := i + 1
			for src[j] != c {
				if src[j] == '\\' && c != '`' {
					j++
				}
				j++
			}
			j++
			raw := src[i:j]
			if c == '\'' {
				r, _, _, err := strconv.UnquoteChar(raw[1:len(raw)-1], '\'')
				if err != nil {
					l.failAt(line, "bad char "+raw)
				}
				l.toks = append(l.toks, tok{"int", fmt.Sprint(int(r)), line})
			} else {
				s, err := strconv.Unquote(raw)
				if err != nil {
					l.failAt(line, "bad string "+raw)
				}
				l.toks = append(l.toks, tok{"str", s, line})
			}
			i = j
		default:
			ok := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					l.toks = append(l.toks, tok{"op", o, line})
					i += len(o)
					ok = true
					break
				}
			}
			if !ok {
				l.failAt(line, fmt.Sprintf("bad character %q", c))
			}
		}
	}
	l.toks = append(l.toks, tok{"eof", "", line})
	return l
}

func (l *lexer) failAt(line int, msg string) {
	fmt.Fprintf(os.Stderr, "%s:%d: %s\n", l.file, line, msg)
	os.Exit(2)
}
func (l *lexer) fail(msg string) { l.failAt(l.cur().line, msg+" (at "+l.cur().s+")") }
func (l *lexer) cur() tok        { return l.toks[l.p] }
func (l *lexer) peek(n int) tok {
	if l.p+n < len(l.toks) {
		return l.toks[l.p+n]
	}
	return l.toks[len(l.toks)-1]
}
func (l *lexer) next() tok { t := l.toks[l.p]; l.p++; return t }
func (l *lexer) isOp(s string) bool {
	t := l.cur()
	return t.kind == "op" && t.s == s
}
func (l *lexer) isKw(s string) bool {
	t := l.cur()
	return t.kind == "ident" && t.s == s
}
func (l *lexer) acceptOp(s string) bool {
	if l.isOp(s) {
		l.p++
		return true
	}
	return false
}
func (l *lexer) acceptKw(s string) bool {
	if l.isKw(s) {
		l.p++
		return true
	}
	return false
}
func (l *lexer) expectOp(s string) {
	if !l.acceptOp(s) {
		l.fail("expected " + s)
	}
}
func (l *lexer) ident() string {
	t := l.next()
	if t.kind != "ident" {
		l.p--
		l.fail("expected identifier")
	}
	return t.s
}

// ---- AST ----

type SExpr interface{}
type SIdent struct {
	Name string
	Line int
}
type SInt struct{ V string }
type SStr struct{ V string }
type SBin struct {
	Op   string
	X, Y SExpr
}
type SUn struct {
	Op string
	X  SExpr
}
type SCall struct {
	Fun  string
	Args []SExpr
	Line int
}
type SSel struct {
	X    SExpr
	Name string
	Line int
}
type SProj struct {
	X SExpr
	N int
}
type SIndex struct{ X, I SExpr }
type SSlice struct{ X, Lo, Hi SExpr }
type SVar struct{ Name, Type string }
type SQuant struct {
	All  bool
	Vars []SVar
	Trig [][]SExpr
	Body SExpr
}
type SLet struct {
	Name string
	E, B SExpr
}
type SIf struct{ C, A, B SExpr }
type SOld struct {
	Which string
	E     SExpr
}

var kws = map[string]bool{"func": true, "requires": true, "ensures": true, "modifies": true, "allocates": true,
	"loop": true, "invariant": true, "decreases": true, "hint": true, "assert": true, "spec": true, "rec": true, "def": true, "lemma": true,
	"object": true, "inv": true, "flags": true, "ghost": true, "proof": true, "then": true, "else": true, "in": true,
	"step": true, "returns": true, "leaves": true, "starts": true, "opens": true, "axiom": true, "end": true, "covers": true, "closure": true, "assumes": true, "props": true, "update": true, "keeps": true, "read": true, "write": true, "fields": true, "guard": true}

func (l *lexer) typ() string {
	// *T, []T, map[K]V, pkg.T, T
	switch {
	case l.acceptOp("*"):
		return "*" + l.typ()
	case l.acceptOp("["):
		l.expectOp("]")
		return "[]" + l.typ()
	}
	n := l.ident()
	if n == "map" {
		l.expectOp("[")
		k := l.typ()
		l.expectOp("]")
		return "map[" + k + "]" + l.typ()
	}
	if n == "func" {
		l.fail("func types not supported")
	}
	for l.isOp(".") {
		l.p++
		n += "." + l.ident()
	}
	return n
}

func (l *lexer) expr() SExpr { return l.iff() }

func (l *lexer) iff() SExpr {
	x := l.imp()
	for l.acceptOp("<==>") {
		y := l.imp()
		x = &SBin{"<==>", x, y}
	}
	return x
}
func (l *lexer) imp() SExpr {
	x := l.or()
	if l.acceptOp("==>") {
		y := l.imp()
		return &SBin{"==>", x, y}
	}
	return x
}
func (l *lexer) or() SExpr {
	x := l.and()
	for l.acceptOp("||") {
		x = &SBin{"||", x, l.and()}
	}
	return x
}
func (l *lexer) and() SExpr {
	x := l.cmp()
	for l.acceptOp("&&") {
		x = &SBin{"&&", x, l.cmp()}
	}
	return x
}
func (l *lexer) cmp() SExpr {
	x := l.sum()
	var res SExpr
	for {
		t := l.cur()
		if t.kind == "op" && (t.s == "==" || t.s == "!=" || t.s == "<" || t.s == "<=" || t.s == ">" || t.s == ">=") {
			l.p++
			y := l.sum()
			c := &SBin{t.s, x, y}
			if res == nil {
				res = c
			} else {
				res = &SBin{"&&", res, c}
			}
			x = y
			continue
		}
		break
	}
	if res == nil {
		return x
	}
	return res
}
func (l *lexer) sum() SExpr {
	x := l.mul()
	for l.isOp("+") || l.isOp("-") || l.isOp("++") {
		o := l.next().s
		x = &SBin{o, x, l.mul()}
	}
	return x
}
func (l *lexer) mul() SExpr {
	x := l.unary()
	for l.isOp("*") || l.isOp("/") || l.isOp("%") {
		o := l.next().s
		x = &SBin{o, x, l.unary()}
	}
	return x
}
func (l *lexer) unary() SExpr {
	if l.acceptOp("!") {
		return &SUn{"!", l.unary()}
	}
	if l.acceptOp("-") {
		return &SUn{"-", l.unary()}
	}
	return l.postfix()
}
func (l *lexer) postfix() SExpr {
	x := l.primary()
	for {
		switch {
		case l.isOp("."):
			ln := l.cur().line
			l.p++
			if l.cur().kind == "int" {
				n, _ := strconv.Atoi(l.next().s)
				x = &SProj{x, n}
				continue
			}
			x = &SSel{x, l.ident(), ln}
		case l.isOp("("):
			name := ""
			ln := l.cur().line
			switch f := x.(type) {
			case *SIdent:
				name = f.Name
			case *SSel:
				if id, ok := f.X.(*SIdent); ok {
					name = id.Name + "." + f.Name
				} else if s2, ok := f.X.(*SSel); ok {
					if id, ok := s2.X.(*SIdent); ok {
						name = id.Name + "." + s2.Name + "." + f.Name
					}
				}
			}
			if name == "" {
				l.fail("bad call")
			}
			l.p++
			var args []SExpr
			for !l.isOp(")") {
				args = append(args, l.expr())
				if !l.acceptOp(",") {
					break
				}
			}
			l.expectOp(")")
			x = &SCall{name, args, ln}
		case l.isOp("["):
			l.p++
			if l.acceptOp(":") {
				hi := l.expr()
				l.expectOp("]")
				x = &SSlice{x, nil, hi}
				continue
			}
			i := l.expr()
			if l.acceptOp(":") {
				if l.acceptOp("]") {
					x = &SSlice{x, i, nil}
					continue
				}
				hi := l.expr()
				l.expectOp("]")
				x = &SSlice{x, i, hi}
				continue
			}
			l.expectOp("]")
			x = &SIndex{x, i}
		default:
			return x
		}
	}
}
func (l *lexer) primary() SExpr {
	t := l.cur()
	switch {
	case t.kind == "int":
		l.p++
		return &SInt{t.s}
	case t.kind == "str":
		l.p++
		return &SStr{t.s}
	case l.acceptOp("("):
		e := l.expr()
		l.expectOp(")")
		return e
	case t.kind == "ident":
		switch t.s {
		case "forall", "exists":
			l.p++
			q := &SQuant{All: t.s == "forall"}
			for {
				names := []string{l.ident()}
				for l.acceptOp(",") {
					names = append(names, l.ident())
				}
				ty := l.typ()
				for _, n := range names {
					q.Vars = append(q.Vars, SVar{n, ty})
				}
				if !l.acceptOp(",") {
					break
				}
			}
			l.expectOp("::")
			for l.isOp("{") {
				l.p++
				var tr []SExpr
				for !l.isOp("}") {
					tr = append(tr, l.expr())
					if !l.acceptOp(",") {
						break
					}
				}
				l.expectOp("}")
				q.Trig = append(q.Trig, tr)
			}
			q.Body = l.expr()
			return q
		case "let":
			l.p++
			n := l.ident()
			if !l.acceptOp("=") {
				l.fail("expected =")
			}
			e := l.expr()
			if !l.acceptKw("in") {
				l.fail("expected in")
			}
			return &SLet{n, e, l.expr()}
		case "if":
			l.p++
			c := l.expr()
			if !l.acceptKw("then") {
				l.fail("expected then")
			}
			a := l.expr()
			if !l.acceptKw("else") {
				l.fail("expected else")
			}
			return &SIf{c, a, l.expr()}
		case "old", "iter", "pre":
			if l.peek(1).s == "(" {
				l.p += 2
				e := l.expr()
				l.expectOp(")")
				return &SOld{t.s, e}
			}
		}
		if kws[t.s] {
			l.fail("unexpected keyword " + t.s)
		}
		l.p++
		return &SIdent{t.s, t.line}
	}
	l.fail("bad expression")
	return nil
}

// ---- declarations ----

type Clause struct {
	Label string
	Props []string
	E     SExpr
	Line  int
	File  string
}

type Hint struct {
	Where string // entry, return, begin, end, loopN:begin ...
	Kind  string // "lemma", "assert"
	Name  string
	Args  []SExpr
	E     SExpr
	Cond  SExpr
	Line  int
	Label string
}

type LoopSpec struct {
	Invs   []*Clause
	Steps  []*Clause
	Rets   []*Clause // hold at every return from inside the loop
	Starts []*Clause // hold where the loop is entered
	Lvs    []*Clause // hold where the loop is left (condition false or break)
	Dec    []SExpr
	Hints  []*Hint
	Opens  []string // object invariants that do not hold at the loop head
}

// Update is a ghost assignment a function performs when it returns.
type Update struct {
	Target SExpr
	E      SExpr
}

type Contract struct {
	Key       string // e.g. "(*File).NewSection", "inSlice"
	Params    []string
	Results   []string
	Requires  []*Clause
	Ensures   []*Clause
	Opens     []string
	Modifies  []SExpr
	Allocates []string
	Loops     map[int]*LoopSpec
	Hints     []*Hint
	Flags     map[string]string
	Dec       []SExpr
	Keeps     map[string]bool // heap fields no call in the body changes (an obligation after each call)
	Updates   []*Update       // ghost assignments at exit
	Home      []string        // properties whose check verifies the untagged obligations too
	File      string
	Line      int
}

func rootedIn(e SExpr, names []string) bool {
	for {
		switch t := e.(type) {
		case *SSel:
			e = t.X
			continue
		case *SIdent:
			for _, n := range names {
				if n == t.Name {
					return true
				}
			}
		}
		return false
	}
}

// homeOf says whether the function's own contract speaks about the property.
func (c *Contract) homeOf(prop string) bool {
	has := func(ps []string) bool {
		for _, p := range ps {
			if p == prop {
				return true
			}
		}
		return false
	}
	if has(c.Home) {
		return true
	}
	for _, e := range c.Ensures {
		if has(e.Props) {
			return true
		}
	}
	for _, l := range c.Loops {
		for _, e := range append(append(append([]*Clause{}, l.Invs...), l.Steps...), append(append(append([]*Clause{}, l.Rets...), l.Lvs...), l.Starts...)...) {
			if has(e.Props) {
				return true
			}
		}
	}
	return false
}

// spread says whether obligations of the property can arise in a function
// whose own contract does not mention it: tagged terms and preconditions,
// object invariants (unless it does without them), guarded fields.
func (sp *Specs) spread(prop string, ct *Contract) bool {
	has := func(ps []string) bool {
		for _, p := range ps {
			if p == prop {
				return true
			}
		}
		return false
	}
	if len(sp.Tags[prop]) > 0 {
		return true
	}
	for _, g := range sp.Guards {
		if ct.Flags["guarded"] != "" && (has(g.Read.Props) || has(g.Write.Props)) {
			return true
		}
	}
	for _, o := range sp.Objs {
		for _, i := range o.Invs {
			if ct.Flags["noinv"] == "" && has(i.Props) {
				return true
			}
		}
	}
	for _, c := range sp.Contracts {
		for _, r := range c.Requires {
			if has(r.Props) {
				return true
			}
		}
	}
	return false
}

type SpecFn struct {
	Def    bool // with Rec: not recursive, a symbol with a defining equation
	Name   string
	Params []SVar
	Ret    string
	Body   SExpr
	Rec    bool
	Axioms []SExpr
	Line   int
	Seq    int      // order of definition
	Heap   []string // heap fields the body reads, passed as extra arguments
	HeapS  []Sort
}

type ObjInv struct {
	Type  string
	Var   string
	Invs  []*Clause
	Trigs [][]SExpr
}

// serves: the lemma states (part of) the property
func (l *Lemma) serves(prop string) bool {
	for _, e := range l.Ensures {
		for _, p := range e.Props {
			if p == prop {
				return true
			}
		}
	}
	return false
}

type Lemma struct {
	Name     string
	Params   []SVar
	Requires []*Clause
	Ensures  []*Clause
	Dec      []SExpr
	Proof    []LStmt
	Flags    map[string]string
	Line     int
	File     string
}

type LStmt interface{}
type LIf struct {
	C    SExpr
	A, B []LStmt
}
type LAssert struct {
	E    SExpr
	Line int
}
type LCall struct {
	Name string
	Args []SExpr
	Line int
}
type LForall struct { // forall x T :: { stmts } ensures e   (generalisation)
	Vars []SVar
	Req  SExpr
	Ens  SExpr
	Trig [][]SExpr
	Body []LStmt
	Line int
}

type Specs struct {
	Contracts map[string]*Contract
	Fns       map[string]*SpecFn
	Objs      []*ObjInv
	Lemmas    map[string]*Lemma
	Tags      map[string][]string // property -> obligations that mention one of these terms belong to it as well
	Guards    map[string]*Guard   // field -> what reading and writing it needs in functions with flag guarded
	Ghosts    map[string]string   // "File.lockst" -> type
	Axioms    []*Clause
}

func loadSpecs(dir string) *Specs {
	sp := &Specs{Contracts: map[string]*Contract{}, Fns: map[string]*SpecFn{}, Lemmas: map[string]*Lemma{}, Ghosts: map[string]string{}, Guards: map[string]*Guard{}, Tags: map[string][]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gvc"))
	sort.Strings(files)
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		parseSpecFile(sp, filepath.Base(f), string(src))
	}
	return sp
}

// Guard says when fields of a type may be read and written.
type Guard struct {
	Type, Var   string
	Read, Write *Clause
}

func (l *lexer) label() (string, []string) {
	if l.isOp("[") {
		l.p++
		lab := ""
		var props []string
		for !l.isOp("]") {
			t := l.next()
			if t.kind == "eof" {
				l.fail("unclosed label")
			}
			if len(t.s) == 3 && t.s[0] == 'C' && t.s[1] >= '0' && t.s[1] <= '9' {
				props = append(props, t.s)
				continue
			}
			if t.s == "," {
				continue
			}
			lab += t.s
		}
		l.expectOp("]")
		return lab, props
	}
	return "", nil
}

func (l *lexer) clause() *Clause {
	ln := l.cur().line
	lab, props := l.label()
	return &Clause{lab, props, l.expr(), ln, l.file}
}

func (l *lexer) params() []SVar {
	var out []SVar
	l.expectOp("(")
	for !l.isOp(")") {
		names := []string{l.ident()}
		for l.acceptOp(",") {
			names = append(names, l.ident())
		}
		ty := l.typ()
		for _, n := range names {
			out = append(out, SVar{n, ty})
		}
		if !l.acceptOp(",") {
			break
		}
	}
	l.expectOp(")")
	return out
}

func (l *lexer) nameList() []string {
	var out []string
	l.expectOp("(")
	for !l.isOp(")") {
		out = append(out, l.ident())
		if !l.acceptOp(",") {
			break
		}
	}
	l.expectOp(")")
	return out
}

func (l *lexer) hint() *Hint {
	// hint WHERE [if cond ::] lemma(args) | hint WHERE assert expr
	h := &Hint{Line: l.cur().line}
	h.Where = l.ident()
	if l.acceptOp("@") {
		h.Where += "@" + l.next().s
	}
	if l.acceptKw("when") {
		h.Cond = l.expr()
		l.expectOp("::")
	}
	if l.acceptKw("assert") {
		h.Kind = "assert"
		h.Label, _ = l.label()
		h.E = l.expr()
		return h
	}
	if l.isKw("forall") {
		// forall-introduced lemma: parse as quantifier whose body is a lemma call
		h.Kind = "forall"
		h.E = l.expr()
		return h
	}
	h.Kind = "lemma"
	e := l.postfix()
	c, ok := e.(*SCall)
	if !ok {
		l.fail("hint: expected lemma call")
	}
	h.Name, h.Args = c.Fun, c.Args
	return h
}

func (l *lexer) exprList() []SExpr {
	out := []SExpr{l.expr()}
	for l.acceptOp(",") {
		out = append(out, l.expr())
	}
	return out
}

func parseSpecFile(sp *Specs, file, src string) {
	l := lex(file, src)
	for l.cur().kind != "eof" {
		line := l.cur().line
		switch kw := l.ident(); kw {
		case "spec", "rec", "def":
			f := &SpecFn{Name: l.ident(), Rec: kw != "spec", Def: kw == "def", Line: line, Seq: len(sp.Fns)}
			f.Params = l.params()
			f.Ret = l.typ()
			if l.acceptOp("=") {
				f.Body = l.expr()
			}
			for l.acceptKw("axiom") {
				f.Axioms = append(f.Axioms, l.expr())
			}
			if sp.Fns[f.Name] != nil {
				l.failAt(line, "duplicate spec function "+f.Name)
			}
			sp.Fns[f.Name] = f
		case "ghost":
			n := l.ident()
			for l.acceptOp(".") {
				n += "." + l.ident()
			}
			sp.Ghosts[n] = l.typ()
		case "object":
			o := &ObjInv{Type: l.ident(), Var: l.ident()}
			for l.acceptKw("inv") {
				o.Invs = append(o.Invs, l.clause())
			}
			sp.Objs = append(sp.Objs, o)
		case "guard":
			// guard T o read EXPR write EXPR fields f, g
			g := &Guard{Type: l.ident(), Var: l.ident()}
			if !l.acceptKw("read") {
				l.fail("guard: read expected")
			}
			g.Read = l.clause()
			if !l.acceptKw("write") {
				l.fail("guard: write expected")
			}
			g.Write = l.clause()
			if !l.acceptKw("fields") {
				l.fail("guard: fields expected")
			}
			for {
				sp.Guards[g.Type+"."+l.ident()] = g
				if !l.acceptOp(",") {
					break
				}
			}
		case "tag":
			// tag C22 a.b, c.d
			p := l.ident()
			for {
				n := l.ident()
				for l.acceptOp(".") {
					n += "." + l.ident()
				}
				sp.Tags[p] = append(sp.Tags[p], n)
				if !l.acceptOp(",") {
					break
				}
			}
		case "axiom":
			sp.Axioms = append(sp.Axioms, l.clause())
		case "lemma":
			m := &Lemma{Name: l.ident(), Line: line, File: file, Flags: map[string]string{}}
			m.Params = l.params()
		lloop:
			for {
				switch {
				case l.acceptKw("requires"):
					m.Requires = append(m.Requires, l.clause())
				case l.acceptKw("ensures"):
					m.Ensures = append(m.Ensures, l.clause())
				case l.acceptKw("decreases"):
					m.Dec = l.exprList()
				case l.acceptKw("flags"):
					l.flags(m.Flags)
				case l.acceptKw("proof"):
					m.Proof = l.lblock()
				default:
					break lloop
				}
			}
			if sp.Lemmas[m.Name] != nil {
				l.failAt(line, "duplicate lemma "+m.Name)
			}
			sp.Lemmas[m.Name] = m
		case "func":
			c := &Contract{Loops: map[int]*LoopSpec{}, Flags: map[string]string{}, File: file, Line: line}
			// func (*T).Name(params) (results)   |  func name(params) (results) | func T.Name
			if l.isOp("(") {
				l.p++
				star := ""
				if l.acceptOp("*") {
					star = "*"
				}
				t := l.ident()
				l.expectOp(")")
				l.expectOp(".")
				c.Key = "(" + star + t + ")." + l.ident()
			} else {
				c.Key = l.ident()
				for l.acceptOp(".") {
					c.Key += "." + l.ident()
				}
			}
			c.Params = l.nameList()
			if l.isOp("(") {
				c.Results = l.nameList()
			}
			var cur *LoopSpec
		floop:
			for {
				switch {
				case l.acceptKw("requires"):
					c.Requires = append(c.Requires, l.clause())
				case l.acceptKw("ensures"):
					c.Ensures = append(c.Ensures, l.clause())
				case l.acceptKw("modifies"):
					c.Modifies = append(c.Modifies, l.exprList()...)
				case l.acceptKw("allocates"):
					c.Allocates = append(c.Allocates, l.typ())
					for l.acceptOp(",") {
						c.Allocates = append(c.Allocates, l.typ())
					}
				case l.acceptKw("flags"):
					l.flags(c.Flags)
				case l.acceptKw("keeps"):
					if c.Keeps == nil {
						c.Keeps = map[string]bool{}
					}
					for {
						n := l.ident()
						for l.acceptOp(".") {
							n += "." + l.ident()
						}
						c.Keeps[n] = true
						if !l.acceptOp(",") {
							break
						}
					}
				case l.acceptKw("update"):
					tg := l.postfix()
					l.expectOp("=")
					e := l.expr()
					c.Updates = append(c.Updates, &Update{tg, e})
					if !rootedIn(tg, c.Results) { // a result is a fresh object
						c.Modifies = append(c.Modifies, tg)
					}
					c.Ensures = append(c.Ensures, &Clause{"update", nil, &SBin{Op: "==", X: tg, Y: e}, line, file})
				case l.acceptKw("props"):
					c.Home = append(c.Home, l.ident())
					for l.acceptOp(",") {
						c.Home = append(c.Home, l.ident())
					}
				case l.acceptKw("loop"):
					n, err := strconv.Atoi(l.next().s)
					if err != nil {
						l.fail("loop number")
					}
					l.expectOp(":")
					cur = &LoopSpec{}
					c.Loops[n] = cur
				case l.acceptKw("invariant"):
					if cur == nil {
						l.fail("invariant outside loop")
					}
					cur.Invs = append(cur.Invs, l.clause())
				case l.acceptKw("opens"):
					to := &c.Opens // before the loops: invariants that do not hold at entry
					if cur != nil {
						to = &cur.Opens
					}
					for {
						n := l.ident()
						for l.acceptOp(".") {
							n += "." + l.ident()
						}
						*to = append(*to, n)
						if !l.acceptOp(",") {
							break
						}
					}
				case l.acceptKw("step"):
					if cur == nil {
						l.fail("step outside loop")
					}
					cur.Steps = append(cur.Steps, l.clause())
				case l.acceptKw("starts"):
					if cur == nil {
						l.fail("starts outside loop")
					}
					cur.Starts = append(cur.Starts, l.clause())
				case l.acceptKw("leaves"):
					if cur == nil {
						l.fail("leaves outside loop")
					}
					cur.Lvs = append(cur.Lvs, l.clause())
				case l.acceptKw("returns"):
					if cur == nil {
						l.fail("returns outside loop")
					}
					cur.Rets = append(cur.Rets, l.clause())
				case l.acceptKw("decreases"):
					if cur == nil {
						c.Dec = l.exprList()
					} else {
						cur.Dec = l.exprList()
					}
				case l.acceptKw("end"):
					cur = nil
				case l.acceptKw("hint"):
					h := l.hint()
					if cur != nil && (h.Where == "begin" || h.Where == "end" || h.Where == "exit") {
						cur.Hints = append(cur.Hints, h)
					} else {
						c.Hints = append(c.Hints, h)
					}
				default:
					break floop
				}
			}
			if sp.Contracts[c.Key] != nil {
				l.failAt(line, "duplicate contract "+c.Key)
			}
			sp.Contracts[c.Key] = c
		default:
			l.failAt(line, "unexpected "+kw)
		}
	}
}

func (l *lexer) flags(m map[string]string) {
	for {
		n := l.ident()
		v := "1"
		if l.acceptOp("=") {
			v = l.next().s
		}
		m[n] = v
		if !l.acceptOp(",") {
			return
		}
	}
}

func (l *lexer) lblock() []LStmt {
	var out []LStmt
	l.expectOp("{")
	for !l.acceptOp("}") {
		ln := l.cur().line
		switch {
		case l.acceptKw("if"):
			s := &LIf{C: l.expr()}
			s.A = l.lblock()
			if l.acceptKw("else") {
				if l.isKw("if") {
					// else if
					save := l.p
					_ = save
					inner := l.lblockOne()
					s.B = []LStmt{inner}
				} else {
					s.B = l.lblock()
				}
			}
			out = append(out, s)
		case l.acceptKw("assert"):
			out = append(out, &LAssert{l.expr(), ln})
		case l.acceptKw("forall"):
			// forall x T, ... requires e ensures e { stmts }
			s := &LForall{Line: ln}
			for {
				names := []string{l.ident()}
				for l.acceptOp(",") {
					names = append(names, l.ident())
				}
				ty := l.typ()
				for _, n := range names {
					s.Vars = append(s.Vars, SVar{n, ty})
				}
				if !l.acceptOp(";") {
					break
				}
			}
			if l.acceptKw("requires") {
				s.Req = l.expr()
			}
			if !l.acceptKw("ensures") {
				l.fail("expected ensures")
			}
			for l.isOp("{") && s.Ens == nil {
				l.p++
				var tr []SExpr
				for !l.isOp("}") {
					tr = append(tr, l.expr())
					if !l.acceptOp(",") {
						break
					}
				}
				l.expectOp("}")
				s.Trig = append(s.Trig, tr)
			}
			s.Ens = l.expr()
			s.Body = l.lblock()
			out = append(out, s)
		default:
			e := l.postfix()
			c, ok := e.(*SCall)
			if !ok {
				l.fail("expected lemma call")
			}
			out = append(out, &LCall{c.Fun, c.Args, ln})
		}
		l.acceptOp(";")
	}
	return out
}

func (l *lexer) lblockOne() LStmt {
	if !l.acceptKw("if") {
		l.fail("expected if")
	}
	s := &LIf{C: l.expr()}
	s.A = l.lblock()
	if l.acceptKw("else") {
		if l.isKw("if") {
			s.B = []LStmt{l.lblockOne()}
		} else {
			s.B = l.lblock()
		}
	}
	return s
}

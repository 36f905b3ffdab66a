package main

// The SMT prelude: sequence, map and string theories, and the axioms for the
// standard-library functions the library under verification calls.  Only the
// symbols a query mentions (transitively through axioms) are included.

import (
	_ "embed"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type pfun struct {
	name string
	args []string
	ret  string
}
type pax struct {
	id     string
	keys   []string // all must be used for the axiom to be included
	mode   string   // "both", "ext", "native"
	text   string
	syms   []string
	consts map[string]Sort
}

var pfuns = map[string]*pfun{}
var pdefs = map[string]string{} // native definitions: name -> define-fun text
var paxs []*pax

var symRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_.!#]*`)

//go:embed prelude.txt
var preludeText string

func loadPrelude(text string) {
	var cur *pax
	for ln, line := range strings.Split(text, "\n") {
		t := strings.TrimSpace(line)
		if t == "" || strings.HasPrefix(t, ";") {
			continue
		}
		if (line[0] == ' ' || line[0] == '\t') && cur != nil {
			cur.text += "\n  " + t
			continue
		}
		cur = nil
		switch {
		case strings.HasPrefix(t, "fun "):
			m := regexp.MustCompile(`^fun (\S+) \(([^)]*)\) (\S+)$`).FindStringSubmatch(t)
			if m == nil {
				fmt.Fprintf(os.Stderr, "prelude line %d: %s\n", ln+1, t)
				os.Exit(2)
			}
			pfuns[m[1]] = &pfun{m[1], strings.Fields(m[2]), m[3]}
		case strings.HasPrefix(t, "def "):
			f := strings.Fields(t)
			pdefs[f[1]] = strings.TrimSpace(strings.TrimPrefix(t, "def "+f[1]))
		case strings.HasPrefix(t, "ax "):
			// ax id keys mode: text
			m := regexp.MustCompile(`^ax (\S+) (\S+) (both|ext|native):(.*)$`).FindStringSubmatch(t)
			if m == nil {
				fmt.Fprintf(os.Stderr, "prelude line %d: %s\n", ln+1, t)
				os.Exit(2)
			}
			cur = &pax{id: m[1], keys: strings.Split(m[2], ","), mode: m[3], text: m[4]}
			paxs = append(paxs, cur)
		default:
			fmt.Fprintf(os.Stderr, "prelude line %d: %s\n", ln+1, t)
			os.Exit(2)
		}
	}
	for _, a := range paxs {
		a.finish()
	}
}

func (a *pax) finish() {
	a.syms = symRe.FindAllString(a.text, -1)
}

const seqTemplate = `
fun S.len (S) Int
fun S.at (S Int) E
fun S.empty () S
fun S.snoc (S E) S
fun S.cat (S S) S
fun S.sub (S Int Int) S
fun S.upd (S Int E) S
fun S.rep (Int E) S
fun S.contains (S E) Bool
fun S.widx (S E) Int
fun S.eq (S S) Bool
ax S.len.nonneg S.len both: (forall ((s S)) (! (>= (S.len s) 0) :pattern ((S.len s))))
ax S.empty.len S.empty,S.len both: (= (S.len S.empty) 0)
ax S.empty.uniq S.empty,S.len both: (forall ((s S)) (! (=> (= (S.len s) 0) (= s S.empty)) :pattern ((S.len s))))
ax S.snoc.len S.snoc both: (forall ((s S)(v E)) (! (= (S.len (S.snoc s v)) (+ (S.len s) 1)) :pattern ((S.snoc s v))))
ax S.snoc.at S.snoc,S.at both: (forall ((s S)(v E)(i Int)) (! (and (=> (= i (S.len s)) (= (S.at (S.snoc s v) i) v)) (=> (and (<= 0 i) (< i (S.len s))) (= (S.at (S.snoc s v) i) (S.at s i)))) :pattern ((S.at (S.snoc s v) i))))
ax S.snoc.at2 S.snoc,S.at both: (forall ((s S)(v E)(i Int)) (! (=> (and (<= 0 i) (< i (S.len s))) (= (S.at (S.snoc s v) i) (S.at s i))) :pattern ((S.snoc s v) (S.at s i))))
ax S.snoc.last S.snoc,S.at both: (forall ((s S)(v E)) (! (= (S.at (S.snoc s v) (S.len s)) v) :pattern ((S.snoc s v))))
ax S.cat.len S.cat both: (forall ((a S)(b S)) (! (= (S.len (S.cat a b)) (+ (S.len a) (S.len b))) :pattern ((S.cat a b))))
ax S.cat.at S.cat,S.at both: (forall ((a S)(b S)(i Int)) (! (and (=> (and (<= 0 i) (< i (S.len a))) (= (S.at (S.cat a b) i) (S.at a i))) (=> (and (<= (S.len a) i) (< i (+ (S.len a) (S.len b)))) (= (S.at (S.cat a b) i) (S.at b (- i (S.len a)))))) :pattern ((S.at (S.cat a b) i))))
ax S.sub.len S.sub both: (forall ((s S)(i Int)(j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (S.len s))) (= (S.len (S.sub s i j)) (- j i))) :pattern ((S.sub s i j))))
ax S.sub.all S.sub both: (forall ((s S)) (! (= (S.sub s 0 (S.len s)) s) :pattern ((S.sub s 0 (S.len s)))))
ax S.sub.at S.sub,S.at both: (forall ((s S)(i Int)(j Int)(k Int)) (! (=> (and (<= 0 i) (<= j (S.len s)) (<= 0 k) (< k (- j i))) (= (S.at (S.sub s i j) k) (S.at s (+ i k)))) :pattern ((S.at (S.sub s i j) k))))
ax S.upd.len S.upd both: (forall ((s S)(i Int)(v E)) (! (=> (and (<= 0 i) (< i (S.len s))) (= (S.len (S.upd s i v)) (S.len s))) :pattern ((S.upd s i v))))
ax S.upd.at S.upd,S.at both: (forall ((s S)(i Int)(v E)(k Int)) (! (=> (and (<= 0 i) (< i (S.len s)) (<= 0 k) (< k (S.len s))) (= (S.at (S.upd s i v) k) (ite (= k i) v (S.at s k)))) :pattern ((S.at (S.upd s i v) k))))
ax S.rep.len S.rep both: (forall ((n Int)(v E)) (! (=> (>= n 0) (= (S.len (S.rep n v)) n)) :pattern ((S.rep n v))))
ax S.rep.at S.rep,S.at both: (forall ((n Int)(v E)(i Int)) (! (=> (and (<= 0 i) (< i n)) (= (S.at (S.rep n v) i) v)) :pattern ((S.at (S.rep n v) i))))
ax S.contains.in S.contains,S.at both: (forall ((s S)(i Int)) (! (=> (and (<= 0 i) (< i (S.len s))) (S.contains s (S.at s i))) :pattern ((S.at s i))))
ax S.contains.wit S.contains both: (forall ((s S)(x E)) (! (=> (S.contains s x) (and (<= 0 (S.widx s x)) (< (S.widx s x) (S.len s)) (= (S.at s (S.widx s x)) x))) :pattern ((S.contains s x))))
ax S.contains.snoc S.contains,S.snoc both: (forall ((s S)(v E)(x E)) (! (= (S.contains (S.snoc s v) x) (or (= x v) (S.contains s x))) :pattern ((S.contains (S.snoc s v) x))))
ax S.contains.cat S.contains,S.cat both: (forall ((a S)(b S)(x E)) (! (= (S.contains (S.cat a b) x) (or (S.contains a x) (S.contains b x))) :pattern ((S.contains (S.cat a b) x))))
ax S.eq.def S.eq both: (forall ((a S)(b S)) (! (= (S.eq a b) (and (= (S.len a) (S.len b)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (S.len a))) (= (S.at a i) (S.at b i))) :pattern ((S.at a i)) :pattern ((S.at b i)))))) :pattern ((S.eq a b))))
ax S.eq.ext S.eq both: (forall ((a S)(b S)) (! (=> (S.eq a b) (= a b)) :pattern ((S.eq a b))))
`

var instantiated = map[Sort]bool{}

func instSeq(s Sort) {
	if instantiated[s] {
		return
	}
	instantiated[s] = true
	si := sortInfo[s]
	text := seqTemplate
	text = regexp.MustCompile(`\bS\.`).ReplaceAllString(text, "\x01.")
	text = regexp.MustCompile(`\bS\b`).ReplaceAllString(text, "\x01")
	text = regexp.MustCompile(`\bE\b`).ReplaceAllString(text, string(si.Elem))
	text = strings.ReplaceAll(text, "\x01", string(s))
	loadPrelude(text)
}

func instMap(s Sort) {
	if instantiated[s] {
		return
	}
	instantiated[s] = true
	si := sortInfo[s]
	text := mapTemplate
	text = regexp.MustCompile(`\bM\.`).ReplaceAllString(text, "\x01.")
	text = regexp.MustCompile(`\bM\b`).ReplaceAllString(text, "\x01")
	text = regexp.MustCompile(`\bK\b`).ReplaceAllString(text, string(si.Key))
	text = regexp.MustCompile(`\bV\b`).ReplaceAllString(text, string(si.Elem))
	text = strings.ReplaceAll(text, "ZERO", zeroOfSort(si.Elem).String())
	text = strings.ReplaceAll(text, "\x01", string(s))
	if si2 := sortInfo[si.Elem]; si2 != nil && si2.Kind == "seq" {
		instSeq(si.Elem)
	}
	loadPrelude(text)
}

const mapTemplate = `
fun M.has (M K) Bool
fun M.get (M K) V
fun M.put (M K V) M
fun M.del (M K) M
fun M.empty () M
fun M.nil () M
fun M.isnil (M) Bool
fun M.eq (M M) Bool
ax M.get.zero M.get both: (forall ((m M)(k K)) (! (=> (not (M.has m k)) (= (M.get m k) ZERO)) :pattern ((M.get m k))))
ax M.has.put M.put,M.has both: (forall ((m M)(k K)(v V)(j K)) (! (= (M.has (M.put m k v) j) (or (= j k) (M.has m j))) :pattern ((M.has (M.put m k v) j)) :pattern ((M.put m k v) (M.has m j))))
ax M.put.in M.put,M.has both: (forall ((m M)(k K)(v V)) (! (M.has (M.put m k v) k) :pattern ((M.put m k v))))
ax M.put.at M.put,M.get both: (forall ((m M)(k K)(v V)) (! (= (M.get (M.put m k v) k) v) :pattern ((M.put m k v))))
ax M.get.put M.put,M.get both: (forall ((m M)(k K)(v V)(j K)) (! (=> (not (= j k)) (= (M.get (M.put m k v) j) (M.get m j))) :pattern ((M.get (M.put m k v) j)) :pattern ((M.put m k v) (M.get m j))))
ax M.has.del M.del,M.has both: (forall ((m M)(k K)(j K)) (! (= (M.has (M.del m k) j) (and (not (= j k)) (M.has m j))) :pattern ((M.has (M.del m k) j)) :pattern ((M.del m k) (M.has m j))))
ax M.get.del M.del,M.get both: (forall ((m M)(k K)(j K)) (! (=> (not (= j k)) (= (M.get (M.del m k) j) (M.get m j))) :pattern ((M.get (M.del m k) j)) :pattern ((M.del m k) (M.get m j))))
ax M.del.out M.del,M.has both: (forall ((m M)(k K)) (! (not (M.has (M.del m k) k)) :pattern ((M.del m k))))
ax M.has.empty M.empty,M.has both: (forall ((j K)) (! (not (M.has M.empty j)) :pattern ((M.has M.empty j))))
ax M.has.nil M.isnil,M.has both: (forall ((m M)(j K)) (! (=> (M.isnil m) (not (M.has m j))) :pattern ((M.isnil m) (M.has m j))))
ax M.has.nil2 M.nil,M.has both: (forall ((j K)) (! (not (M.has M.nil j)) :pattern ((M.has M.nil j))))
ax M.isnil.nil M.nil,M.isnil both: (M.isnil M.nil)
ax M.isnil.empty M.empty,M.isnil both: (not (M.isnil M.empty))
ax M.isnil.put M.put,M.isnil both: (forall ((m M)(k K)(v V)) (! (not (M.isnil (M.put m k v))) :pattern ((M.put m k v))))
ax M.isnil.del M.del,M.isnil both: (forall ((m M)(k K)) (! (= (M.isnil (M.del m k)) (M.isnil m)) :pattern ((M.del m k))))
ax M.eq.def M.eq both: (forall ((a M)(b M)) (! (= (M.eq a b) (and (= (M.isnil a) (M.isnil b)) (forall ((k K)) (! (and (= (M.has a k) (M.has b k)) (= (M.get a k) (M.get b k))) :pattern ((M.has a k)) :pattern ((M.has b k)) :pattern ((M.get a k)) :pattern ((M.get b k)))))) :pattern ((M.eq a b))))
ax M.eq.ext M.eq both: (forall ((a M)(b M)) (! (=> (M.eq a b) (= a b)) :pattern ((M.eq a b))))
`

// axiomTerms are the axioms of the contract files; a query takes those whose
// triggers it could instantiate.
var axiomTerms = map[*Term]bool{}

func relevant(a *Term, used map[string]bool) bool {
	all := func(ts []*Term) bool {
		n := newSymset()
		for _, t := range ts {
			n.walk(t)
		}
		for s := range n.syms {
			if pfuns[s] != nil && !used[s] {
				return false
			}
		}
		return true
	}
	if len(a.Trig) == 0 {
		return all([]*Term{a})
	}
	for _, tr := range a.Trig {
		if all(tr) {
			return true
		}
	}
	return false
}

// buildQuery renders the whole SMT-LIB text of one proof obligation.
func buildQuery(asms []*Term, goal *Term, mode string) string {
	ss := newSymset()
	var pending []*Term
	{
		var rest []*Term
		for _, a := range asms {
			if axiomTerms[a] {
				pending = append(pending, a)
			} else {
				rest = append(rest, a)
				ss.walk(a)
			}
		}
		asms = rest
	}
	ss.walk(goal)
	for s := range ss.sorts {
		if si := sortInfo[s]; si != nil {
			if si.Kind == "seq" {
				instSeq(s)
			}
			if si.Kind == "map" {
				instMap(s)
			}
		}
	}
	// fixpoint over axioms
	used := ss.syms
	included := map[*pax]bool{}
	sorts := ss.sorts
	addSortName := func(n string) {
		if si := sortInfo[Sort(n)]; si != nil {
			symsetAdd(sorts, Sort(n))
			if si.Kind == "seq" {
				instSeq(Sort(n))
			}
			if si.Kind == "map" {
				instMap(Sort(n))
			}
		}
	}
	litUsed := len(ss.lits) > 0
	if litUsed && mode != "native" {
		if mode == "ext" {
			used["s.len"] = true
			used["s.at"] = true
		}
	}
	for changed := true; changed; {
		changed = false
		var later []*Term
		for _, a := range pending {
			if !relevant(a, used) {
				later = append(later, a)
				continue
			}
			changed = true
			asms = append(asms, a)
			n := newSymset()
			n.walk(a)
			ss.walk(a)
			for s := range n.sorts {
				addSortName(string(s))
			}
			if len(ss.lits) > 0 && mode == "ext" {
				used["s.len"], used["s.at"] = true, true
			}
		}
		pending = later
		for _, a := range paxs {
			if included[a] || a.mode != "both" && !(a.mode == "ext" && mode != "native") && !(a.mode == "native" && mode == "native") {
				continue
			}
			ok := true
			for _, k := range a.keys {
				if !used[k] {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			included[a] = true
			changed = true
			for _, s := range a.syms {
				if pfuns[s] != nil || pdefs[s] != "" {
					used[s] = true
				}
				if strings.HasPrefix(s, "lit!") {
					for v, n := range strLits {
						if n == s {
							ss.lits[v] = true
						}
					}
				}
				addSortName(s)
			}
		}
		for n := range used {
			if f := pfuns[n]; f != nil {
				for _, a := range append(append([]string{}, f.args...), f.ret) {
					addSortName(a)
				}
			}
			if mode == "native" {
				if d := pdefs[n]; d != "" {
					for _, s := range symRe.FindAllString(d, -1) {
						if (pfuns[s] != nil || pdefs[s] != "") && !used[s] {
							used[s] = true
							changed = true
						}
					}
				}
			}
		}
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if mode == "native" {
		b.WriteString("(define-sort Str () String)\n")
	} else {
		b.WriteString("(declare-sort Str 0)\n")
	}
	b.WriteString("(declare-sort Iface 0)\n(declare-sort Fn 0)\n(define-sort F64 () (_ FloatingPoint 11 53))\n")
	b.WriteString("(declare-sort Fuel 0)\n(declare-fun fz () Fuel)\n(declare-fun fs (Fuel) Fuel)\n")
	b.WriteString("(declare-fun iface.nil () Iface)\n(declare-fun fn.nil () Fn)\n(define-fun f64.zero () F64 (_ +zero 11 53))\n")
	var names []string
	for s := range sorts {
		names = append(names, string(s))
	}
	sort.Strings(names)
	declared := map[Sort]bool{}
	var declSort func(s Sort)
	declSort = func(s Sort) {
		if declared[s] {
			return
		}
		declared[s] = true
		si := sortInfo[s]
		if si == nil {
			return
		}
		if si.Elem != "" {
			declSort(si.Elem)
		}
		if si.Key != "" {
			declSort(si.Key)
		}
		switch si.Kind {
		case "seq", "opaque", "map":
			fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
			if si.Kind == "opaque" {
				fmt.Fprintf(&b, "(declare-fun zero.%s () %s)\n", s, s)
			}
		}
	}
	for _, n := range names {
		declSort(Sort(n))
	}
	// functions
	emitted := map[string]bool{}
	var emit func(n string)
	emit = func(n string) {
		if emitted[n] {
			return
		}
		emitted[n] = true
		if mode == "native" {
			if d := pdefs[n]; d != "" {
				for _, s := range symRe.FindAllString(d, -1) {
					if s != n && (pfuns[s] != nil || pdefs[s] != "") {
						emit(s)
					}
				}
				fmt.Fprintf(&b, "(define-fun %s %s)\n", n, d)
				return
			}
		}
		if f := pfuns[n]; f != nil {
			fmt.Fprintf(&b, "(declare-fun %s (%s) %s)\n", n, strings.Join(f.args, " "), f.ret)
		}
	}
	for _, n := range sortedKeys(used) {
		emit(n)
	}
	for _, v := range sortedKeys(ss.lits) {
		n := strLitName(v)
		if mode == "native" {
			fmt.Fprintf(&b, "(define-fun %s () Str %s)\n", n, smtString(v))
		} else {
			fmt.Fprintf(&b, "(declare-fun %s () Str)\n", n)
		}
	}
	if mode != "native" {
		ls := sortedKeys(ss.lits)
		if used["s.len"] {
			for _, v := range ls {
				fmt.Fprintf(&b, "(assert (= (s.len %s) %d))\n", strLitName(v), len(v))
				if used["s.at"] {
					for i := 0; i < len(v) && i < 12; i++ {
						fmt.Fprintf(&b, "(assert (= (s.at %s %d) %d))\n", strLitName(v), i, v[i])
					}
				}
			}
		}
		if len(ls) > 1 {
			b.WriteString("(assert (distinct")
			for _, v := range ls {
				b.WriteString(" " + strLitName(v))
			}
			b.WriteString("))\n")
		}
	}
	for a := range included {
		for n, s := range a.consts {
			ss.consts[n] = s
		}
	}
	for _, n := range sortedKeys(ss.consts) {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", n, ss.consts[n])
	}
	for _, a := range paxs {
		if included[a] {
			fmt.Fprintf(&b, "(assert %s)\n", strings.TrimSpace(a.text))
		}
	}
	for _, a := range asms {
		fmt.Fprintf(&b, "(assert %s)\n", a)
	}
	fmt.Fprintf(&b, "(assert (not %s))\n(check-sat)\n", goal)
	return b.String()
}

func symsetAdd(m map[Sort]bool, s Sort) {
	if m[s] {
		return
	}
	m[s] = true
	if si := sortInfo[s]; si != nil {
		if si.Elem != "" {
			symsetAdd(m, si.Elem)
		}
		if si.Key != "" {
			symsetAdd(m, si.Key)
		}
	}
}

func smtString(v string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(v); i++ {
		c := v[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&b, "\\u{%x}", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func writeFile(dir, name, text string) string {
	p := filepath.Join(dir, name)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return p
}

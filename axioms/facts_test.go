// The facts about the string functions of the Go library which the verifier
// assumes (govc/prelude.txt, the "assumed" lemmas of contracts/m_back.gvc and
// the trusted contracts of a_lib*.gvc), tried on random strings against the
// real functions. A fact that fails here is a wrong assumption.
package axioms

import (
	"bytes"
	"math/rand"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"
)

var pieces = []string{"", " ", "\t", "\n", "\r", "\f", "\v", "\u00a0", "\u0085", "\u2003", "\u3000", "\xa0", "\x85", "\xc2", "\xe2\x80", "\x80", "a", "b", "A", "É", "é", "İ", "ı", "ß", "ẞ", "K", "k", "\u212a", "ſ", "ǅ", "#", ";", "[", "]", "\"", "\"\"\"", "`", "'", "=", ":", "-", "\\", "\\\"", "\\;", "\\#", " #", " ;", "\ufffd", "\xff", "日本", "\U0001F600", "\x00", "0", "9", "."}

type g struct{ *rand.Rand }

func (r g) s(n int) string {
	var b strings.Builder
	for k := r.Intn(n + 1); k > 0; k-- {
		b.WriteString(pieces[r.Intn(len(pieces))])
	}
	return b.String()
}
func (r g) blank() string {
	for {
		if s := strings.Repeat(pieces[1+r.Intn(10)], r.Intn(3)) + pieces[r.Intn(11)]; triml(s) == "" {
			return s
		}
	}
}
func (r g) solid() string        { return string(rune(33 + r.Intn(94))) }
func (r g) trimmed(n int) string { return strings.TrimSpace(r.s(n)) }
func (r g) cut(s string) string  { return s[:r.Intn(len(s)+1)] }

func triml(s string) string        { return strings.TrimLeftFunc(s, unicode.IsSpace) }
func trim(s string) string         { return strings.TrimSpace(s) }
func any(s, c string) int          { return strings.IndexAny(s, c) }
func idx(s, t string) int          { return strings.Index(s, t) }
func lidx(s, t string) int         { return strings.LastIndex(s, t) }
func runesize(s string) int        { _, n := utf8.DecodeRuneInString(s); return n }
func imp(a, b bool) bool           { return !a || b }
func pick(r g, l ...string) string { return l[r.Intn(len(l))] }

func TestFacts(t *testing.T) {
	r := g{rand.New(rand.NewSource(1))}
	for i := 0; i < 150000; i++ {
		a, b, c := r.s(4), r.s(4), r.s(2)
		w := r.blank()
		d := pick(r, "=", ":", "=:", "#", "%", "=:-", "é=", ".")
		ok := func(name string, v bool, args ...string) {
			if !v {
				t.Fatalf("%s fails for %q", name, args)
			}
		}
		// prelude.txt
		ok("lower.idem", strings.ToLower(strings.ToLower(a)) == strings.ToLower(a), a)
		ok("lower.empty", (strings.ToLower(a) == "") == (a == ""), a)
		ok("lidx.range", lidx(a, c) >= -1 && imp(lidx(a, c) >= 0, lidx(a, c)+len(c) <= len(a)), a, c)
		if j := lidx(strings.ToLower(a), c); j >= 0 && c != "" && utf8.ValidString(c) {
			x := strings.ToLower(a)[:j]
			ok("lower.cut", strings.ToLower(x) == x, a, c)
		}
		ok("runes", (len([]rune(a)) == 0) == (a == "") && len([]rune(a)) <= len(a), a)
		ok("idxany.range", any(a, c) >= -1 && any(a, c) < len(a)+1 && (any(a, c) < len(a) || any(a, c) == -1), a, c)
		ok("idx.range", idx(a, c) >= -1 && imp(idx(a, c) >= 0, idx(a, c)+len(c) <= len(a)), a, c)
		ok("trim.empty", (trim(a) == "") == (triml(a) == ""), a)
		ok("triml.idem", triml(triml(a)) == triml(a), a)
		ok("runesize", runesize(a) <= len(a) && runesize(a) <= 4 && imp(a != "", runesize(a) >= 1), a)
		ok("repeat", strings.Repeat(" ", 7)[:3] == strings.Repeat(" ", 3))
		ok("split.len", imp(c != "", len(strings.Split(a, c)) >= 1), a, c)
		if c != "" {
			ok("split.join", strings.Join(strings.Split(a, c), c) == a, a, c)
		}
		ok("bytes", bytes.IndexAny([]byte(a), c) == any(a, c) && bytes.LastIndexByte([]byte(a), ']') == strings.LastIndexByte(a, ']') && string(bytes.TrimLeftFunc([]byte(a), unicode.IsSpace)) == triml(a) && string(bytes.TrimSpace([]byte(a))) == trim(a) && string(bytes.Repeat([]byte(c), 2)) == strings.Repeat(c, 2), a, c)
		ok("containsany", strings.ContainsAny(a, c) == (any(a, c) >= 0), a, c)
		ok("prefix.def", strings.HasPrefix(a, c) == (len(c) <= len(a) && a[:min(len(c), len(a))] == c), a, c)
		ok("suffix.def", strings.HasSuffix(a, c) == (len(c) <= len(a) && a[max(0, len(a)-len(c)):] == c), a, c)
		ok("prefix.one", len(c) != 1 || strings.HasPrefix(a, c) == (len(a) > 0 && a[0] == c[0]), a, c)
		ok("suffix.one", len(c) != 1 || strings.HasSuffix(a, c) == (len(a) > 0 && a[len(a)-1] == c[0]), a, c)
		ok("contains.lidx", strings.Contains(a, c) == (strings.LastIndex(a, c) >= 0), a, c)
		ok("contains.idx", strings.Contains(a, c) == (idx(a, c) >= 0), a, c)
		ok("trim.len", len(trim(a)) <= len(a) && imp(len(trim(a)) == len(a), trim(a) == a), a)
		ok("trimprefix", strings.TrimPrefix(a, c) == map[bool]string{true: a[min(len(c), len(a)):], false: a}[strings.HasPrefix(a, c)], a, c)
		ca, cb, cok := strings.Cut(a, c)
		ok("cut", cok == (idx(a, c) >= 0) && (cok && ca == a[:idx(a, c)] && cb == a[idx(a, c)+len(c):] || !cok && ca == a && cb == ""), a, c)
		ok("trimsuffix", strings.TrimSuffix(a, c) == map[bool]string{true: a[:max(0, len(a)-len(c))], false: a}[strings.HasSuffix(a, c)], a, c)
		// m_back.gvc
		ok("trimlCat", triml(w+b) == triml(b), w, b)
		s1, s2 := r.solid(), r.solid()
		ok("trimlSolid", triml(s1+a) == s1+a, s1, a)
		ok("trimSolid", trim(s1+a+s2) == s1+a+s2 && trim(s1) == s1, s1, a, s2)
		ok("trimBreak", trim(a+"\n") == trim(a), a)
		y := r.trimmed(4)
		if y != "" && b != "" && b[0] < 128 {
			ok("trimlKeep", triml(y+b) == y+b, y, b)
		}
		if q := pick(r, "`", "\"", "\"\"\""); true {
			z := pick(r, "\n", " ", "x")
			ok("lidxEnd", lidx(a+q+z, q) == len(a), a, q, z)
			if q != "\"" && (q == "`" && !strings.Contains(a, "`") || q != "`" && !strings.Contains(a, "\"")) {
				ok("idxEnd", idx(a+q+b, q) == len(a), a, q, b)
			}
		}
		ok("lidxNone", (lidx(a, c) < 0) == !strings.Contains(a, c), a, c)
		ok("idxNone", (idx(a, c) < 0) == !strings.Contains(a, c), a, c)
		if !strings.Contains(a, c) {
			ok("containsPart", !strings.Contains(r.cut(a), c), a, c)
		}
		for _, k := range []string{"#;", "\n`"} {
			ok("anyCat", (any(a+b, k) < 0) == (any(a, k) < 0 && any(b, k) < 0), a, b)
		}
		ok("anyLit", any("\n", "#;") < 0 && any("\"\"\"\n", "#;") < 0 && any("\"", "#;") < 0)
		if any(a, "\n`") < 0 {
			ok("anyByte", strings.IndexByte(a, '\n') < 0 && strings.IndexByte(a, '`') < 0, a)
		}
		if any(a, "#;") < 0 {
			ok("anyByte", strings.IndexByte(a, '#') < 0 && strings.IndexByte(a, ';') < 0, a)
			ok("spaced", idx(a, " #") < 0 && idx(a, " ;") < 0, a)
			ok("signFirst", imp(a != "", a != "" && a[0] != '#' && a[0] != ';'), a)
		}
		if c != "" && !strings.Contains(a, c) {
			ok("replaceNone", strings.ReplaceAll(a, c, b) == a, a, c)
		}
		ok("blankBreak", triml("\n") == "" && triml("  ") == "" && triml(" ") == "")
		ok("trimLen", imp(len(trim(a)) == len(a), trim(a) == a), a)
		if any(a, d) < 0 {
			ok("anyCatD.1", imp(any(b, d) == 0, any(a+b, d) == len(a)), a, b, d)
			ok("anyCatD.2", imp(b != "" && any(b, d) >= 0 && b[0] < 128, any(a+b, d) == len(a)+any(b, d)), a, b, d)
		}
		ok("anyCatD.3", imp(any(a, d) == 0, any(a+b, d) == 0), a, b, d)
		if b == "" || b[0] < 128 {
			ok("anyCatC", (any(a+b, d) < 0) == (any(a, d) < 0 && any(b, d) < 0), a, b, d)
		}
		ok("trimBlank", trim(y+w) == y, y, w)
		ok("trimAround", trim(w+y+r.blank()) == y || false, w, y)
		ok("asciiRune", imp(a != "" && a[0] < 128, runesize(a) == 1), a)
		ok("trimFirst", imp(y != "", y != "" && y[0] != ' ' && y[0] != '\t'), y)
		ok("lidxByteEnd", strings.LastIndexByte(a+"]\n", ']') == len(a), a)
		ok("blankCat", triml(w+r.blank()) == "", w)
		ok("anyBreak", imp(strings.IndexByte(a, '\n') < 0, any("\n", a) < 0), a)
		ok("idxNoneQ", (strings.IndexByte(a, '`') < 0) == !strings.Contains(a, "`"), a)
		ok("repeatAny", imp(any(" ", d) < 0, any("    ", d) < 0), d)
	}
}

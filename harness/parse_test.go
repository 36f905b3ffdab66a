package ini_test

// Loading: a reference reader of the INI format (C11-C16).

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/iotest"
	"unicode"

	"github.com/go-ini/ini"
)

// what a load may end with
const (
	okLoad = iota
	errDelim
	errEmptyName
	errOther
)

// ref reads one source into the model the way the format documentation says.
type ref struct {
	m    *mfile
	rest string
	eof  bool
	com  string
}

func (r *ref) next() string {
	i := strings.IndexByte(r.rest, '\n')
	if i < 0 {
		r.eof = true
		l := r.rest
		r.rest = ""
		return l
	}
	l := r.rest[:i+1]
	r.rest = r.rest[i+1:]
	return l
}

func (r *ref) takeComment() string {
	c := strings.TrimSpace(r.com)
	r.com = ""
	return c
}

func skipSpace(s string) string { return strings.TrimLeftFunc(s, unicode.IsSpace) }

// commentPart is the part of s that starts at the first comment symbol.
func commentPart(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '#' || s[i] == ';' {
			return s[i:]
		}
	}
	return ""
}

func cutBOM(s string) string {
	switch {
	case strings.HasPrefix(s, "\xef\xbb\xbf"):
		return s[3:]
	case strings.HasPrefix(s, "\xff\xfe"), strings.HasPrefix(s, "\xfe\xff"):
		return s[2:]
	}
	return s
}

// keyName splits a line at its delimiter.
func (r *ref) keyName(line string) (name, rest string, e int) {
	delims := r.m.o.KeyValueDelimiters
	if delims == "" {
		delims = "=:"
	}
	cut := func(s string) (string, string, bool) {
		for i, c := range s {
			if strings.ContainsRune(delims, c) {
				return s[:i], s[i+len(string(c)):], true
			}
		}
		return "", "", false
	}
	q := ""
	switch {
	case strings.HasPrefix(line, `"""`) && len(line) > 6:
		q = `"""`
	case line[0] == '"', line[0] == '`':
		q = line[:1]
	}
	if q != "" {
		name, after, ok := strings.Cut(line[len(q):], q)
		if !ok {
			return "", "", errOther
		}
		_, rest, ok := cut(after)
		if !ok {
			return "", "", errDelim
		}
		return strings.TrimSpace(name), rest, okLoad
	}
	name, rest, ok := cut(line)
	if !ok {
		return "", "", errDelim
	}
	if name == "" {
		return "", "", errEmptyName
	}
	return strings.TrimSpace(name), rest, okLoad
}

func (r *ref) pythonLines(v string) string {
	for r.rest != "" && strings.IndexByte(" \t\f", r.rest[0]) >= 0 {
		v += "\n" + strings.TrimSuffix(r.next(), "\n")
	}
	return v
}

func (r *ref) value(in string) (string, int) {
	o := r.m.o
	line := skipSpace(in)
	if line == "" {
		if o.AllowPythonMultilineValues && strings.HasSuffix(in, "\n") {
			return r.pythonLines(""), okLoad
		}
		return "", okLoad
	}
	q := ""
	switch {
	case len(line) > 3 && strings.HasPrefix(line, `"""`):
		q = `"""`
	case line[0] == '`':
		q = "`"
	case line[0] == '"' && o.UnescapeValueDoubleQuotes:
		q = `"`
	}
	if q != "" {
		body := line[len(q):]
		if i := strings.LastIndex(body, q); i >= 0 {
			body = body[:i]
			if q == `"` {
				body = strings.ReplaceAll(body, `\"`, `"`)
			}
			return body, okLoad
		}
		for !r.eof {
			l := r.next()
			if i := strings.LastIndex(l, q); i >= 0 {
				r.com += strings.TrimSpace(commentPart(l[i:]))
				return body + l[:i], okLoad
			}
			body += l
		}
		return "", errOther
	}
	nl := strings.HasSuffix(line, "\n")
	v := strings.TrimSpace(line)
	if strings.HasSuffix(v, `\`) && !o.IgnoreContinuation {
		v = v[:len(v)-1]
		for {
			l := strings.TrimSpace(r.next())
			v += l
			if l == "" || !strings.HasSuffix(v, `\`) {
				return v, okLoad
			}
			v = v[:len(v)-1]
		}
	}
	if !o.IgnoreInlineComment {
		for i := 0; i < len(v); i++ {
			if (v[i] == '#' || v[i] == ';') && (!o.SpaceBeforeInlineComment || i > 0 && v[i-1] == ' ') {
				if o.SpaceBeforeInlineComment {
					i--
				}
				r.com += v[i:]
				v = strings.TrimSpace(v[:i])
				break
			}
		}
	}
	if !o.PreserveSurroundedQuote && len(v) >= 2 && (v[0] == '"' || v[0] == '\'') && strings.IndexByte(v[1:], v[0]) == len(v)-2 {
		return v[1 : len(v)-1], okLoad
	}
	if o.UnescapeValueCommentSymbols {
		v = strings.ReplaceAll(strings.ReplaceAll(v, `\;`, ";"), `\#`, "#")
	}
	if o.AllowPythonMultilineValues && nl {
		v = r.pythonLines(v)
	}
	return v, okLoad
}

// load reads the source; it returns how loading must end.
func (m *mfile) load(data string) int {
	o := m.o
	r := &ref{m: m, rest: cutBOM(data)}
	ins := o.Insensitive || o.InsensitiveSections
	sec := m.newSection(ini.DefaultSection)
	var last *mkey // the key nested values go to
	lastEmpty, raw, count := false, false, 1
	for !r.eof {
		line := r.next()
		if o.AllowNestedValues && lastEmpty && line != "" && (line[0] == ' ' || line[0] == '\t') {
			if last.boolean || last.auto {
				return errOther
			}
			last.nested = append(last.nested, strings.TrimSpace(line))
			continue
		}
		line = skipSpace(line)
		if line == "" {
			continue
		}
		switch line[0] {
		case '#', ';':
			r.com += line
			continue
		case '[':
			i := strings.LastIndexByte(line, ']')
			if i < 0 {
				return errOther
			}
			name := line[1:i]
			if sec = m.newSection(name); sec == nil {
				return errOther
			}
			r.com += commentPart(line[i+1:])
			sec.comment = r.takeComment()
			count, lastEmpty, raw = 1, false, false
			for _, u := range o.UnparseableSections {
				if u == name || ins && strings.EqualFold(u, name) {
					raw = true
				}
			}
			continue
		}
		if raw {
			sec.raw = true
			sec.body += line
			continue
		}
		name, rest, e := r.keyName(line)
		if e == errDelim && o.AllowBooleanKeys {
			name, e := r.value(line)
			if e != okLoad {
				return e
			}
			k := m.newKey(sec, name, "true")
			if k == nil {
				return errOther
			}
			k.boolean = true
			k.comment = r.takeComment()
			continue
		}
		if (e == errDelim || e == errEmptyName) && o.SkipUnrecognizableLines {
			continue
		}
		if e != okLoad {
			return e
		}
		auto := name == "-"
		if auto {
			name = fmt.Sprintf("#%d", count)
			count++
		}
		v, e := r.value(rest)
		if e != okLoad {
			return e
		}
		k := m.newKey(sec, name, v)
		if k == nil {
			return errOther
		}
		lastEmpty = v == ""
		k.auto = auto
		k.comment = r.takeComment()
		last = k
	}
	return okLoad
}

func (c *C) loadOptions() ini.LoadOptions {
	b := func(n int) bool { return c.chance(n) }
	o := ini.LoadOptions{
		Insensitive: b(8), InsensitiveSections: b(10), InsensitiveKeys: b(10),
		IgnoreContinuation: b(5), IgnoreInlineComment: b(5), SkipUnrecognizableLines: b(4),
		AllowBooleanKeys: b(4), AllowShadows: b(4), AllowNestedValues: b(4), AllowPythonMultilineValues: b(5),
		SpaceBeforeInlineComment: b(5), UnescapeValueDoubleQuotes: b(4), UnescapeValueCommentSymbols: b(4),
		PreserveSurroundedQuote: b(5), AllowNonUniqueSections: b(6), AllowDuplicateShadowValues: b(3),
	}
	if b(5) {
		for i := c.Intn(3); i >= 0; i-- {
			o.UnparseableSections = append(o.UnparseableSections, c.pick("raw", "a", "RAW", "DEFAULT", "b", "K"))
		}
	}
	if b(6) {
		o.KeyValueDelimiters = c.pick("=", ":", "→", "=→:", "|", " ")
	}
	if b(10) {
		o.ReaderBufferSize = c.Intn(10000)
	}
	return o
}

// iniText generates a source: mostly well-formed lines, some odd ones.
func (c *C) iniText(o ini.LoadOptions) string {
	d := o.KeyValueDelimiters
	if d == "" {
		d = "=:"
	}
	dr := []rune(d)
	delim := func() string { return c.pick("", " ", " ") + string(dr[c.Intn(len(dr))]) + c.pick("", " ", " ", "\t") }
	nl := "\n"
	if c.chance(8) {
		nl = "\r\n"
	}
	var b strings.Builder
	word := func() string {
		return c.pick("a", "b", "k", "K", "key", "x y", "é", "v1", "1", "日本", "\xff", "A", "raw", "-", "a.b", "%(k)s", "\u00a0a", "b\u2003")
	}
	val := func() string {
		s := ""
		for i := c.Intn(4); i > 0; i-- {
			s += c.pick(word(), word(), " ", "#", ";", " #", " ;", "\\", "\"", "'", "`", "\"\"\"", "=", ":", "\\\"", "\\#", "\\;", "\t", ",", "]", "[", "\\\\", "\u00a0", "\f", "\r", "\x00")
		}
		if c.chance(40) {
			s += strings.Repeat(word(), 1<<c.Intn(13))
		}
		if c.chance(30) {
			s += strings.Repeat(c.pick("\\#", "\\;", "\\\"", "'", "\"", "\\\\", " #", "=", "`", "]"), 2+c.Intn(8))
		}
		return s
	}
	value := func() string {
		switch c.Intn(16) {
		case 0:
			return `"` + val() + `"`
		case 1:
			return "`" + val() + "`"
		case 2:
			return `"""` + val() + `"""`
		case 3:
			return "'" + val() + "'"
		case 4:
			return `"""` + val() + nl + val() + nl + val() + `"""` + c.pick("", " # c", ";c")
		case 5:
			return "`" + val() + nl + val() + "`" + val()
		case 6:
			return val() + "\\" + nl + val() + c.pick("", "\\") + nl + val()
		case 7:
			return val() + nl + c.pick(" ", "\t", "\f", "  ") + val() + nl + c.pick(" ", "\t", "") + val()
		case 8:
			return ""
		case 9:
			return word() + c.pick(" # c", " ; c", "#c", ";c")
		case 10:
			return `"` + val() + nl + val() + `"`
		}
		return val()
	}
	section := word
	if names := append(append([]string{}, o.UnparseableSections...), word(), word()); c.chance(3) {
		section = func() string { return names[c.Intn(len(names))] } // few sections, again and again
	}
	for i := 1 + c.Intn(9); i > 0; i-- {
		if c.chance(100) {
			// the same kind of line many times over
			unit := c.pick("-"+delim()+"v", "-"+delim(), "k"+delim()+"v\\", "\\", "v\\", ";c", "# c", " v", "\tw", "", "]", "v", "k"+delim(), "[a]", "k"+delim()+"`")
			if c.chance(3) {
				b.WriteString("k" + delim() + c.pick("", "v", "\"\"\"", "v\\") + nl)
			}
			for j := 2 + c.Intn(1<<c.Intn(8)); j > 0; j-- {
				b.WriteString(unit + nl)
			}
		}
		switch c.Intn(20) {
		case 0:
			b.WriteString("")
		case 1, 2:
			b.WriteString(c.pick("", " ") + c.pick("#", ";", "# ", "; ", "##") + val())
		case 3, 4:
			b.WriteString(c.pick("", "", " ") + "[" + section() + c.pick("]", "]", "]", "] ; c", "]#c]", " ]", "") + c.pick("", "", val()))
		case 5:
			b.WriteString(c.pick(" ", "\t", "  ", "\f") + value())
		case 6:
			b.WriteString(val())
		case 7:
			b.WriteString(word() + c.pick("", "", " # c"))
		case 8:
			b.WriteString("-" + delim() + value())
		case 9:
			q := c.pick(`"`, "`", `"""`)
			b.WriteString(q + c.pick(word(), word()+"="+word(), val()) + q + c.pick(delim(), delim(), "", " x"+delim()) + value())
		case 10:
			b.WriteString(delim() + value())
		default:
			b.WriteString(c.pick("", "", "", " ", "\t") + word() + delim() + value())
		}
		if i > 1 || c.chance(2) {
			b.WriteString(nl)
		}
	}
	return b.String()
}

// same compares the whole loaded file with the model.
func (c *C) same(m *mfile, tags string) {
	secs := m.f.Sections()
	var got []string
	for _, s := range secs {
		got = append(got, s.Name())
	}
	var want []string
	for _, s := range m.secs {
		want = append(want, s.name)
	}
	c.Check(eqStrs(got, want), tags, "sections %q, want %q", got, want)
	for i, s := range m.secs {
		r := secs[i]
		s.real = r
		c.Check(r.Comment == s.comment, tags+" C14", "section %q: comment %q, want %q", s.name, r.Comment, s.comment)
		c.Check(r.Body() == strings.TrimSpace(s.body), tags+" C14", "section %q: body %q, want %q", s.name, r.Body(), strings.TrimSpace(s.body))
		var kn []string
		for _, k := range s.keys {
			kn = append(kn, k.name)
		}
		c.Check(eqStrs(r.KeyStrings(), kn), tags+" C14", "section %q: keys %q, want %q", s.name, r.KeyStrings(), kn)
		for j, k := range r.Keys() {
			w := s.keys[j]
			c.Check(k.Value() == w.val, tags, "section %q key %q: value %q, want %q", s.name, w.name, k.Value(), w.val)
			c.Check(k.Comment == w.comment, tags, "section %q key %q: comment %q, want %q", s.name, w.name, k.Comment, w.comment)
			c.Check(eqStrs(k.ValueWithShadows(), w.all()), tags+" C06", "section %q key %q: values %q, want %q", s.name, w.name, k.ValueWithShadows(), w.all())
			c.Check(eqStrs(k.NestedValues(), w.nested), tags+" C14", "section %q key %q: nested values %q, want %q", s.name, w.name, k.NestedValues(), w.nested)
		}
	}
}

func (c *C) checkErr(err error, want int, tags string) {
	switch want {
	case okLoad:
		c.Check(err == nil, tags, "loading fails: %v", err)
	case errDelim:
		c.Check(ini.IsErrDelimiterNotFound(err), tags, "error %v, want a missing-delimiter error", err)
	case errEmptyName:
		c.Check(ini.IsErrEmptyKeyName(err), tags, "error %v, want an empty-key-name error", err)
	default:
		c.Check(err != nil && !ini.IsErrDelimiterNotFound(err) && !ini.IsErrEmptyKeyName(err), tags, "error %v, want a syntax error of another kind", err)
	}
}

func newModel(o ini.LoadOptions) *mfile { return &mfile{o: o} }

func parseCheck(tags string) func(c *C) {
	return func(c *C) {
		o := c.loadOptions()
		text := c.iniText(o)
		c.Logf("options %+v", o)
		c.Logf("%q", text)
		m := newModel(o)
		want := m.load(text)
		f, err := ini.LoadSources(o, []byte(text))
		c.checkErr(err, want, tags)
		if err != nil {
			c.Check(f == nil, "C11", "an error and a file")
			return
		}
		m.f = f
		c.same(m, tags)
		c.nontriv = len(m.secs) > 1 || len(m.secs[0].keys) > 0
	}
}

// keyLine is about a single key line (C12, C13).
func keyLine(tags string, name bool) func(c *C) {
	return func(c *C) {
		o := c.loadOptions()
		o.AllowNestedValues, o.UnparseableSections = false, nil
		text := c.iniText(o)
		if name {
			q := c.pick(`"`, "`", `"""`, "", "", `""`)
			d := o.KeyValueDelimiters
			if d == "" {
				d = "=:"
			}
			dr := []rune(d)
			w := ""
			for i := c.Intn(4); i > 0; i-- {
				w += c.pick("a", " ", "=", ":", "`", "\"", "\"\"\"", "x y", "é", "→", "|", "\t", "-", "[", "]", "'")
			}
			text = c.pick("", " ") + q + w + q + c.pick("", " ", "z") + string(dr[c.Intn(len(dr))]) + c.pick("v", " v", "", "=v", "a:b", "\xff", "\x80", "\xbf\x80v", "\u00a0v", "\u0301v", "\u3000") + "\n" + c.pick("", text)
		}
		c.Logf("options %+v", o)
		c.Logf("%q", text)
		m := newModel(o)
		want := m.load(text)
		f, err := ini.LoadSources(o, []byte(text))
		c.checkErr(err, want, tags)
		if err == nil {
			m.f = f
			c.same(m, tags)
			c.nontriv = true
		}
	}
}

type failReader struct {
	data string
	err  error
	once bool
	n    int
}

func (r *failReader) Read(p []byte) (int, error) {
	if r.n < len(r.data) {
		n := copy(p, r.data[r.n:])
		r.n += n
		return n, nil
	}
	if r.once {
		r.once = false
		e := r.err
		r.err = io.EOF
		return 0, e
	}
	return 0, r.err
}

type stallReader struct{ r io.Reader }

func (r *stallReader) Read(p []byte) (int, error) { return 0, nil }

func TestC11(t *testing.T) {
	search(t, "C11", func(c *C) {
		o := c.loadOptions()
		if c.chance(20) {
			o.ChildSectionDelimiter = c.pick("/", "")
		}
		o.Loose = c.chance(4)
		var text string
		switch c.Intn(4) {
		case 0:
			b := make([]byte, c.Intn(60))
			for i := range b {
				b[i] = "ab=:#;[]\"'`\\ \t\n\n\r\x00\xff\xef\xbb\xbf\xfe-%()s"[c.Intn(28)]
			}
			text = string(b)
		case 1:
			b := make([]byte, c.Intn(40))
			c.Read(b)
			text = string(b)
		case 2:
			text = c.iniText(o)
			for i := c.Intn(3); i > 0 && text != ""; i-- {
				p := c.Intn(len(text))
				text = text[:p] + c.pick("", "\n", "\"", "`", "\\", "[", "=", "\xef") + text[p+c.Intn(2):]
			}
		default:
			text = c.iniText(o)
			if c.chance(10) {
				text = strings.Repeat(text, 1+c.Intn(3000)/(len(text)+1)*3)
			}
		}
		c.Logf("options %+v", o)
		c.Logf("%q", text)
		f, err := ini.LoadSources(o, []byte(text))
		m := newModel(o)
		c.checkErr(err, m.load(text), "C12 C13 C14 C15")
		c.Check((f == nil) == (err != nil), "C11", "file %v, error %v", f != nil, err)
		if err == nil {
			m.f = f
			// the file is usable
			for _, s := range f.Sections() {
				s.ParentKeys()
				s.ChildSections()
				for _, k := range s.Keys() {
					k.Value()
					k.ValueWithShadows()
				}
			}
			f.Section("new").Key("k").SetValue("v")
			f.DeleteSection("new")
			c.nontriv = true
		}
		// the way the bytes arrive does not matter
		type way struct {
			name string
			r    io.Reader
		}
		for _, w := range []way{{"one byte at a time", iotest.OneByteReader(strings.NewReader(text))}, {"halves", iotest.HalfReader(strings.NewReader(text))}, {"with the error", iotest.DataErrReader(strings.NewReader(text))}, {"plain", strings.NewReader(text)}} {
			g, e := ini.LoadSources(o, w.r)
			c.Check((e == nil) == (err == nil), "C11", "%s: error %v, from a byte slice %v", w.name, e, err)
			if e == nil {
				var x, y bytes.Buffer
				m2 := *m
				m2.f = g
				s1, s2 := m.snapshot2(), m2.snapshot2()
				c.Check(s1 == s2, "C11", "%s: the file differs:\n%s\nfrom a byte slice:\n%s", w.name, s2, s1)
				_, _ = x, y
			}
		}
		// a failing reader is an error
		n := 0
		if len(text) > 0 {
			n = c.Intn(len(text) + 1)
		}
		bad := []error{errors.New("broken reader"), io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrNotExist, fmt.Errorf("wrapped: %w", io.EOF), io.ErrShortBuffer, io.ErrNoProgress}[c.Intn(7)]
		c.Logf("the reader's error: %v, loose: %v", bad, o.Loose)
		c.Logf("the reader fails after %d bytes", n)
		for _, once := range []bool{false, true} {
			var r io.Reader = &failReader{data: text[:n], err: bad, once: once}
			if c.chance(2) {
				r = iotest.OneByteReader(r)
			}
			g, e := ini.LoadSources(o, r)
			c.Check(e != nil && g == nil, "C11", "a reader that fails after %d bytes (once: %v) loads without error", n, once)
		}
		if c.chance(20) {
			_, e := ini.LoadSources(o, &stallReader{})
			c.Check(e != nil, "C11", "a reader that never delivers loads without error")
		}
	})
}

// snapshot2 is snapshot with flags visible only in the output left out.
func (m *mfile) snapshot2() string { return m.snapshot() }

func TestC12(t *testing.T) { search(t, "C12", keyLine("C12", true)) }
func TestC13(t *testing.T) { search(t, "C13", keyLine("C13", false)) }
func TestC14(t *testing.T) { search(t, "C14", parseCheck("C14")) }

func TestC15(t *testing.T) {
	search(t, "C15", func(c *C) {
		o := c.loadOptions()
		bom := c.pick("\xef\xbb\xbf", "\xff\xfe", "\xfe\xff")
		text := c.iniText(o)
		if c.chance(2) {
			text = c.pick("", "a", "\n", "a=", "ab=c", "\xbf", "[s]\nk=v", "\"k\"=1", "a=1\nb=2") + c.pick("", text)
		}
		if c.chance(4) {
			bom = bom[:c.Intn(len(bom))] + c.pick("", "", "\xef", "\xbb\xbf")
		}
		if c.chance(8) {
			bom += bom
		}
		data := bom + text
		c.Logf("options %+v", o)
		c.Logf("%q", data)
		m := newModel(o)
		want := m.load(data)
		var src interface{} = []byte(data)
		if c.chance(3) {
			src = iotest.OneByteReader(strings.NewReader(data))
		}
		f, err := ini.LoadSources(o, src)
		if cutBOM(data) != data {
			f2, err2 := ini.LoadSources(o, append([]byte("\n"), cutBOM(data)...))
			c.Check((err == nil) == (err2 == nil), "C15", "with the mark: %v, without: %v", err, err2)
			if err == nil {
				a, b := (&mfile{f: f}).snapshot(), (&mfile{f: f2}).snapshot()
				c.Check(a == b, "C15", "with the mark:\n%s\nwithout:\n%s", a, b)
				c.nontriv = true
			}
		}
		c.checkErr(err, want, "C15")
		if err == nil {
			m.f = f
			c.same(m, "C15")
		}
	})
}

type closer struct {
	io.Reader
	closed int
	err    error
}

func (r *closer) Close() error { r.closed++; return r.err }

func TestC16(t *testing.T) {
	dir := os.TempDir()
	search(t, "C16", func(c *C) {
		o := c.loadOptions()
		o.Loose = c.chance(2)
		o.ShortCircuit = c.chance(4)
		if c.chance(2) {
			o.AllowNonUniqueSections = false
		}
		load := func(a interface{}, l ...interface{}) (*ini.File, error) { return ini.LoadSources(o, a, l...) }
		if c.chance(5) {
			// the other ways to load
			switch c.Intn(4) {
			case 0:
				o, load = ini.LoadOptions{}, ini.Load
			case 1:
				o, load = ini.LoadOptions{Loose: true}, ini.LooseLoad
			case 2:
				o, load = ini.LoadOptions{Insensitive: true}, ini.InsensitiveLoad
			case 3:
				o, load = ini.LoadOptions{AllowShadows: true}, ini.ShadowLoad
			}
			c.Logf("through the function for these options")
		}
		c.Logf("options %+v", o)
		type source struct {
			text    string
			missing bool
			again   bool // may be read again
			bad     bool
		}
		var srcs []source
		var real []interface{}
		nfile := 0
		gen := func(again bool) interface{} {
			s := source{text: c.iniText(ini.LoadOptions{KeyValueDelimiters: o.KeyValueDelimiters}), again: true}
			if c.chance(2) {
				s.text = c.pick("k=1\n[a]\nk=2\n", "[a]\nk=3\nx=4\n[b]\n", "k=5", "[a]\n#c\ny=6\n[DEFAULT]\nk=7\n", "", "# c\n")
			}
			var r interface{}
			switch k := c.Intn(8); {
			case k < 2:
				r = []byte(s.text)
				c.Logf("bytes %q", s.text)
			case k < 4:
				p := filepath.Join(dir, fmt.Sprintf("f%d.ini", nfile))
				nfile++
				os.WriteFile(p, []byte(s.text), 0o600)
				c.Logf("file with %q", s.text)
				r = p
			case k == 4:
				s.missing = true
				r = filepath.Join(dir, "nosuch.ini")
				c.Logf("missing file")
			case k == 5 && !again:
				s.again = false
				c.Logf("reader %q", s.text)
				r = strings.NewReader(s.text)
			case k == 6 && !again:
				s.again = false
				c.Logf("read-closer %q", s.text)
				cl := &closer{Reader: strings.NewReader(s.text)}
				if newModel(o).load(s.text) != okLoad {
					cl.err = errors.New("close failed")
				}
				r = cl
				if c.chance(2) {
					// an open file that has been read in part
					p := filepath.Join(dir, "part.ini")
					os.WriteFile(p, []byte("junk=1\n"+s.text), 0o600)
					if h, err := os.Open(p); err == nil {
						h.Seek(7, io.SeekStart)
						os.Remove(p)
						r = h
					}
				}
			case c.chance(4):
				s.bad = true
				if c.chance(2) {
					p := filepath.Join(dir, "plain")
					os.WriteFile(p, []byte("x=1\n"), 0o600)
					r = []string{dir, filepath.Join(p, "x.ini"), filepath.Join(dir, "a\x00b"), filepath.Join(dir, strings.Repeat("n", 5000))}[c.Intn(4)]
					c.Logf("a path that cannot be read: %.60q", r)
				} else {
					err := errors.New("broken reader")
					if c.chance(3) {
						err = os.ErrNotExist
					}
					c.Logf("reader failing with %v", err)
					r = iotest.ErrReader(err)
				}
			default:
				r = []byte(s.text)
				c.Logf("bytes %q", s.text)
			}
			srcs = append(srcs, s)
			return r
		}
		reload := c.chance(3)
		for i := 1 + c.Intn(3); i > 0; i-- {
			real = append(real, gen(reload))
		}
		if c.chance(12) {
			var x interface{} = []interface{}{42, nil, 'x', struct{}{}, []string{"a"}}[c.Intn(5)]
			i := c.Intn(len(real) + 1)
			l := append(append(append([]interface{}{}, real[:i]...), x), real[i:]...)
			_, err := ini.LoadSources(o, l[0], l[1:]...)
			c.Check(err != nil, "C16", "source %T is accepted", x)
			return
		}
		m := newModel(o)
		run := func() int {
			for _, s := range srcs {
				switch {
				case s.missing:
					if !o.Loose {
						return errOther
					}
					m.load("")
					continue
				case s.bad:
					return errOther
				}
				if e := m.load(s.text); e != okLoad {
					return e
				}
				if o.ShortCircuit {
					break
				}
			}
			return okLoad
		}
		want := run()
		f, err := load(real[0], real[1:]...)
		c.checkErr(err, want, "C16")
		if err != nil {
			return
		}
		m.f = f
		c.same(m, "C16")
		c.nontriv = len(srcs) > 1
		if !reload {
			return
		}
		for i := c.Intn(3); i > 0 && err == nil; i-- {
			if c.chance(2) {
				c.Logf("Reload")
				err = f.Reload()
			} else {
				c.Logf("Append")
				a := gen(true)
				if c.chance(2) {
					err = f.Append(a)
				} else {
					err = f.Append(a, gen(true))
				}
			}
			want = run()
			c.checkErr(err, want, "C16")
			if err == nil {
				c.same(m, "C16")
			}
		}
	})
}

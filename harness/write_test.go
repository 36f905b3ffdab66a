package ini_test

// Writing: C17-C19. The reference writer below produces the output from the
// model file; reading back is judged against the model, too.

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/go-ini/ini"
)

func refComment(s string, key bool) string {
	if s == "" {
		return ""
	}
	out := ""
	for _, l := range strings.Split(s, ini.LineBreak) {
		switch {
		case l == "" && !key, l != "" && l[0] != '#' && l[0] != ';' && !key:
			out += "; " + l
		case l == "" || l[0] != '#' && l[0] != ';':
			out += "; " + strings.TrimSpace(l)
		default:
			out += l[:1] + " " + strings.TrimSpace(l[1:])
		}
		out += ini.LineBreak
	}
	return out
}

// write is the reference writer.
func (m *mfile) write(indent string) string {
	d, on := m.o.KeyValueDelimiters, m.o.KeyValueDelimiterOnWrite
	if d == "" {
		d = "=:"
	}
	if on == "" {
		on = "="
	}
	sign := ini.DefaultFormatLeft + on + ini.DefaultFormatRight
	if ini.PrettyEqual || ini.PrettyFormat {
		sign = " " + on + " "
	}
	quoted := func(n string) string {
		if strings.ContainsAny(n, `"`+d) {
			return "`" + n + "`"
		} else if strings.Contains(n, "`") {
			return `"""` + n + `"""`
		}
		return n
	}
	var b strings.Builder
	for i, s := range m.secs {
		b.WriteString(refComment(s.comment, false))
		gap := ""
		if ini.PrettySection && i < len(m.secs)-1 {
			gap = ini.LineBreak
		}
		isDefault := s.name == m.normS(ini.DefaultSection)
		head := i > 0 || ini.DefaultHeader || !isDefault || s.raw
		if head {
			b.WriteString("[" + s.name + "]" + ini.LineBreak)
		} else if len(s.keys) == 0 {
			continue
		}
		if s.raw {
			b.WriteString(s.body + gap)
			continue
		}
		width := 0
		for _, k := range s.keys {
			if w := len(quoted(k.name)); w > width && ini.PrettyFormat {
				width = w
			}
		}
		pre := indent
		if s.name == ini.DefaultSection {
			pre = ""
		}
		for _, k := range s.keys {
			if k.comment != "" {
				b.WriteString(pre + refComment(k.comment, true))
			}
			b.WriteString(pre)
			n := quoted(k.name)
			if k.auto {
				n = "-"
			}
			if k.boolean {
				b.WriteString(n + ini.LineBreak)
				if len(k.all()) == 0 {
					// a boolean key emptied later keeps the nested values it had before
					for _, v := range k.nested {
						b.WriteString(indent + "  " + v + ini.LineBreak)
					}
				}
				continue
			}
			vals := k.all()
			if len(vals) == 0 {
				vals = []string{""}
			}
			for _, v := range vals {
				switch {
				case strings.ContainsAny(v, "\n`"):
					v = `"""` + v + `"""`
				case strings.ContainsAny(v, "#;") && !m.o.IgnoreInlineComment:
					v = "`" + v + "`"
				case strings.TrimSpace(v) != v:
					v = `"` + v + `"`
				}
				b.WriteString(n)
				for j := len(n); j < width; j++ {
					b.WriteString(" ")
				}
				b.WriteString(sign + v + ini.LineBreak)
			}
			for _, v := range k.nested {
				b.WriteString(indent + "  " + v + ini.LineBreak)
			}
		}
		b.WriteString(gap)
	}
	return b.String()
}

func (c *C) layout() {
	if c.chance(3) {
		ini.PrettyFormat = false
	}
	ini.PrettyEqual = c.chance(3)
	if c.chance(3) {
		ini.PrettySection = false
	}
	ini.DefaultHeader = c.chance(4)
	if c.chance(4) {
		ini.DefaultFormatLeft, ini.DefaultFormatRight = c.pick("", " ", "  "), c.pick("", " ", "\t")
	}
	if c.chance(5) {
		ini.LineBreak = "\r\n"
	}
	c.Logf("PrettyFormat %v PrettyEqual %v PrettySection %v DefaultHeader %v left %q right %q LineBreak %q", ini.PrettyFormat, ini.PrettyEqual, ini.PrettySection, ini.DefaultHeader, ini.DefaultFormatLeft, ini.DefaultFormatRight, ini.LineBreak)
}

// edit changes the file and the model through the API.
func (c *C) edit(m *mfile, n int) {
	f := m.f
	val := func() string {
		return c.pick("v", "", "a b", " lead", "trail ", "#x", "a;b", "l1\nl2", "q`q", "\"dq\"", "%(a)s", "x=y", "é", "`\n`", "a\\", "tab\t", "true", "\n")
	}
	name := func() string {
		return c.pick("a", "b", "key", "long name", "k\"q", "k=v", "k:v", "k`b", "é", "A", "日本", "k\"`", "x=`", "-")
	}
	com := func() string {
		return c.pick("", "c", "# c", ";c", "two\nlines", "a\n# b\n;c", "a\n\nb", "  pad ", "#", "a\r\nb", "\n")
	}
	for ; n > 0; n-- {
		secs := f.Sections()
		if c.chance(4) {
			s := c.pick("a", "b", "a.b", "DEFAULT", "default", "raw", "x y", "A")
			switch c.Intn(5) {
			case 0:
				v := val()
				w := m.byName(s)
				if len(w) > 0 && len(w[0].keys) > 0 && !m.o.AllowNonUniqueSections {
					continue // a raw section with keys does not write its keys
				}
				c.Logf("NewRawSection(%q, %q)", s, v)
				f.NewRawSection(s, v)
				x := m.newSection(s)
				x.raw, x.body = true, v
			case 1:
				c.Logf("DeleteSection(%q)", s)
				f.DeleteSection(s)
				m.remove(m.byName(s)...)
			default:
				c.Logf("NewSection(%q)", s)
				f.NewSection(s)
				m.newSection(s)
			}
			continue
		}
		if len(secs) == 0 {
			continue
		}
		i := c.Intn(len(secs))
		s, w := secs[i], m.secs[i]
		if w.raw {
			continue
		}
		switch c.Intn(8) {
		case 0:
			s.Comment = com()
			w.comment = s.Comment
			c.Logf("[%s] #%d: Comment = %q", w.name, i, s.Comment)
		case 1:
			n := name()
			if k := w.own(m.normK(n)); k != nil && (len(k.shadows) > 0 || len(k.nested) > 0) {
				continue
			}
			c.Logf("[%s] #%d: NewBooleanKey(%q)", w.name, i, n)
			s.NewBooleanKey(n)
			if k := m.newKey(w, n, "true"); k != nil {
				k.boolean = true
			}
		case 2, 3, 4:
			n, v := name(), val()
			c.Logf("[%s] #%d: NewKey(%q, %q)", w.name, i, n, v)
			s.NewKey(n, v)
			m.newKey(w, n, v)
		case 5:
			n := name()
			c.Logf("[%s] #%d: DeleteKey(%q)", w.name, i, n)
			s.DeleteKey(n)
			for j, k := range w.keys {
				if k.name == m.normK(n) {
					w.keys = append(append([]*mkey{}, w.keys[:j]...), w.keys[j+1:]...)
					break
				}
			}
		default:
			if len(w.keys) == 0 {
				continue
			}
			j := c.Intn(len(w.keys))
			k, r := w.keys[j], s.Keys()[j]
			switch c.Intn(4) {
			case 0:
				r.Comment = com()
				k.comment = r.Comment
				c.Logf("[%s] #%d key %q: Comment = %q", w.name, i, k.name, r.Comment)
			case 1:
				k.val = val()
				c.Logf("[%s] #%d key %q: SetValue(%q)", w.name, i, k.name, k.val)
				r.SetValue(k.val)
			case 2:
				v := val()
				c.Logf("[%s] #%d key %q: AddShadow(%q)", w.name, i, k.name, v)
				if r.AddShadow(v) == nil {
					m.addShadow(k, v)
				}
			case 3:
				v := c.pick("n", "n1", "a b", "")
				c.Logf("[%s] #%d key %q: AddNestedValue(%q)", w.name, i, k.name, v)
				if r.AddNestedValue(v) == nil {
					k.nested = append(k.nested, v)
				}
			}
		}
	}
}

// built is a file loaded from a text, built through the API, or both.
func (c *C) built() *mfile {
	o := c.loadOptions()
	if c.chance(5) {
		o.KeyValueDelimiterOnWrite = c.pick("=", ":", " ", "->", "→")
	}
	if c.chance(2) {
		o.AllowBooleanKeys, o.AllowShadows, o.AllowNestedValues = true, c.chance(2), c.chance(2)
	}
	if c.chance(10) {
		ini.DefaultSection = c.pick("Main", "x", "default")
	}
	c.Logf("options %+v DefaultSection %q", o, ini.DefaultSection)
	m := newModel(o)
	if c.chance(3) {
		m.f = ini.Empty(o)
		m.newSection(ini.DefaultSection)
	} else {
		text := c.iniText(o)
		c.Logf("%q", text)
		f, err := ini.LoadSources(o, []byte(text))
		if want := m.load(text); (err == nil) != (want == okLoad) || err != nil {
			panic(skipCase{})
		}
		m.f = f
	}
	c.edit(m, c.Intn(12))
	for _, s := range m.secs {
		if s.raw && len(s.keys) > 0 {
			panic(skipCase{})
		}
	}
	return m
}

var indents = []string{"", "  ", "\t", "    "}

func TestC17(t *testing.T) {
	search(t, "C17", func(c *C) {
		m := c.built()
		c.layout()
		indent := ""
		if c.chance(2) {
			indent = indents[c.Intn(len(indents))]
		}
		before := m.snapshot()
		want := m.write(indent)
		var b bytes.Buffer
		c.Logf("WriteToIndent(%q)", indent)
		n, err := m.f.WriteToIndent(&b, indent)
		c.Check(err == nil, "C17", "writing fails: %v", err)
		c.Check(b.String() == want, "C17", "written\n%q\nwant\n%q", b.String(), want)
		c.Check(n == int64(len(want)), "C17 C19", "%d bytes reported, %d written", n, len(want))
		c.Check(m.snapshot() == before, "C17", "writing changed the file from\n%s\nto\n%s", before, m.snapshot())
		c.nontriv = len(want) > 0
	})
}

// failWriter accepts at most n bytes.
type failWriter struct {
	b     bytes.Buffer
	n     int
	err   error
	calls int
}

func (w *failWriter) Write(p []byte) (int, error) {
	w.calls++
	if k := w.n - w.b.Len(); len(p) > k {
		w.b.Write(p[:k])
		return k, w.err
	}
	return w.b.Write(p)
}

// shortWriter takes half of what it is given and reports no error.
type shortWriter struct{ n, calls int }

func (w *shortWriter) Write(p []byte) (int, error) {
	w.calls++
	w.n += len(p) / 2
	return len(p) / 2, nil
}

func TestC19(t *testing.T) {
	dir := os.TempDir()
	search(t, "C19", func(c *C) {
		m := c.built()
		c.layout()
		indent := indents[c.Intn(len(indents))]
		var b bytes.Buffer
		n, err := m.f.WriteToIndent(&b, indent)
		c.Check(err == nil && n == int64(b.Len()), "C19", "WriteToIndent: %d bytes, error %v, %d written", n, err, b.Len())
		want := b.String()
		if indent == "" {
			b.Reset()
			n, err := m.f.WriteTo(&b)
			c.Check(err == nil && n == int64(b.Len()) && b.String() == want, "C19", "WriteTo: %d bytes, error %v\n%q\nwant\n%q", n, err, b.String(), want)
		}
		p := filepath.Join(dir, fmt.Sprintf("out%d.ini", c.Intn(3)))
		if c.chance(2) {
			os.WriteFile(p, bytes.Repeat([]byte("old\n"), c.Intn(200)), 0o600)
		}
		if indent == "" && c.chance(2) {
			err = m.f.SaveTo(p)
		} else {
			err = m.f.SaveToIndent(p, indent)
		}
		c.Check(err == nil, "C19", "saving fails: %v", err)
		got, _ := os.ReadFile(p)
		c.Check(string(got) == want, "C19", "saved\n%q\nwritten\n%q", got, want)
		// destinations that fail
		w := &failWriter{n: c.Intn(len(want) + 2), err: errors.New("disk full")}
		c.Logf("writer failing after %d bytes", w.n)
		if indent == "" && c.chance(2) {
			n, err = m.f.WriteTo(w)
		} else {
			n, err = m.f.WriteToIndent(w, indent)
		}
		c.Check(n == int64(w.b.Len()), "C19", "%d bytes reported, %d written", n, w.b.Len())
		c.Check((err != nil) == (w.n < len(want)), "C19", "failing writer: error %v", err)
		c.Check(err == nil || errors.Is(err, w.err), "C19", "failing writer: error %v, want %v", err, w.err)
		c.Check(strings.HasPrefix(want, w.b.String()), "C19", "partial output %q, want a prefix of %q", w.b.String(), want)
		// one that drops some without a word
		sw := &shortWriter{}
		if n, err = m.f.WriteToIndent(sw, indent); indent == "" && c.chance(2) {
			sw = &shortWriter{}
			n, err = m.f.WriteTo(sw)
		}
		c.Check(n == int64(sw.n), "C19", "%d bytes reported, %d accepted", n, sw.n)
		c.Check(len(want) == 0 || err != nil, "C19", "a destination that takes %d of %d bytes: no error", sw.n, len(want))
		c.Check(sw.calls <= 1, "C19", "%d writes to a destination that did not take the first", sw.calls)
		c.Check(m.f.SaveTo(filepath.Join(dir, "nosuch", "x.ini")) != nil, "C19", "saving into a missing directory reports no error")
		c.Check(m.f.SaveToIndent(dir, indent) != nil, "C19", "saving to a directory reports no error")
		c.nontriv = len(want) > 0
	})
}

// carries reports whether the format can carry the file (see DESIGN.md, C18):
// everything outside this class is known not to survive.
func (m *mfile) carries(indent string) bool {
	o := m.o
	d, on := o.KeyValueDelimiters, o.KeyValueDelimiterOnWrite
	if d == "" {
		d = "=:"
	}
	if on == "" {
		on = "="
	}
	if len([]rune(on)) != 1 || !strings.Contains(d, on) || strings.ContainsAny(d, " \t#;[\"`\\") {
		return false
	}
	if indent != "" && (o.AllowNestedValues || o.AllowPythonMultilineValues) {
		return false
	}
	def := m.normS(ini.DefaultSection)
	if len(m.secs) == 0 || m.secs[0].name != def || m.secs[0].raw && m.secs[0].body == "" || o.AllowNonUniqueSections && (ini.DefaultHeader || m.secs[0].raw) {
		return false
	}
	comment := func(s string) bool {
		if s == "" {
			return true
		}
		for _, l := range strings.Split(s, ini.LineBreak) {
			if strings.ContainsAny(l, "\n\r") || strings.TrimSpace(l) != l {
				return false
			}
		}
		return true
	}
	value := func(v string) bool {
		switch {
		case strings.ContainsAny(v, "\n`"):
			return !strings.Contains(v, "\n") || !strings.Contains(v, `"""`)
		case strings.ContainsAny(v, "#;") && !o.IgnoreInlineComment:
			return true
		case strings.TrimSpace(v) != v:
			return !strings.Contains(v, `"`) && !o.PreserveSurroundedQuote
		case v == "":
			return true
		}
		sur := func(q string) bool {
			return len(v) > 1 && strings.HasPrefix(v, q) && strings.HasSuffix(v, q) && strings.Count(v, q) == 2
		}
		return !strings.HasPrefix(v, `"""`) && !(o.UnescapeValueDoubleQuotes && v[0] == '"') &&
			!(v[len(v)-1] == '\\' && !o.IgnoreContinuation) &&
			!(!o.PreserveSurroundedQuote && (sur(`"`) || sur(`'`))) &&
			!(o.UnescapeValueCommentSymbols && (strings.Contains(v, `\;`) || strings.Contains(v, `\#`)))
	}
	for i, s := range m.secs {
		if s.name == "" || strings.Contains(s.name, "\n") || i > 0 && s.name == def || m.normS(s.name) != s.name {
			return false
		}
		if !comment(s.comment) || i == 0 && s.comment != "" && !ini.DefaultHeader && !s.raw {
			return false
		}
		listed := false
		for _, u := range o.UnparseableSections {
			listed = listed || u == s.name || (o.Insensitive || o.InsensitiveSections) && strings.EqualFold(u, s.name)
		}
		if s.raw != (listed && (len(s.keys) > 0 || s.raw)) || s.raw && len(s.keys) > 0 {
			return false
		}
		if s.body != "" {
			for _, l := range strings.SplitAfter(s.body, "\n") {
				if l != "" && (!strings.HasSuffix(l, "\n") || strings.TrimSpace(l) == "" || skipSpace(l) != l || strings.ContainsRune("#;[", rune(l[0]))) {
					return false
				}
			}
		}
		auto := 0
		for _, k := range s.keys {
			n := k.name
			if strings.Contains(n, "\n") || strings.TrimSpace(n) != n || n == "" || m.normK(n) != n || !comment(k.comment) || k.comment != "" && len(k.shadows) > 0 {
				return false
			}
			switch {
			case k.auto:
				auto++
				if n != fmt.Sprintf("#%d", auto) || len(k.shadows) > 0 {
					return false
				}
			case strings.ContainsAny(n, `"`+d):
				if strings.Contains(n, "`") {
					return false
				}
			case strings.Contains(n, "`"):
			case n[0] == '#' || n[0] == ';' || n[0] == '[' || n == "-":
				return false
			case k.boolean && (!value(n) || strings.ContainsAny(n, "#;")):
				return false
			}
			if k.boolean {
				if !o.AllowBooleanKeys || k.val != "true" || len(k.shadows) > 0 || len(k.nested) > 0 || k.auto {
					return false
				}
				continue
			}
			seen := map[string]bool{}
			for _, v := range append([]string{k.val}, k.shadows...) {
				if !value(v) || len(k.shadows) > 0 && (v == "" || !o.AllowShadows || seen[v] && !o.AllowDuplicateShadowValues) {
					return false
				}
				seen[v] = true
			}
			if len(k.nested) > 0 && (!o.AllowNestedValues || o.AllowPythonMultilineValues || len(k.shadows) > 0 || k.val != "" || k.auto) {
				return false
			}
			for _, v := range k.nested {
				if strings.TrimSpace(v) != v || strings.Contains(v, "\n") {
					return false
				}
			}
		}
	}
	t := m.write(indent)
	return cutBOM(t) == t
}

func TestC18(t *testing.T) {
	search(t, "C18", func(c *C) {
		m := c.built()
		if c.chance(3) && len(m.secs) > 0 {
			// drop what does not survive
			for i, s := range m.secs {
				if i == 0 {
					s.comment = ""
					s.real = m.f.Sections()[0]
					s.real.Comment = ""
				}
			}
		}
		c.layout()
		indent := indents[c.Intn(len(indents))]
		if c.chance(2) {
			indent = ""
		}
		if !m.carries(indent) {
			c.nontriv = false
			return
		}
		var b bytes.Buffer
		if _, err := m.f.WriteToIndent(&b, indent); err != nil {
			c.Failf("C18", "writing fails: %v", err)
		}
		text := b.String()
		c.Logf("written %q", text)
		f, err := ini.LoadSources(m.o, []byte(text))
		c.Check(err == nil, "C18", "loading what was written fails: %v", err)
		m.f = f
		for _, s := range m.secs {
			s.comment = strings.TrimSpace(refComment(s.comment, false))
			if s.body == "" {
				s.raw = false
			}
			for _, k := range s.keys {
				k.comment = strings.TrimSpace(refComment(k.comment, true))
			}
		}
		c.same(m, "C18")
		var b2 bytes.Buffer
		_, err = f.WriteToIndent(&b2, indent)
		c.Check(err == nil && b2.String() == text, "C18", "written again\n%q\nwas\n%q (error %v)", b2.String(), text, err)
		c.nontriv = len(text) > 0
	})
}

package ini_test

// A reference model of the section and key registries, driven by random
// histories of API calls: C01-C06.

import (
	"fmt"
	"strings"
	"testing"

	"github.com/go-ini/ini"
)

type mkey struct {
	name, val string
	sec       *msec
	shadows   []string
	nested    []string
	boolean   bool
	auto      bool
	comment   string
	gone      bool // no longer in its section
	real      *ini.Key
}

type msec struct {
	name    string
	keys    []*mkey
	raw     bool
	body    string
	comment string
	real    *ini.Section
}

type mfile struct {
	o    ini.LoadOptions
	secs []*msec
	f    *ini.File
}

func (m *mfile) normS(n string) string {
	if m.o.Insensitive || m.o.InsensitiveSections {
		return strings.ToLower(n)
	}
	return n
}
func (m *mfile) normK(n string) string {
	if m.o.Insensitive || m.o.InsensitiveKeys {
		return strings.ToLower(n)
	}
	return n
}
func (m *mfile) byName(n string) (l []*msec) {
	if n == "" {
		n = ini.DefaultSection
	}
	n = m.normS(n)
	for _, s := range m.secs {
		if s.name == n {
			l = append(l, s)
		}
	}
	return
}
func (m *mfile) newSection(n string) *msec {
	if n == "" {
		return nil
	}
	if !m.o.AllowNonUniqueSections {
		if l := m.byName(n); len(l) > 0 {
			return l[0]
		}
	}
	s := &msec{name: m.normS(n)}
	m.secs = append(m.secs, s)
	return s
}
func (m *mfile) section(n string) *msec {
	if l := m.byName(n); len(l) > 0 {
		return l[0]
	}
	if n == "" {
		n = ini.DefaultSection
	}
	return m.newSection(n)
}
func (m *mfile) delim() string {
	if m.o.ChildSectionDelimiter == "" {
		return "."
	}
	return m.o.ChildSectionDelimiter
}
func (s *msec) own(n string) *mkey {
	for _, k := range s.keys {
		if k.name == n {
			return k
		}
	}
	return nil
}

// ancestors lists the existing ancestor sections, nearest first.
func (m *mfile) ancestors(s *msec) (l []*msec) {
	n := s.name
	for {
		i := strings.LastIndex(n, m.delim())
		if i < 0 {
			return
		}
		n = n[:i]
		if p := m.byName(n); len(p) > 0 {
			l = append(l, p[0])
			if n == "" {
				return
			}
		}
	}
}
func (m *mfile) getKey(s *msec, n string) (k *mkey, inherited bool) {
	n = m.normK(n)
	if k := s.own(n); k != nil {
		return k, false
	}
	for _, a := range m.ancestors(s) {
		if k := a.own(n); k != nil {
			return k, true
		}
	}
	return nil, false
}

// newKey returns the key (nil: an error is expected).
func (m *mfile) newKey(s *msec, n, v string) *mkey {
	n = m.normK(n)
	if n == "" {
		return nil
	}
	if k := s.own(n); k != nil {
		if m.o.AllowShadows {
			if !m.addShadow(k, v) {
				return nil
			}
		} else {
			k.val = v
		}
		return k
	}
	k := &mkey{name: n, val: v, sec: s}
	s.keys = append(s.keys, k)
	return k
}
func (m *mfile) addShadow(k *mkey, v string) bool {
	if k.boolean || k.auto {
		return false
	}
	if !m.o.AllowDuplicateShadowValues {
		if k.val == v {
			return true
		}
		for _, w := range k.shadows {
			if w == v {
				return true
			}
		}
	}
	k.shadows = append(k.shadows, v)
	return true
}
func (k *mkey) all() []string {
	l := []string{}
	for _, v := range append([]string{k.val}, k.shadows...) {
		if v != "" {
			l = append(l, v)
		}
	}
	return l
}
func (m *mfile) children(name string) (l []*msec) {
	for _, s := range m.secs {
		if strings.HasPrefix(s.name, name+m.delim()) {
			l = append(l, s)
		}
	}
	return
}

func (c *C) sameSec(m *mfile, tags, what string, got *ini.Section, want *msec) {
	if want == nil {
		c.Check(got == nil, tags, "%s: got section %q, want none", what, nameOf(got))
		return
	}
	c.Check(got != nil, tags, "%s: got no section, want %q", what, want.name)
	if want.real == nil {
		// must be a section not seen before
		want.real = got
		for _, s := range m.secs {
			if s != want {
				c.Check(s.real != got, tags, "%s: got the section object of %q, want a separate section", what, s.name)
			}
		}
	}
	c.Check(got == want.real, tags, "%s: got another section object (%q) than the one registered as %q", what, nameOf(got), want.name)
	c.Check(got.Name() == want.name, tags, "%s: section is named %q, want %q", what, got.Name(), want.name)
}

func (c *C) sameKey(tags, what string, got *ini.Key, want *mkey) {
	if want == nil {
		c.Check(got == nil, tags, "%s: got a key, want none", what)
		return
	}
	c.Check(got != nil, tags, "%s: got no key, want %q", what, want.name)
	if want.real == nil {
		want.real = got
	}
	c.Check(got == want.real, tags, "%s: got another key object (%q) than %q of section %q", what, got.Name(), want.name, want.sec.name)
	c.Check(got.Name() == want.name, tags, "%s: key is named %q, want %q", what, got.Name(), want.name)
	c.Check(got.Value() == want.val, tags+" C06", "%s: key %q has value %q, want %q", what, got.Name(), got.Value(), want.val)
}

func nameOf(s *ini.Section) string {
	if s == nil {
		return "<nil>"
	}
	return s.Name()
}

// dumpSecs compares the whole section registry.
func (c *C) dumpSecs(m *mfile, tags string) {
	f := m.f
	var names []string
	for _, s := range m.secs {
		names = append(names, s.name)
	}
	got := f.SectionStrings()
	c.Check(eqStrs(got, names), tags, "SectionStrings() = %q, want %q", got, names)
	l := f.Sections()
	c.Check(len(l) == len(names), tags, "Sections() has %d entries, want %d", len(l), len(names))
	for i, s := range m.secs {
		c.sameSec(m, tags, "Sections()["+names[i]+"]", l[i], s)
	}
	// the lists are the caller's own
	for i := range got {
		got[i] = "scribble"
	}
	for i := range l {
		l[i] = nil
	}
	_ = append(l[:0:len(l)], nil)
	seen := map[string]bool{}
	for _, s := range m.secs {
		if seen[s.name] {
			continue
		}
		seen[s.name] = true
		want := m.byName(s.name)
		by, err := f.SectionsByName(s.name)
		c.Check(err == nil && len(by) == len(want), tags, "SectionsByName(%q): %d sections (%v), want %d", s.name, len(by), err, len(want))
		for i := range want {
			c.sameSec(m, tags, "SectionsByName", by[i], want[i])
			c.sameSec(m, tags, "SectionWithIndex", f.SectionWithIndex(s.name, i), want[i])
		}
		g, err := f.GetSection(s.name)
		c.Check(err == nil, tags, "GetSection(%q): %v", s.name, err)
		c.sameSec(m, tags, "GetSection", g, want[0])
		c.Check(f.HasSection(s.name), tags, "HasSection(%q) = false for a listed section", s.name)
	}
}

// dumpKeys compares the key registry of one section.
func (c *C) dumpKeys(m *mfile, s *msec, tags string) {
	if s.real == nil {
		return
	}
	var names []string
	hash := map[string]string{}
	for _, k := range s.keys {
		names = append(names, k.name)
		hash[k.name] = k.val
	}
	got := s.real.KeyStrings()
	c.Check(eqStrs(got, names), tags, "section %q: KeyStrings() = %q, want %q", s.name, got, names)
	h := s.real.KeysHash()
	c.Check(len(h) == len(hash), tags, "section %q: KeysHash() = %q, want %q", s.name, h, hash)
	for k, v := range hash {
		w, ok := h[k]
		c.Check(ok && w == v, tags, "section %q: KeysHash()[%q] = %q (present %v), want %q", s.name, k, w, ok, v)
	}
	ks := s.real.Keys()
	c.Check(len(ks) == len(s.keys), tags, "section %q: Keys() has %d entries, want %d", s.name, len(ks), len(s.keys))
	for i, k := range s.keys {
		c.sameKey(tags, "Keys()", ks[i], k)
		g, err := s.real.GetKey(k.name)
		c.Check(err == nil, tags, "section %q: GetKey(%q): %v", s.name, k.name, err)
		c.sameKey(tags, "GetKey", g, k)
		c.Check(s.real.HasKey(k.name), tags, "section %q: HasKey(%q) = false", s.name, k.name)
		c.Check(s.real.HasValue(k.val), tags, "section %q: HasValue(%q) = false", s.name, k.val)
		c.Check(eqStrs(k.real.ValueWithShadows(), k.all()), "C06", "section %q key %q: ValueWithShadows() = %q, want %q", s.name, k.name, k.real.ValueWithShadows(), k.all())
		c.Check(eqStrs(k.real.NestedValues(), k.nested), "C06 C03", "section %q key %q: NestedValues() = %q, want %q", s.name, k.name, k.real.NestedValues(), k.nested)
	}
	// the lists and the hash are the caller's own
	for i := range got {
		got[i] = "scribble"
	}
	for i := range ks {
		ks[i] = nil
	}
	for k := range h {
		h[k] = "scribble"
	}
	h["scribble"] = "x"
	c.Check(s.raw || s.real.Body() == "", "C01", "section %q: Body() of a section that is not raw is %q", s.name, s.real.Body())
	if s.raw {
		c.Check(s.real.Body() == strings.TrimSpace(s.body), "C01", "raw section %q: Body() = %q, want %q", s.name, s.real.Body(), strings.TrimSpace(s.body))
	}
}

var secNames = []string{"a", "A", "a.b", "A.B", "a.b.c", "a.c", "b", "B", "DEFAULT", "default", "Default", "", "É", "é", "a..b", ".x", "x.", "a.B.c", "ab", "ab.c", "\u212a", "k", "a b", " ", "a ", "\xff", "a.", "DEFAULT.a"}

// letters whose case mappings are not one to one
var foldNames = []string{"k", "K", "\u212a", "s", "S", "\u017f", "i", "I", "\u0131", "\u0130", "\u00df", "\u1e9e", "\u03c3", "\u03c2", "\u03a3", "a.s", "A.\u017f", "DEFAULT", "default"}
var keyNames = []string{"k", "K", "k2", "x", "X", "é", "É", "a b", "", "\u212a", " ", "k ", "\xff", "-"}
var someVals = []string{"", "1", "2", "v", "V", "1,2", " s ", "%(k)s"}

func registry(prop string) func(c *C) {
	return func(c *C) {
		o := ini.LoadOptions{
			AllowShadows: c.chance(3), AllowDuplicateShadowValues: c.chance(2), AllowNestedValues: c.chance(2),
			AllowNonUniqueSections: c.chance(2),
		}
		if prop == "C06" {
			o.AllowShadows = !c.chance(4)
		}
		if prop == "C05" || c.chance(3) {
			switch c.Intn(4) {
			case 0:
				o.Insensitive = true
			case 1:
				o.InsensitiveSections = true
			case 2:
				o.InsensitiveKeys = true
			case 3:
				o.InsensitiveKeys, o.InsensitiveSections = true, true
			}
		}
		if c.chance(4) {
			o.ChildSectionDelimiter = c.pick("..", "..", "/", "b", ".", ".b", "É")
		}
		if c.chance(6) {
			ini.DefaultSection = c.pick("default", "Main", "x", "É")
			if o.ChildSectionDelimiter == "É" {
				o.ChildSectionDelimiter = ""
			}
		}
		c.Logf("options %+v DefaultSection %q", o, ini.DefaultSection)
		insS, insK := o.Insensitive || o.InsensitiveSections, o.Insensitive || o.InsensitiveKeys
		if insS && strings.Contains(strings.ToLower(ini.DefaultSection), o.ChildSectionDelimiter) {
			o.ChildSectionDelimiter = ""
		}
		st, kt := "C01", "C03"
		if insS {
			st += " C05"
		}
		if insK {
			kt += " C05"
		}
		m := &mfile{o: o, f: ini.Empty(o)}
		if c.chance(3) {
			m.f.BlockMode = false
		}
		m.newSection(ini.DefaultSection)
		c.dumpSecs(m, st)
		n := 3 + c.Intn(25)
		secNames, keyNames, someVals := secNames, keyNames, someVals
		switch {
		case c.chance(8) || prop == "C05" && c.chance(2):
			secNames, keyNames = foldNames, foldNames
		case c.chance(8) || prop == "C04" && c.chance(3):
			// deeply nested names
			secNames = []string{ini.DefaultSection, "z"}
			d, nm := m.delim(), "a"
			for i := 0; i < 3+c.Intn(9); i++ {
				secNames = append(secNames, nm)
				nm += d + c.pick("a", "b", "c")
				if c.chance(8) {
					nm += d
				}
			}
			secNames = append(secNames, nm, nm)
		}
		if c.chance(12) {
			// far more entries than usual
			someVals = append([]string{}, someVals...)
			for i := 0; i < 20; i++ {
				someVals = append(someVals, fmt.Sprint("val", i))
			}
			num := 10 + c.Intn(120)
			pre := c.pick("n", "a.", "DEFAULT.")
			switch c.Intn(3) {
			case 0:
				mod := 1 + c.Intn(num)
				c.Logf("%d x NewSection(%q + i%%%d)", num, pre, mod)
				for i := 0; i < num; i++ {
					nm := fmt.Sprint(pre, i%mod)
					s, err := m.f.NewSection(nm)
					c.Check(err == nil, st, "NewSection(%q): %v", nm, err)
					c.sameSec(m, st, "NewSection", s, m.newSection(nm))
				}
				secNames = append([]string{"n0", "a.0", "DEFAULT.0", fmt.Sprint(pre, mod-1), fmt.Sprint(pre, mod/2)}, secNames...)
			case 1:
				s := m.secs[0]
				c.Logf("[%s] %d x NewKey(%q + i)", s.name, num, pre)
				for i := 0; i < num; i++ {
					nm := fmt.Sprint(pre, i)
					k, err := s.real.NewKey(nm, nm)
					c.Check(err == nil, kt, "NewKey(%q): %v", nm, err)
					c.sameKey(kt, "NewKey", k, m.newKey(s, nm, nm))
				}
				keyNames = append([]string{fmt.Sprint(pre, 0), fmt.Sprint(pre, num-1), fmt.Sprint(pre, num-2), fmt.Sprint(pre, num/2)}, keyNames...)
			case 2:
				s := m.secs[0]
				if num > 40 {
					num = 40
				}
				c.Logf("[%s] %d x NewKey(\"k\", val i)", s.name, num)
				for i := 0; i < num; i++ {
					v := fmt.Sprint("val", i%25)
					k, err := s.real.NewKey("k", v)
					c.Check(err == nil, kt, "NewKey(\"k\"): %v", err)
					c.sameKey(kt, "NewKey", k, m.newKey(s, "k", v))
				}
				keyNames = []string{"k", "k", "x", ""}
			}
			c.dumpSecs(m, st)
			c.dumpKeys(m, m.secs[0], kt)
			if n > 12 {
				n = 12
			}
		}
		type handle struct{ s *msec }
		var known []*msec // every section seen, deleted ones included
		var keys []*mkey
		pickSec := func() *msec {
			if len(m.secs) > 0 && !c.chance(5) {
				return m.secs[c.Intn(len(m.secs))]
			}
			if len(known) > 0 {
				return known[c.Intn(len(known))]
			}
			return nil
		}
		for step := 0; step < n; step++ {
			f := m.f
			sn := secNames[c.Intn(len(secNames))]
			kn := keyNames[c.Intn(len(keyNames))]
			v := someVals[c.Intn(len(someVals))]
			op := c.Intn(30)
			switch prop {
			case "C02":
				if c.chance(4) {
					op = 8 + c.Intn(2)
				} else if c.chance(3) {
					op = 0
				}
				if o.AllowNonUniqueSections && c.chance(2) {
					sn = c.pick("a", "b", "a.b", "DEFAULT", "A", "")
				}
			case "C03", "C06":
				if !c.chance(3) {
					op = 12 + c.Intn(18)
				}
			case "C04":
				if c.chance(3) {
					op = 0
				}
			}
			dt := ""
			switch {
			case op == 8 || op == 9:
				c.ptags = st + " C02"
			case op < 8:
				c.ptags = st
			case op < 12:
				c.ptags = "C04"
			default:
				c.ptags = kt + " C04 C06"
			}
			switch op {
			case 0, 1, 2:
				c.Logf("NewSection(%q)", sn)
				s, err := f.NewSection(sn)
				w := m.newSection(sn)
				c.Check((err != nil) == (w == nil), st, "NewSection(%q): error %v", sn, err)
				c.sameSec(m, st, "NewSection", s, w)
			case 3:
				c.Logf("NewRawSection(%q, %q)", sn, v)
				s, err := f.NewRawSection(sn, v)
				w := m.newSection(sn)
				c.Check((err != nil) == (w == nil), st, "NewRawSection(%q): error %v", sn, err)
				c.sameSec(m, st, "NewRawSection", s, w)
				if w != nil {
					w.raw, w.body = true, v
				}
			case 4:
				l := []string{sn, secNames[c.Intn(len(secNames))], secNames[c.Intn(len(secNames))]}
				c.Logf("NewSections(%q)", l)
				err := f.NewSections(l...)
				ok := true
				for _, x := range l {
					if m.newSection(x) == nil {
						ok = false
						break
					}
				}
				c.Check((err == nil) == ok, st, "NewSections(%q): error %v", l, err)
			case 5:
				c.Logf("GetSection/HasSection/SectionsByName(%q)", sn)
				want := m.byName(sn)
				s, err := f.GetSection(sn)
				c.Check((err == nil) == (len(want) > 0), st, "GetSection(%q): error %v, %d such sections", sn, err, len(want))
				if len(want) > 0 {
					c.sameSec(m, st, "GetSection", s, want[0])
				} else {
					c.sameSec(m, st, "GetSection", s, nil)
				}
				c.Check(f.HasSection(sn) == (len(want) > 0), st, "HasSection(%q) = %v", sn, f.HasSection(sn))
				l, err := f.SectionsByName(sn)
				c.Check(len(l) == len(want) && (err == nil) == (len(want) > 0), st, "SectionsByName(%q): %d, want %d", sn, len(l), len(want))
				for i := range want {
					c.sameSec(m, st, "SectionsByName", l[i], want[i])
				}
			case 6:
				c.Logf("Section(%q)", sn)
				c.sameSec(m, st, "Section", f.Section(sn), m.section(sn))
			case 7:
				i := c.Intn(5) - 1
				c.Logf("SectionWithIndex(%q, %d)", sn, i)
				l := m.byName(sn)
				var w *msec
				if i >= 0 && i < len(l) {
					w = l[i]
				} else {
					x := sn
					if x == "" {
						x = ini.DefaultSection
					}
					w = m.newSection(x)
				}
				c.sameSec(m, st, "SectionWithIndex", f.SectionWithIndex(sn, i), w)
			case 8:
				if c.chance(2) && prop != "C02" {
					continue
				}
				c.Logf("DeleteSection(%q)", sn)
				f.DeleteSection(sn)
				del := m.byName(sn)
				m.remove(del...)
				dt = "C02"
			case 9:
				i := c.Intn(5) - 1
				c.Logf("DeleteSectionWithIndex(%q, %d)", sn, i)
				err := f.DeleteSectionWithIndex(sn, i)
				dt = "C02"
				bad := i < 0 || (i != 0 && !o.AllowNonUniqueSections)
				c.Check((err != nil) == bad, "C02", "DeleteSectionWithIndex(%q, %d): error %v", sn, i, err)
				if l := m.byName(sn); !bad && i < len(l) {
					m.remove(l[i])
				}
			case 10:
				c.Logf("File.ChildSections(%q)", sn)
				s := m.section(sn)
				got, want := f.ChildSections(sn), m.children(s.name)
				c.Check(len(got) == len(want), "C04", "ChildSections(%q): %d sections, want %d", sn, len(got), len(want))
				for i := range want {
					c.sameSec(m, "C04", "ChildSections", got[i], want[i])
				}
			default:
				s := pickSec()
				if s == nil {
					continue
				}
				if s.real == nil {
					c.dumpSecs(m, st)
				}
				if s.real == nil {
					continue
				}
				r := s.real
				switch op {
				case 11:
					c.Logf("[%s].ChildSections/ParentKeys", s.name)
					got, want := r.ChildSections(), m.children(s.name)
					c.Check(len(got) == len(want), "C04", "section %q: ChildSections(): %d sections, want %d", s.name, len(got), len(want))
					for i := range want {
						c.sameSec(m, "C04", "ChildSections", got[i], want[i])
					}
					var pk []*mkey
					for _, a := range m.ancestors(s) {
						pk = append(pk, a.keys...)
					}
					g := r.ParentKeys()
					c.Check(len(g) == len(pk), "C04", "section %q: ParentKeys(): %d keys, want %d", s.name, len(g), len(pk))
					for i := range pk {
						c.sameKey("C04", "ParentKeys", g[i], pk[i])
					}
				case 12, 13, 14, 15:
					c.Logf("[%s].NewKey(%q, %q)", s.name, kn, v)
					k, err := r.NewKey(kn, v)
					w := m.newKey(s, kn, v)
					c.Check((err != nil) == (w == nil), kt+" C06", "section %q: NewKey(%q, %q): error %v", s.name, kn, v, err)
					c.sameKey(kt, "NewKey", k, w)
				case 16:
					c.Logf("[%s].NewBooleanKey(%q)", s.name, kn)
					k, err := r.NewBooleanKey(kn)
					w := m.newKey(s, kn, "true")
					c.Check((err != nil) == (w == nil), kt+" C06", "section %q: NewBooleanKey(%q): error %v", s.name, kn, err)
					c.sameKey(kt, "NewBooleanKey", k, w)
					if w != nil {
						w.boolean = true
					}
				case 17, 18, 19:
					c.Logf("[%s].GetKey/HasKey(%q)", s.name, kn)
					w, inh := m.getKey(s, kn)
					k, err := r.GetKey(kn)
					t := kt
					if inh || s.own(m.normK(kn)) == nil {
						t += " C04"
					}
					c.Check((err != nil) == (w == nil), t, "section %q: GetKey(%q): error %v", s.name, kn, err)
					c.sameKey(t, "GetKey", k, w)
					c.Check(r.HasKey(kn) == (w != nil), t, "section %q: HasKey(%q) = %v", s.name, kn, r.HasKey(kn))
				case 20, 21:
					if kn == "" {
						continue
					}
					c.Logf("[%s].Key(%q)", s.name, kn)
					w, inh := m.getKey(s, kn)
					t := kt
					if inh || s.own(m.normK(kn)) == nil {
						t += " C04"
					}
					if w == nil {
						w = m.newKey(s, kn, "")
					}
					c.sameKey(t, "Key", r.Key(kn), w)
				case 22, 23:
					c.Logf("[%s].DeleteKey(%q)", s.name, kn)
					r.DeleteKey(kn)
					for i, k := range s.keys {
						if k.name == m.normK(kn) {
							s.keys = append(append([]*mkey{}, s.keys[:i]...), s.keys[i+1:]...)
							k.gone = true
							break
						}
					}
				case 24:
					c.Logf("[%s].HasValue(%q)", s.name, v)
					w := false
					for _, k := range s.keys {
						w = w || k.val == v
					}
					c.Check(r.HasValue(v) == w, kt, "section %q: HasValue(%q) = %v, want %v", s.name, v, !w, w)
				case 25:
					c.Logf("[%s].SetBody(%q)", s.name, v)
					r.SetBody(v)
					if s.raw {
						s.body = v
					}
				default:
					c.dumpKeys(m, s, kt)
					for _, k := range s.keys {
						keys = append(keys, k)
					}
					if len(keys) == 0 {
						continue
					}
					k := keys[c.Intn(len(keys))]
					if k.real == nil {
						continue
					}
					switch op {
					case 26, 27:
						c.Logf("[%s] key %q: SetValue(%q)", k.sec.name, k.name, v)
						k.real.SetValue(v)
						k.val = v
					case 28:
						c.Logf("[%s] key %q: AddShadow(%q)", k.sec.name, k.name, v)
						err := k.real.AddShadow(v)
						ok := o.AllowShadows && m.addShadow(k, v)
						c.Check((err == nil) == ok, "C06", "key %q: AddShadow(%q): error %v", k.name, v, err)
					case 29:
						c.Logf("[%s] key %q: AddNestedValue(%q)", k.sec.name, k.name, v)
						err := k.real.AddNestedValue(v)
						ok := o.AllowNestedValues && !k.boolean
						c.Check((err == nil) == ok, "C03 C06", "key %q: AddNestedValue(%q): error %v", k.name, v, err)
						if ok {
							k.nested = append(k.nested, v)
						}
					}
					c.Check(eqStrs(k.real.ValueWithShadows(), k.all()), "C06", "key %q: ValueWithShadows() = %q, want %q", k.name, k.real.ValueWithShadows(), k.all())
					d := c.pick("\x00", ",", "1", "v", " ")
					c.Check(eqStrs(k.real.StringsWithShadows(d), splitAll(m, k, d)), "C06", "key %q: StringsWithShadows(%q) = %q, want %q", k.name, d, k.real.StringsWithShadows(d), splitAll(m, k, d))
				}
				c.dumpKeys(m, s, kt)
			}
			tags := st
			if dt != "" {
				tags = st + " " + dt
			}
			c.dumpSecs(m, tags)
			for _, s := range m.secs {
				seen := false
				for _, k := range known {
					seen = seen || k == s
				}
				if !seen {
					known = append(known, s)
				}
			}
			// no operation on one section changes another
			if c.chance(2) || step == n-1 || dt != "" {
				for _, s := range m.secs {
					c.dumpKeys(m, s, strings.TrimSpace(kt+" "+dt))
				}
			}
		}
		c.nontriv = len(m.secs) > 1
	}
}

// splitAll: what StringsWithShadows gives.
func splitAll(m *mfile, k *mkey, d string) []string {
	l := []string{}
	for _, v := range k.all() {
		for _, p := range strings.Split(v, d) {
			l = append(l, m.resolve(k, strings.TrimSpace(p)))
		}
	}
	return l
}

func (m *mfile) resolve(k *mkey, v string) string {
	for i := 0; i < 99; i++ {
		a := strings.Index(v, "%(")
		for a >= 0 {
			b := strings.IndexByte(v[a+2:], ')')
			if b >= 1 && strings.HasPrefix(v[a+2+b:], ")s") {
				break
			}
			// the name may not contain ')': go on after this "%("
			n := strings.Index(v[a+1:], "%(")
			if n < 0 {
				a = -1
			} else {
				a += 1 + n
			}
		}
		if a < 0 {
			return v
		}
		b := a + 2 + strings.IndexByte(v[a+2:], ')')
		ref := v[a : b+2]
		t, _ := m.getKey(k.sec, v[a+2:b])
		if t == nil || t == k {
			t = nil
			if d := m.byName(""); len(d) > 0 {
				t, _ = m.getKey(d[0], v[a+2:b])
			}
			if t == nil {
				return v
			}
		}
		v = strings.ReplaceAll(v, ref, t.val)
		if len(v) > 1<<16 {
			return v
		}
	}
	return v
}

func (m *mfile) remove(l ...*msec) {
	var out []*msec
	for _, s := range m.secs {
		drop := false
		for _, d := range l {
			drop = drop || d == s
		}
		if !drop {
			out = append(out, s)
		}
	}
	m.secs = out
}

func TestC01(t *testing.T) { search(t, "C01", registry("C01")) }
func TestC02(t *testing.T) { search(t, "C02", registry("C02")) }
func TestC03(t *testing.T) { search(t, "C03", registry("C03")) }
func TestC04(t *testing.T) { search(t, "C04", registry("C04")) }
func TestC05(t *testing.T) { search(t, "C05", registry("C05")) }
func TestC06(t *testing.T) { search(t, "C06", registry("C06")) }

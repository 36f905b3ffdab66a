package ini_test

// Reading values: substitution, typed access, lists, splitting (C07-C10).

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/go-ini/ini"
)

// valueFile builds a small file through the API, and its model.
func (c *C) valueFile(vals func() string) (*mfile, []*mkey) {
	o := ini.LoadOptions{Insensitive: c.chance(5), InsensitiveSections: c.chance(6), InsensitiveKeys: c.chance(6), AllowShadows: c.chance(3), AllowDuplicateShadowValues: c.chance(2)}
	if c.chance(4) {
		o.ChildSectionDelimiter = c.pick("/", "::", "-")
	}
	m := &mfile{o: o, f: ini.Empty(o)}
	m.newSection(ini.DefaultSection)
	m.secs[0].real = m.f.Section("")
	if m.secs[0].real != nil {
		m.secs[0].name = m.normS(ini.DefaultSection)
	}
	c.Logf("options %+v", o)
	var keys []*mkey
	d := m.delim()
	names := []string{"", "a", "a" + d + "b", "A", "a" + d + "b" + d + "c", "z"}
	for _, n := range names {
		if n != "" && c.chance(3) {
			continue
		}
		s := m.section(n)
		s.real = m.f.Section(n)
		for _, k := range []string{"k1", "k2", "K1", "k3", "n"} {
			if c.chance(2) {
				continue
			}
			v := vals()
			c.Logf("[%s] %s = %q", n, k, v)
			r, err := s.real.NewKey(k, v)
			w := m.newKey(s, k, v)
			if err != nil || w == nil {
				c.Failf("C03", "NewKey(%q): %v", k, err)
			}
			if w.real == nil {
				keys = append(keys, w)
			}
			w.real = r
			if o.AllowShadows && c.chance(3) {
				v := vals()
				c.Logf("  shadow %q", v)
				r.AddShadow(v)
				m.addShadow(w, v)
			}
		}
	}
	if c.chance(6) {
		c.Logf("the default section is deleted")
		m.f.DeleteSection("")
		m.remove(m.byName("")...)
		var l []*mkey
		for _, k := range keys {
			if k.sec.name != m.normS(ini.DefaultSection) {
				l = append(l, k)
			}
		}
		keys = l
	}
	if c.chance(4) {
		c.Logf("value mapper: brackets")
		m.f.ValueMapper = func(s string) string { return "<" + s + ">" }
	} else if c.chance(6) {
		c.Logf("value mapper: $x -> %%(k2)s")
		m.f.ValueMapper = func(s string) string { return strings.ReplaceAll(s, "$x", "%(k2)s") }
	}
	return m, keys
}

func (m *mfile) str(k *mkey) string {
	v := k.val
	if m.f.ValueMapper != nil {
		v = m.f.ValueMapper(v)
	}
	return m.resolve(k, v)
}

func (c *C) refVal() string {
	if c.chance(6) {
		return c.pick("", "", " ", "x")
	}
	n := c.Intn(4)
	s := ""
	for i := 0; i <= n; i++ {
		s += c.pick("%(k1)s", "%(k2)s", "%(k3)s", "%(nope)s", "%()s", "%(k1", "%(k2)", ")s", "%", "(", "x", "é", " ", "%%(k1)s", "%(K1)s", "%(n)s", "$x", "%(%(k1)s)s", "%(a)b)s", "y,z", "\\", "%(k2)s")
	}
	return s
}

// dump of everything the API reports without reading values
func (m *mfile) snapshot() string {
	var b strings.Builder
	for _, s := range m.f.Sections() {
		fmt.Fprintf(&b, "[%s] %q %q\n", s.Name(), s.Comment, s.Body())
		for _, k := range s.Keys() {
			fmt.Fprintf(&b, "%q=%q %q %q %q\n", k.Name(), k.Value(), k.ValueWithShadows(), k.NestedValues(), k.Comment)
		}
		fmt.Fprintf(&b, "%q\n", s.KeysHash())
	}
	return b.String()
}

func TestC07(t *testing.T) {
	search(t, "C07", func(c *C) {
		m, keys := c.valueFile(c.refVal)
		before := m.snapshot()
		for _, k := range keys {
			w := m.str(k)
			if len(w) > 1<<14 {
				continue
			}
			if w != k.val {
				c.nontriv = true
			}
			c.Logf("[%s] %s: String()", k.sec.name, k.name)
			c.Check(k.real.Value() == k.val, "C07 C03", "key %q: Value() = %q, want %q", k.name, k.real.Value(), k.val)
			g := k.real.String()
			c.Check(g == w, "C07", "[%s] key %q = %q: String() = %q, want %q", k.sec.name, k.name, k.val, g, w)
			c.Check(k.real.Validate(func(s string) string { return "v" + s }) == "v"+w, "C07", "key %q: Validate", k.name)
			if !m.o.AllowShadows && m.f.ValueMapper == nil {
				l := k.real.StringsWithShadows("\x00")
				if k.val != "" {
					x := m.resolve(k, strings.TrimSpace(k.val))
					c.Check(len(l) == 1 && l[0] == x, "C07", "key %q = %q: StringsWithShadows = %q, want %q", k.name, k.val, l, x)
				}
			}
		}
		c.Check(m.snapshot() == before, "C07", "reading values changed the file:\n%s\nbefore:\n%s", m.snapshot(), before)
	})
}

func (c *C) typedVal() string {
	switch c.Intn(8) {
	case 0:
		return c.pick("1", "t", "T", "true", "TRUE", "True", "YES", "yes", "Yes", "y", "ON", "on", "On", "0", "f", "F", "false", "FALSE", "False", "NO", "no", "No", "n", "OFF", "off", "Off", "Y", "N", "tRUE", "oN", "oFF", "yES", "2")
	case 1:
		return c.pick("", " ", " 5", "5 ", "x", "+7", "-7", "0x1F", "0b101", "0o17", "017", "1_000", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "4294967296", "-0", "1e3", "3000000000")
	case 2:
		return strconv.Itoa(c.Intn(40) - 20)
	case 3:
		return c.pick("1.5", "-2.25", "NaN", "Inf", "-inf", "1e400", "1e-400", ".5", "5.", "0x1p-2", "3.141592653589793", "16777217", "0.1", "1_0.5")
	case 4:
		return c.pick("1s", "2m3s", "-5ms", "1h", "5", "10", "0", "1.5h", "1d", "300ms", "9223372036854775807ns", "9223372036854775808ns", "1us", "1µs")
	case 5:
		return c.pick("2015-01-01T20:17:05Z", "2015-01-01T20:17:05+02:00", "2015-01-01T20:17:06Z", "2015-01-01T20:17:05.75Z", "2015-01-01T23:47:06+05:30", "2014-12-31T00:00:00Z", "2015-13-01T20:17:05Z", "01/02/2006", "2016-02-29", "2015-02-29", "12:30", "2015-01-01 20:17:05Z")
	case 6:
		return c.refVal()
	}
	return c.pick("a", "b", "a,b", "hello", "%(k2)s", "%(n)s", "%(k3)s")
}

// must checks a Must accessor against the parse result (v, err).
func must[T any](c *C, m *mfile, k *mkey, name string, v T, err error, d T, format string, f func(...T) T) {
	eq := func(a, b T) bool { return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b) }
	before := m.snapshot()
	g := f()
	c.Check(eq(g, v), "C08", "[%s] %s = %q: %s() = %v, want %v", k.sec.name, k.name, k.val, name, g, v)
	c.Check(m.snapshot() == before, "C08", "[%s] %s = %q: %s() without default changed the file", k.sec.name, k.name, k.val, name)
	g = f(d)
	if err == nil {
		c.Check(eq(g, v), "C08", "[%s] %s = %q: %s(%v) = %v, want %v", k.sec.name, k.name, k.val, name, d, g, v)
		c.Check(m.snapshot() == before, "C08", "[%s] %s = %q: %s(%v) changed the file although the value parses", k.sec.name, k.name, k.val, name, d)
		return
	}
	c.Check(eq(g, d), "C08", "[%s] %s = %q: %s(%v) = %v, want the default", k.sec.name, k.name, k.val, name, d, g)
	c.Check(k.real.Value() == format, "C08", "[%s] %s = %q: %s(%v) stored %q, want %q", k.sec.name, k.name, k.val, name, d, k.real.Value(), format)
	c.Check(k.sec.real.KeysHash()[k.name] == format, "C08 C03", "[%s] %s = %q: %s(%v): KeysHash has %q, want %q", k.sec.name, k.name, k.val, name, d, k.sec.real.KeysHash()[k.name], format)
	k.real.SetValue(k.val)
	c.Check(m.snapshot() == before, "C08", "[%s] %s = %q: %s(%v) changed more than the value:\n%s\nbefore:\n%s", k.sec.name, k.name, k.val, name, d, m.snapshot(), before)
}

func pair[T any](c *C, k *mkey, name string, v T, err error, f func() (T, error)) {
	g, e := f()
	c.Check((e == nil) == (err == nil), "C08", "[%s] %s = %q: %s() error %v, want %v", k.sec.name, k.name, k.val, name, e, err)
	c.Check(fmt.Sprintf("%#v", g) == fmt.Sprintf("%#v", v), "C08", "[%s] %s = %q: %s() = %v, want %v", k.sec.name, k.name, k.val, name, g, v)
}

func in[T any](c *C, k *mkey, name string, v T, err error, eq func(a, b T) bool, d T, l []T, f func(T, []T) T) {
	want := d
	if err == nil {
		for _, x := range l {
			if eq(x, v) {
				want = v
			}
		}
	}
	g := f(d, l)
	c.Check(fmt.Sprintf("%#v", g) == fmt.Sprintf("%#v", want), "C08", "[%s] %s = %q: %s(%v, %v) = %v, want %v", k.sec.name, k.name, k.val, name, d, l, g, want)
}

func wantBool(s string) (bool, error) {
	for _, w := range strings.Fields("1 t T true TRUE True YES yes Yes y ON on On") {
		if w == s {
			return true, nil
		}
	}
	for _, w := range strings.Fields("0 f F false FALSE False NO no No n OFF off Off") {
		if w == s {
			return false, nil
		}
	}
	return false, fmt.Errorf("not a boolean")
}

func TestC08(t *testing.T) {
	search(t, "C08", func(c *C) {
		m, keys := c.valueFile(c.typedVal)
		if len(keys) == 0 {
			return
		}
		k := keys[c.Intn(len(keys))]
		s := m.str(k)
		if len(s) > 1<<12 {
			return
		}
		c.nontriv = true
		r := k.real
		c.Logf("[%s] %s", k.sec.name, k.name)
		iv, ie := strconv.ParseInt(s, 0, 64)
		uv, ue := strconv.ParseUint(s, 0, 64)
		fv, fe := strconv.ParseFloat(s, 64)
		bv, be := wantBool(s)
		dv, de := time.ParseDuration(s)
		tf := c.pick("2006-01-02", time.RFC3339, "15:04", "01/02/2006")
		tv, te := time.Parse(tf, s)
		t3, t3e := time.Parse(time.RFC3339, s)

		pair(c, k, "Bool", bv, be, r.Bool)
		pair(c, k, "Int", int(iv), ie, r.Int)
		pair(c, k, "Int64", iv, ie, r.Int64)
		pair(c, k, "Uint", uint(uv), ue, r.Uint)
		pair(c, k, "Uint64", uv, ue, r.Uint64)
		pair(c, k, "Float64", fv, fe, r.Float64)
		pair(c, k, "Duration", dv, de, r.Duration)
		pair(c, k, "TimeFormat", tv, te, func() (time.Time, error) { return r.TimeFormat(tf) })
		pair(c, k, "Time", t3, t3e, r.Time)

		i := int64(c.Intn(100)) - 50
		if c.chance(4) {
			i = math.MinInt64 + int64(c.Intn(3))
		}
		u := uint64(c.Intn(100))
		if c.chance(4) {
			u = math.MaxUint64 - uint64(c.Intn(3))
		}
		fl := []float64{0, 1.5, -2.25, 1e21, 1e-7, 123456789.125, math.Inf(1), math.MaxFloat64, 0.1}[c.Intn(9)]
		b := c.chance(2)
		du := time.Duration(i) * 1000003
		ti := time.Date(2015, 1, 1+c.Intn(3), 20, 17, 5+c.Intn(2), 0, time.UTC)
		if c.chance(3) {
			ti = ti.In(time.FixedZone("", 3600*(c.Intn(20)-10))).Add(time.Duration(c.Intn(3)) * 250 * time.Millisecond)
		}
		must(c, m, k, "MustBool", bv, be, b, fmt.Sprint(b), r.MustBool)
		must(c, m, k, "MustInt", int(iv), ie, int(i), fmt.Sprint(i), r.MustInt)
		must(c, m, k, "MustInt64", iv, ie, i, fmt.Sprint(i), r.MustInt64)
		must(c, m, k, "MustUint", uint(uv), ue, uint(u), fmt.Sprint(u), r.MustUint)
		must(c, m, k, "MustUint64", uv, ue, u, fmt.Sprint(u), r.MustUint64)
		must(c, m, k, "MustFloat64", fv, fe, fl, strconv.FormatFloat(fl, 'f', -1, 64), r.MustFloat64)
		must(c, m, k, "MustDuration", dv, de, du, du.String(), r.MustDuration)
		must(c, m, k, "MustTimeFormat", tv, te, ti, ti.Format(tf), func(d ...time.Time) time.Time { return r.MustTimeFormat(tf, d...) })
		must(c, m, k, "MustTime", t3, t3e, ti, ti.Format(time.RFC3339), r.MustTime)
		// MustString
		before := m.snapshot()
		g := r.MustString("dflt")
		if s != "" {
			c.Check(g == s && m.snapshot() == before, "C08", "[%s] %s = %q: MustString = %q, value %q", k.sec.name, k.name, k.val, g, r.Value())
		} else {
			c.Check(g == "dflt" && r.Value() == "dflt", "C08", "[%s] %s = %q: MustString = %q, value %q", k.sec.name, k.name, k.val, g, r.Value())
			r.SetValue(k.val)
		}
		before = m.snapshot()
		ci := func() int64 { return []int64{iv, iv + 1, 0, -1, 5, i}[c.Intn(6)] }
		cu := func() uint64 { return []uint64{uv, uv + 1, 0, 5, u}[c.Intn(5)] }
		cf := func() float64 { return []float64{fv, fv + 1, 0, 1.5, fl}[c.Intn(5)] }
		ct := func() time.Time {
			x := []time.Time{tv, tv.Add(time.Second), tv.Add(-time.Second), t3, t3.Add(time.Second), ti, {}}[c.Intn(7)]
			switch c.Intn(6) {
			case 0:
				x = x.In(time.FixedZone("", 1800*(c.Intn(40)-20)))
			case 1:
				x = x.Add(time.Duration(c.Intn(3)-1) * time.Millisecond)
			}
			return x
		}
		n := c.Intn(4)
		var li []int
		var li64 []int64
		var lu []uint
		var lu64 []uint64
		var lf []float64
		var lt, lt3 []time.Time
		var ls []string
		for j := 0; j < n; j++ {
			li = append(li, int(ci()))
			li64 = append(li64, ci())
			lu = append(lu, uint(cu()))
			lu64 = append(lu64, cu())
			lf = append(lf, cf())
			lt = append(lt, ct())
			lt3 = append(lt3, ct())
			ls = append(ls, c.pick(s, s+"x", "", "a", strings.ToUpper(s), k.val))
		}
		in(c, k, "In", s, nil, func(a, b string) bool { return a == b }, c.pick("d", ""), ls, r.In)
		in(c, k, "InInt", int(iv), ie, func(a, b int) bool { return a == b }, int(ci()), li, r.InInt)
		in(c, k, "InInt64", iv, ie, func(a, b int64) bool { return a == b }, ci(), li64, r.InInt64)
		in(c, k, "InUint", uint(uv), ue, func(a, b uint) bool { return a == b }, uint(cu()), lu, r.InUint)
		in(c, k, "InUint64", uv, ue, func(a, b uint64) bool { return a == b }, cu(), lu64, r.InUint64)
		in(c, k, "InFloat64", fv, fe, func(a, b float64) bool { return a == b }, cf(), lf, r.InFloat64)
		in(c, k, "InTimeFormat", tv, te, func(a, b time.Time) bool { return a.Equal(b) }, ct(), lt, func(d time.Time, l []time.Time) time.Time { return r.InTimeFormat(tf, d, l) })
		in(c, k, "InTime", t3, t3e, func(a, b time.Time) bool { return a.Equal(b) }, ct(), lt3, r.InTime)

		rng := func() (int64, int64) { return ci() - int64(c.Intn(2)), ci() + int64(c.Intn(2)) }
		{
			lo, hi := rng()
			w := int64(77)
			if lo <= iv && iv <= hi {
				w = iv
			}
			c.Check(r.RangeInt64(77, lo, hi) == w, "C08", "%q: RangeInt64(77, %d, %d) = %d", s, lo, hi, r.RangeInt64(77, lo, hi))
			c.Check(r.RangeInt(77, int(lo), int(hi)) == int(w), "C08", "%q: RangeInt(77, %d, %d) = %d", s, lo, hi, r.RangeInt(77, int(lo), int(hi)))
		}
		if !math.IsNaN(fv) {
			lo, hi := cf(), cf()
			w := 77.5
			if lo <= fv && fv <= hi {
				w = fv
			}
			c.Check(r.RangeFloat64(77.5, lo, hi) == w, "C08", "%q: RangeFloat64(77.5, %v, %v) = %v", s, lo, hi, r.RangeFloat64(77.5, lo, hi))
		}
		{
			lo, hi := ct(), ct()
			d := time.Unix(12345, 0).UTC()
			w, w3 := d, d
			if !tv.Before(lo) && !tv.After(hi) {
				w = tv
			}
			if !t3.Before(lo) && !t3.After(hi) {
				w3 = t3
			}
			g := r.RangeTimeFormat(tf, d, lo, hi)
			c.Check(g.Equal(w), "C08", "%q: RangeTimeFormat(%q, d, %v, %v) = %v, want %v", s, tf, lo, hi, g, w)
			g = r.RangeTime(d, lo, hi)
			c.Check(g.Equal(w3), "C08", "%q: RangeTime(d, %v, %v) = %v, want %v", s, lo, hi, g, w3)
		}
		c.Check(m.snapshot() == before, "C08", "In/Range accessors changed the file")
	})
}

func (c *C) listVal() string {
	s := ""
	d := c.pick(",", ",", ",", "|", "::", " ", "é")
	if c.chance(3) {
		// elements of one kind, few of them odd
		el := [][]string{{"1", "t", "no", "Off", "true"}, {"1", "-2", "0x1F", "9223372036854775807", "17"}, {"1.5", "-2.25", "NaN", "3.141592653589793"},
			{"2015-01-01T20:17:05Z", "2015-01-01T20:17:06+02:00"}, {"2016-02-29", "2015-01-01"}, {"12:30", "09:15"}, {"18446744073709551615", "7"}}[c.Intn(7)]
		l := make([]string, 1+c.Intn(6))
		for i := range l {
			l[i] = el[c.Intn(len(el))]
			if c.chance(6) {
				l[i] = c.pick("", " ", "\\", l[i]+" ", c.typedVal())
			}
		}
		return strings.Join(l, d)
	}
	for i := c.Intn(6); i > 0; i-- {
		if c.chance(3) {
			s += c.pick(" ", "", "\t", "\\", "\\,", "x")
		}
		s += c.typedVal()
		if c.chance(8) {
			d = c.pick(",", "|", ",,", "\\,")
		}
		s += d
	}
	if c.chance(2) {
		s += c.typedVal()
	}
	return s
}

// pieces is what Strings(delim) must give for s.
func pieces(s, delim string) []string {
	out := []string{}
	s = string([]rune(s)) // invalid bytes read as U+FFFD
	cur, quoted := "", false
	for s != "" {
		r, w := utf8.DecodeRuneInString(s)
		at := delim != "" && strings.HasPrefix(s, delim)
		switch {
		case quoted:
			if r != '\\' && !at {
				cur += "\\"
			}
			cur += string(r)
			quoted = false
		case r == '\\':
			quoted = true
		case at:
			out = append(out, strings.TrimSpace(cur))
			cur = ""
			w = len(delim)
		default:
			cur += string(r)
		}
		s = s[w:]
	}
	if quoted {
		cur += "\\"
	}
	if cur != "" {
		out = append(out, strings.TrimSpace(cur))
	}
	return out
}

func list[T any](c *C, k *mkey, name, delim string, elems []string, parse func(string) (T, error), plain, valid func(string) []T, strict func(string) ([]T, error)) {
	all, ok := []T{}, []T{}
	var first error
	for _, e := range elems {
		v, err := parse(e)
		all = append(all, v)
		if err == nil {
			ok = append(ok, v)
		} else if first == nil {
			first = err
		}
	}
	eq := func(a, b []T) bool {
		return len(a) == len(b) && (len(a) == 0 || fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b))
	}
	c.ptags = "C09 C10"
	g := plain(delim)
	c.Check(eq(g, all), "C09", "%s = %q: %ss(%q) = %v, want %v", k.name, k.val, name, delim, g, all)
	g = valid(delim)
	c.Check(eq(g, ok), "C09", "%s = %q: Valid%ss(%q) = %v, want %v", k.name, k.val, name, delim, g, ok)
	g, err := strict(delim)
	c.Check((err != nil) == (first != nil), "C09", "%s = %q: Strict%ss(%q) error %v, want %v", k.name, k.val, name, delim, err, first)
	if err == nil {
		c.Check(eq(g, all), "C09", "%s = %q: Strict%ss(%q) = %v, want %v", k.name, k.val, name, delim, g, all)
	}
}

func TestC09(t *testing.T) {
	search(t, "C09", func(c *C) {
		m, keys := c.valueFile(c.listVal)
		if len(keys) == 0 {
			return
		}
		k := keys[c.Intn(len(keys))]
		s := m.str(k)
		if len(s) > 1<<12 {
			return
		}
		delim := c.pick(",", ",", ",", "|", "::", " ", "é")
		elems := pieces(s, delim)
		if g := k.real.Strings(delim); !eqStrs(g, elems) {
			c.Failf("C10", "Strings(%q) of %q = %q, want %q", delim, s, g, elems)
		}
		c.nontriv = len(elems) > 1
		c.Logf("[%s] %s, delimiter %q", k.sec.name, k.name, delim)
		before := m.snapshot()
		r := k.real
		list(c, k, "Bool", delim, elems, wantBool, r.Bools, r.ValidBools, r.StrictBools)
		list(c, k, "Float64", delim, elems, func(s string) (float64, error) { return strconv.ParseFloat(s, 64) }, r.Float64s, r.ValidFloat64s, r.StrictFloat64s)
		list(c, k, "Int", delim, elems, func(s string) (int, error) { v, e := strconv.ParseInt(s, 0, 64); return int(v), e }, r.Ints, r.ValidInts, r.StrictInts)
		list(c, k, "Int64", delim, elems, func(s string) (int64, error) { return strconv.ParseInt(s, 0, 64) }, r.Int64s, r.ValidInt64s, r.StrictInt64s)
		list(c, k, "Uint", delim, elems, func(s string) (uint, error) { v, e := strconv.ParseUint(s, 0, 64); return uint(v), e }, r.Uints, r.ValidUints, r.StrictUints)
		list(c, k, "Uint64", delim, elems, func(s string) (uint64, error) { return strconv.ParseUint(s, 0, 64) }, r.Uint64s, r.ValidUint64s, r.StrictUint64s)
		list(c, k, "Time", delim, elems, func(s string) (time.Time, error) { return time.Parse(time.RFC3339, s) }, r.Times, r.ValidTimes, r.StrictTimes)
		f := c.pick("2006-01-02", "15:04", "01/02/2006")
		list(c, k, "TimesFormat", delim, elems, func(s string) (time.Time, error) { return time.Parse(f, s) },
			func(d string) []time.Time { return r.TimesFormat(f, d) }, func(d string) []time.Time { return r.ValidTimesFormat(f, d) }, func(d string) ([]time.Time, error) { return r.StrictTimesFormat(f, d) })
		c.Check(m.snapshot() == before, "C09", "list accessors changed the file")
	})
}

func TestC10(t *testing.T) {
	search(t, "C10", func(c *C) {
		m, keys := c.valueFile(func() string {
			if c.chance(2) {
				return c.listVal()
			}
			s := ""
			for i := c.Intn(12); i > 0; i-- {
				s += c.pick("a", "b", ",", ",", "\\", "\\", " ", "|", ":", "::", "é", "\xff", "\xc3", "%(k2)s", "\u00a0", "\t", "日", "aa", "\n")
			}
			return s
		})
		for _, k := range keys {
			s := m.str(k)
			if len(s) > 1<<12 {
				continue
			}
			delim := c.pick(",", ",", ",", "|", "::", " ", "é", "", "aa", "\\", "\\,", "\xff", "a\xff", "日é", ",\\", "ab", ":")
			if rs := []rune(s); len(rs) > 1 && c.chance(3) {
				i := c.Intn(len(rs) - 1)
				delim = string(rs[i : i+1+c.Intn(min(5, len(rs)-i-1))])
			}
			c.Logf("[%s] %s = %q: Strings(%q)", k.sec.name, k.name, s, delim)
			want := pieces(s, delim)
			c.nontriv = c.nontriv || len(want) > 1
			g := k.real.Strings(delim)
			c.Check(eqStrs(g, want), "C10", "Strings(%q) of %q = %q, want %q", delim, s, g, want)
			c.Check(g != nil, "C10", "Strings(%q) of %q is nil", delim, s)
		}
	})
}

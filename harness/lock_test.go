package ini_test

// The file's lock: C22 (never leaked, never taken twice, untouched when off)
// and C23 (single look-ups and changes do not race).

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"sync"
	"testing"
	"unsafe"

	"github.com/go-ini/ini"
)

type locker interface {
	TryLock() bool
	Lock()
	Unlock()
}

// lockOf finds the file's lock (nil: none found).
func lockOf(f *ini.File) locker {
	v := reflect.ValueOf(f).Elem()
	for i := 0; i < v.NumField(); i++ {
		p := unsafe.Pointer(v.Field(i).UnsafeAddr())
		switch v.Field(i).Type() {
		case reflect.TypeOf(sync.RWMutex{}):
			return (*sync.RWMutex)(p)
		case reflect.TypeOf(sync.Mutex{}):
			return (*sync.Mutex)(p)
		}
	}
	return nil
}

type lockT struct {
	A string
	B []int
	C struct{ K int }
}

// anyOp runs a random public operation and returns its name.
func (c *C) anyOp(f *ini.File) (string, func()) {
	sn := c.pick("a", "b", "a.b", "DEFAULT", "", "x", "C", "raw")
	kn := c.pick("a", "k", "A", "B", "K", "ref", "-")
	v := c.pick("", "1", "a", "%(k)s", "%(ref)s", "1,2", "x")
	idx := c.Intn(4) - 1
	sec := func() *ini.Section {
		l := f.Sections()
		if len(l) == 0 {
			return nil
		}
		return l[c.Intn(len(l))]
	}
	s := sec()
	if s == nil {
		return "NewSection", func() { f.NewSection("a") }
	}
	var k *ini.Key
	if l := s.Keys(); len(l) > 0 {
		k = l[c.Intn(len(l))]
	} else if c.chance(2) {
		// a section without keys
		e := []struct {
			n string
			f func()
		}{
			{"DeleteKey", func() { s.DeleteKey(kn) }}, {"HasKey", func() { s.HasKey(kn) }}, {"HasValue", func() { s.HasValue(v) }}, {"GetKey", func() { s.GetKey(kn) }},
			{"Keys", func() { s.Keys() }}, {"KeysHash", func() { s.KeysHash() }}, {"ParentKeys", func() { s.ParentKeys() }}, {"KeyStrings", func() { s.KeyStrings() }},
			{"ChildSections", func() { s.ChildSections() }}, {"MapTo", func() { s.MapTo(&lockT{}) }}, {"WriteTo", func() { f.WriteTo(&bytes.Buffer{}) }},
		}
		o := e[c.Intn(len(e))]
		return fmt.Sprintf("%s (section %q without keys, key %q)", o.n, s.Name(), kn), o.f
	} else {
		k, _ = s.NewKey("k", "v")
	}
	if k == nil {
		return "Section.NewKey(v)", func() { s.NewKey("v", v) }
	}
	ops := []struct {
		n string
		f func()
	}{
		{"NewSection", func() { f.NewSection(sn) }}, {"NewRawSection", func() { f.NewRawSection(sn, v) }}, {"NewSections", func() { f.NewSections("a", sn, "b") }},
		{"GetSection", func() { f.GetSection(sn) }}, {"HasSection", func() { f.HasSection(sn) }}, {"SectionsByName", func() { f.SectionsByName(sn) }},
		{"Section", func() { f.Section(sn) }}, {"SectionWithIndex", func() { f.SectionWithIndex(sn, idx) }}, {"Sections", func() { f.Sections() }},
		{"File.ChildSections", func() { f.ChildSections(sn) }}, {"SectionStrings", func() { f.SectionStrings() }}, {"DeleteSection", func() { f.DeleteSection(sn) }},
		{"DeleteSectionWithIndex", func() { f.DeleteSectionWithIndex(sn, idx) }}, {"Reload", func() { f.Reload() }}, {"Append", func() { f.Append([]byte("[x]\nk=1\n")) }},
		{"Append(bad)", func() { f.Append([]byte("[x\n")) }}, {"WriteTo", func() { f.WriteTo(&bytes.Buffer{}) }}, {"WriteToIndent", func() { f.WriteToIndent(&failWriter{}, " ") }},
		{"SaveTo", func() { f.SaveTo("/nosuch/dir/x") }}, {"File.MapTo", func() { f.MapTo(&lockT{}) }}, {"File.StrictMapTo", func() { f.StrictMapTo(&lockT{}) }},
		{"File.ReflectFrom", func() { f.ReflectFrom(&lockT{A: v, B: []int{1, 2}}) }}, {"File.MapTo(bad)", func() { f.MapTo(lockT{}) }},
		{"Section.MapTo", func() { s.MapTo(&lockT{}) }}, {"Section.ReflectFrom", func() { s.ReflectFrom(&lockT{A: v}) }},
		{"SetBody", func() { s.SetBody(v) }}, {"Body", func() { s.Body() }}, {"Section.Name", func() { s.Name() }},
		{"NewKey", func() { s.NewKey(kn, v) }}, {"NewKey(empty)", func() { s.NewKey("", v) }}, {"NewBooleanKey", func() { s.NewBooleanKey(kn) }},
		{"GetKey", func() { s.GetKey(kn) }}, {"HasKey", func() { s.HasKey(kn) }}, {"HasValue", func() { s.HasValue(v) }}, {"Section.Key", func() { s.Key(kn) }},
		{"Keys", func() { s.Keys() }}, {"ParentKeys", func() { s.ParentKeys() }}, {"KeyStrings", func() { s.KeyStrings() }}, {"KeysHash", func() { s.KeysHash() }},
		{"DeleteKey", func() { s.DeleteKey(kn) }}, {"Section.ChildSections", func() { s.ChildSections() }},
		{"String", func() { _ = k.String() }}, {"Validate", func() { k.Validate(func(s string) string { return s }) }}, {"SetValue", func() { k.SetValue(v) }},
		{"AddShadow", func() { k.AddShadow(v) }}, {"AddNestedValue", func() { k.AddNestedValue(v) }}, {"ValueWithShadows", func() { k.ValueWithShadows() }},
		{"Bool", func() { k.Bool() }}, {"Int", func() { k.Int() }}, {"MustInt", func() { k.MustInt(3) }}, {"MustString", func() { k.MustString("d") }}, {"MustTime", func() { k.MustTime() }},
		{"MustDuration", func() { k.MustDuration(5) }}, {"MustBool", func() { k.MustBool(true) }}, {"MustFloat64", func() { k.MustFloat64(1.5) }}, {"In", func() { k.In("d", []string{"a"}) }},
		{"Strings", func() { k.Strings(",") }}, {"StringsWithShadows", func() { k.StringsWithShadows(",") }}, {"Ints", func() { k.Ints(",") }}, {"ValidInts", func() { k.ValidInts(",") }}, {"StrictInts", func() { k.StrictInts(",") }},
		{"RangeInt", func() { k.RangeInt(1, 0, 9) }}, {"NestedValues", func() { k.NestedValues() }},
	}
	o := ops[c.Intn(len(ops))]
	return fmt.Sprintf("%s (section %q %d, key %q, value %q)", o.n, sn, idx, kn, v), o.f
}

func TestC22(t *testing.T) {
	search(t, "C22", func(c *C) {
		o := ini.LoadOptions{AllowShadows: c.chance(2), AllowNestedValues: true, AllowNonUniqueSections: c.chance(3), Insensitive: c.chance(4), AllowDuplicateShadowValues: c.chance(2)}
		c.Logf("options %+v", o)
		src := c.pick("k=v\nref=%(k)s\n[a]\nk=%(ref)s\n[a.b]\nx=1\n", "", "[C]\nK=%(K)s\n[raw]\na=b\n", "k=v\nk=2\nk=3\nk=4\nk=5\nk=6\nk=7\nk=8\nk=9\n[a]\nk=1\nk=2\nk=3\n[a]\n[a]\n[a]\nA=1\n")
		f, err := ini.LoadSources(o, []byte(src))
		if err != nil {
			c.Failf("C22", "%v", err)
		}
		l := lockOf(f)
		if l == nil {
			return // no lock of a known kind
		}
		off := c.chance(3)
		f.ValueMapper = nil
		if c.chance(3) {
			// a callback may use the file
			f.ValueMapper = func(s string) string {
				f.HasSection("a")
				f.Section("mapper").HasKey("k")
				return s
			}
		}
		if off {
			f.BlockMode = false
			c.Logf("BlockMode off, lock held by somebody else")
			l.Lock()
		}
		for n := 1 + c.Intn(12); n > 0; n-- {
			name, op := c.anyOp(f)
			c.Logf("%s", name)
			op()
			if off {
				c.Check(!l.TryLock(), "C22", "%s released a lock although locking is off", name)
				continue
			}
			c.Check(l.TryLock(), "C22", "%s returned with the lock held", name)
			l.Unlock()
		}
		c.nontriv = true
	})
}

func TestC23(t *testing.T) {
	search(t, "C23", func(c *C) {
		o := ini.LoadOptions{AllowNonUniqueSections: c.chance(2), Insensitive: c.chance(4), AllowShadows: c.chance(3), AllowDuplicateShadowValues: true}
		f, err := ini.LoadSources(o, []byte("k=v\n[a]\nk=1\n[a.b]\nx=1\n[b]\n"))
		if err != nil {
			c.Failf("C23", "%v", err)
		}
		if o.AllowNonUniqueSections {
			for i := 0; i < 6; i++ {
				f.NewSection("b")
			}
		}
		c.Logf("options %+v", o)
		shared := f.Section("a")
		kk := shared.Key("k")
		n := 2 + c.Intn(3)
		steps := 5 + c.Intn(40)
		seeds := make([]int64, n)
		for i := range seeds {
			seeds[i] = c.Int63()
		}
		want := map[string]bool{}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var fails []string
		for g := 0; g < n; g++ {
			own := fmt.Sprintf("own%d", g)
			rnd := &C{Rand: newRand(seeds[g])}
			last := map[string]string{}
			lastK := map[string]string{}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						mu.Lock()
						fails = append(fails, fmt.Sprintf("panic in a goroutine: %v", r))
						mu.Unlock()
					}
				}()
				for i := 0; i < steps; i++ {
					sn := rnd.pick("a", "b", "a.b", "c")
					key := rnd.pick("k", "x", "y")
					ok := own + rnd.pick("p", "q")
					switch rnd.Intn(18) {
					case 0:
						f.NewSection(ok)
						last[ok] = "new"
					case 1:
						f.DeleteSection(ok)
						last[ok] = ""
					case 2:
						f.GetSection(sn)
					case 3:
						f.HasSection(sn)
					case 4:
						f.SectionsByName(sn)
					case 5:
						f.Section(sn)
					case 6:
						f.SectionWithIndex(sn, rnd.Intn(2))
					case 7:
						f.Sections()
					case 8:
						f.DeleteSectionWithIndex("b", 0)
					case 9:
						f.NewSection("b")
					case 10:
						shared.NewKey(key, "v")
					case 11:
						shared.NewKey(ok, "1")
						lastK[ok] = "new"
					case 12:
						shared.DeleteKey(ok)
						lastK[ok] = ""
					case 13:
						shared.GetKey(key)
					case 14:
						shared.HasKey(key)
						shared.HasValue("none")
					case 15:
						shared.Key(key)
						shared.KeysHash()
					case 16:
						kk.SetValue(own)
					case 17:
						if s, err := f.GetSection("a.b"); err == nil {
							s.GetKey("k") // inherited
						}
					}
				}
				mu.Lock()
				defer mu.Unlock()
				for s, v := range last {
					want["["+s+"]"] = v != ""
				}
				for s, v := range lastK {
					want[s] = v != ""
				}
			}()
		}
		wg.Wait()
		c.Check(len(fails) == 0, "C23", "%v", fails)
		names := make([]string, 0, len(want))
		for s := range want {
			names = append(names, s)
		}
		sort.Strings(names)
		for _, s := range names {
			var got bool
			if s[0] == '[' {
				got = f.HasSection(s[1 : len(s)-1])
			} else {
				got = shared.HasKey(s)
			}
			c.Check(got == want[s], "C23", "after all goroutines are done, %s exists: %v, want %v (its owner changed it last)", s, got, want[s])
		}
		// the tables agree
		for _, s := range f.SectionStrings() {
			c.Check(f.HasSection(s), "C23", "section %q is listed but not found", s)
		}
		for _, k := range shared.KeyStrings() {
			_, err := shared.GetKey(k)
			c.Check(err == nil, "C23", "key %q is listed but not found", k)
		}
		c.Check(len(shared.KeyStrings()) == len(shared.KeysHash()), "C23", "%d keys listed, %d in the hash", len(shared.KeyStrings()), len(shared.KeysHash()))
		c.sig = fmt.Sprint(o, n, steps, seeds)
		c.nontriv = true
	})
}

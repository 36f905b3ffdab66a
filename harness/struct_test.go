package ini_test

// Struct mapping (C20), reflecting (C21), tags and name mappers (C24).

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/go-ini/ini"
)

type (
	myStr  string
	myBool bool
	myInt  int
	myI8   int8
	myUint uint
	myF32  float32
	myTime time.Time
	myStrP *string
	myStrs []string
	Time   struct{ T int }
	Clock  struct{ Time time.Time }
	EmbA   struct{ X, Name string }
	EmbB   struct{ Age int }
	EmbC   struct{ EmbA }
	Emb    struct{ *EmbB }
	embHid struct{ Age int }
	Plain  struct{ Name, Age string }
	Deep   struct{ A Plain }
	ExtVal struct {
		EmbA `ini:",extends"`
		Age  int
	}
	ExtPtr struct {
		*EmbA `ini:",extends"`
		*EmbB `ini:"b,extends"`
		Name  string
	}
	Anon struct {
		*EmbA `ini:"a"`
		EmbB
		F0 int
	}
	PtrInt int
	EmbInt struct {
		*PtrInt `ini:"Age"`
		Name    string
	}
	hidden struct {
		embHid
		*EmbB
		priv int
		F0   int
	}
	Refl struct{ S string }
)

// Refl writes itself.
func (r Refl) ReflectINIStruct(f *ini.File) error {
	if r.S == "bad" {
		return errors.New("bad reflector")
	}
	f.Section("refl").Key("s").SetValue(r.S)
	return nil
}

var (
	tTime = reflect.TypeOf(time.Time{})
	tDur  = reflect.TypeOf(time.Duration(0))
)

var leafTypes = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(false), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)),
	reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(0.0), tDur, tTime,
	reflect.TypeOf(myStr("")), reflect.TypeOf(myBool(false)), reflect.TypeOf(myInt(0)), reflect.TypeOf(myI8(0)), reflect.TypeOf(myUint(0)), reflect.TypeOf(myF32(0)),
}
var elemTypes = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(0), reflect.TypeOf(int64(0)), reflect.TypeOf(uint(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(0.0), reflect.TypeOf(false), tTime,
	reflect.TypeOf(myStr("")), reflect.TypeOf(myBool(false)), reflect.TypeOf(myInt(0)), reflect.TypeOf(myUint(0)),
}
var oddTypes = []reflect.Type{
	reflect.TypeOf(byte(0)), reflect.TypeOf([]byte{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf([2]int{}), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(complex(1, 1)),
	reflect.TypeOf(func() {}), reflect.TypeOf(make(chan int)), reflect.TypeOf((**int)(nil)), reflect.TypeOf([][]string{}), reflect.TypeOf([]*string{}), reflect.TypeOf((*[]string)(nil)),
	reflect.TypeOf(Time{}), reflect.TypeOf(&Time{}), reflect.TypeOf([]Time{}), reflect.TypeOf(myTime{}), reflect.TypeOf(&myTime{}), reflect.TypeOf([]myTime{}), reflect.TypeOf([]time.Duration{}), reflect.TypeOf([]int8{}),
	reflect.TypeOf(myStrP(nil)), reflect.TypeOf(myStrs{}), reflect.TypeOf(uintptr(0)), reflect.TypeOf([]float32{}), reflect.TypeOf((*byte)(nil)), reflect.TypeOf([]interface{}{}),
}
var structTypes = []reflect.Type{
	reflect.TypeOf(Plain{}), reflect.TypeOf(EmbA{}), reflect.TypeOf(EmbB{}), reflect.TypeOf(EmbC{}), reflect.TypeOf(Emb{}), reflect.TypeOf(Deep{}),
	reflect.TypeOf(ExtVal{}), reflect.TypeOf(ExtPtr{}), reflect.TypeOf(Anon{}), reflect.TypeOf(EmbInt{}), reflect.TypeOf(hidden{}), reflect.TypeOf(Clock{}),
}

var fieldNames = []string{"Name", "Age", "F0", "URLPath", "A", "X", "École", "B2B", "Z"}
var iniNames = []string{"", "", "", "Name", "Age", "F0", "a", "b", "a.b", "name", "A", "K", "k é"}

func (c *C) tag(opts bool) reflect.StructTag {
	n := c.pick(iniNames...)
	if c.chance(12) {
		n = "-"
	}
	if opts {
		for i := c.Intn(4); i > 0; i-- {
			n += "," + c.pick("omitempty", "allowshadow", "nonunique", "nonunique", "extends", "", "x", " omitempty", "-", "allowShadow")
		}
	}
	t := ""
	if n != "" {
		t = fmt.Sprintf("ini:%q", n)
	}
	if c.chance(3) {
		t += fmt.Sprintf(" delim:%q", c.pick(",", "|", ";", "", "::"))
	}
	if c.chance(4) {
		t += fmt.Sprintf(" comment:%q", c.pick("note", "", "# two"))
	}
	return reflect.StructTag(strings.TrimSpace(t))
}

// typ builds a random struct type; odd allows unsupported field types.
func (c *C) typ(depth int, odd bool) reflect.Type {
	if c.chance(4) && depth < 2 {
		return structTypes[c.Intn(len(structTypes))]
	}
	var fs []reflect.StructField
	used := map[string]bool{}
	for i := 1 + c.Intn(5); i > 0; i-- {
		f := reflect.StructField{Name: c.pick(fieldNames...), Tag: c.tag(true)}
		if used[f.Name] {
			continue
		}
		used[f.Name] = true
		switch n := c.Intn(20); {
		case n < 8:
			f.Type = leafTypes[c.Intn(len(leafTypes))]
			if c.chance(3) {
				f.Type = reflect.PtrTo(f.Type)
			}
		case n < 12:
			f.Type = reflect.SliceOf(elemTypes[c.Intn(len(elemTypes))])
		case n < 14 && odd:
			f.Type = oddTypes[c.Intn(len(oddTypes))]
		case n < 18 && depth > 0:
			f.Type = c.typ(depth-1, odd)
			if f.Type.NumField() == 0 {
				f.Type = reflect.TypeOf(Plain{})
			}
			switch c.Intn(4) {
			case 0:
				f.Type = reflect.PtrTo(f.Type)
			case 1:
				f.Type = reflect.SliceOf(f.Type)
				if c.chance(2) {
					f.Type = reflect.SliceOf(reflect.PtrTo(f.Type.Elem()))
				}
				if f.Tag == "" || c.chance(2) {
					f.Tag = `ini:"a,nonunique"`
				}
			}
		case n == 18:
			f.Type = reflect.TypeOf(Refl{})
		default:
			f.Type = reflect.TypeOf("")
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func (c *C) text() string {
	return c.pick("", "x", "5", "-3", "0", "127", "128", "-129", "300", "70000", "99999999999", "18446744073709551615", "18446744073709551616", "0x1f", "010", "1_000",
		"1.5", "-2.25", "1e40", "1e400", "NaN", "Inf", "true", "no", "On", "maybe", "5s", "-2m", "0s", "1h30m", "90000h", "2500000h", "1.5h",
		"2020-01-02T03:04:05Z", "2020-01-02T03:04:05+02:00", "0001-01-01T00:00:00Z", "2020-13-02T03:04:05Z",
		"1,2,3", "1,x,3", "a|b|c", "1;2", "true,false", "true,2", "1.5,2.5", "2020-01-02T03:04:05Z,2021-01-02T03:04:05Z", ",", "a,,b", "1::2", " 7 ", "a, b")
}

// fillRandom populates v with defaults.
func (c *C) fillRandom(v reflect.Value, depth int) {
	if !v.CanSet() || c.chance(3) {
		return
	}
	if v.Type() == tTime {
		u := int64(c.Intn(2000000000))
		switch c.Intn(6) {
		case 0:
			u = -u * int64(c.Intn(30))
		case 1:
			u *= int64(c.Intn(100))
		}
		v.Set(reflect.ValueOf(time.Unix(u, 0).UTC()))
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(c.pick("def", "", "word", "a b", "é", "def", "word", ":", "x:", "|"))
	case reflect.Bool:
		v.SetBool(c.chance(2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(c.Intn(200) - 100))
		if b := v.Type().Bits(); c.chance(4) {
			v.SetInt([]int64{-1 << (b - 1), 1<<(b-1) - 1, 1<<(b-1) - 2, -1 << (b - 2)}[c.Intn(4)])
		}
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(c.Intn(100)))
		if b := v.Type().Bits(); c.chance(4) {
			v.SetUint([]uint64{1<<b - 1, 1 << (b - 1), 1<<(b-1) - 1, 1<<b - 2}[c.Intn(4)])
		}
	case reflect.Float32, reflect.Float64:
		f := float64(c.Intn(100))/8 - 3
		if c.chance(4) {
			f = (c.Float64() - 0.3) * math.Pow(10, float64(c.Intn(40)-18))
		}
		if v.Kind() == reflect.Float32 {
			f = float64(float32(f))
		}
		v.SetFloat(f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			c.fillRandom(v.Field(i), depth)
		}
	case reflect.Ptr:
		if depth > 0 {
			v.Set(reflect.New(v.Type().Elem()))
			c.fillRandom(v.Elem(), depth-1)
		}
	case reflect.Slice:
		n := c.Intn(4)
		if c.chance(10) {
			n = c.Intn(40)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			c.fillRandom(s.Index(i), depth-1)
		}
		v.Set(s)
	}
}

// deepCopy copies v (exported structure only) so that nothing is shared.
func deepCopy(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	var fix func(x reflect.Value)
	fix = func(x reflect.Value) {
		if !x.CanSet() || x.Type() == tTime {
			return
		}
		switch x.Kind() {
		case reflect.Ptr:
			if !x.IsNil() {
				p := reflect.New(x.Type().Elem())
				p.Elem().Set(x.Elem())
				fix(p.Elem())
				x.Set(p)
			}
		case reflect.Slice:
			if !x.IsNil() {
				s := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
				reflect.Copy(s, x)
				for i := 0; i < s.Len(); i++ {
					fix(s.Index(i))
				}
				x.Set(s)
			}
		case reflect.Struct:
			for i := 0; i < x.NumField(); i++ {
				fix(x.Field(i))
			}
		}
	}
	fix(n)
	return n
}

func dump(v reflect.Value) string {
	switch {
	case !v.IsValid():
		return "?"
	case v.CanInterface() && v.Type() == tTime:
		return v.Interface().(time.Time).Format(time.RFC3339Nano)
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + dump(v.Elem())
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" && !v.Type().Field(i).Anonymous {
				continue
			}
			s += fmt.Sprintf("%s:%s ", v.Type().Field(i).Name, dump(v.Field(i)))
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += dump(v.Index(i)) + " "
		}
		return s + "]"
	case reflect.String:
		return strconv.Quote(v.String())
	case reflect.Func, reflect.Chan, reflect.Map:
		return fmt.Sprint(v.IsNil())
	}
	return fmt.Sprint(v)
}

// tagOf is the documented reading of a field's tags.
type tagInfo struct {
	skip                                  bool
	name, raw                             string
	omitEmpty, shadow, nonUnique, extends bool
	delim, comment                        string
}

func tagOf(f *ini.File, sf reflect.StructField) tagInfo {
	var ti tagInfo
	tag := sf.Tag.Get("ini")
	ti.skip = tag == "-"
	p := strings.Split(tag, ",")
	ti.raw = p[0]
	for _, o := range p[1:] {
		switch o {
		case "omitempty":
			ti.omitEmpty = true
		case "allowshadow":
			ti.shadow = true
		case "nonunique":
			ti.nonUnique = true
		case "extends":
			ti.extends = true
		}
	}
	switch {
	case ti.raw != "":
		ti.name = ti.raw
	case f.NameMapper != nil:
		ti.name = f.NameMapper(sf.Name)
	default:
		ti.name = sf.Name
	}
	ti.delim = ","
	if d := sf.Tag.Get("delim"); d != "" {
		ti.delim = d
	}
	ti.comment = sf.Tag.Get("comment")
	return ti
}

var errUnsupported = errors.New("unsupported type")

var truth = map[string]bool{"1": true, "t": true, "T": true, "true": true, "TRUE": true, "True": true, "YES": true, "yes": true, "Yes": true, "y": true, "ON": true, "on": true, "On": true,
	"0": false, "f": false, "F": false, "false": false, "FALSE": false, "False": false, "NO": false, "no": false, "No": false, "n": false, "OFF": false, "off": false, "Off": false}

// convert is the value of text s for type t; set is false when the field has
// to stay as it is although nothing failed.
func convert(s string, t reflect.Type, ptr bool) (v reflect.Value, set bool, err error) {
	v = reflect.New(t).Elem()
	switch {
	case t == tTime:
		x, err := time.Parse(time.RFC3339, s)
		if err != nil {
			return v, false, err
		}
		v.Set(reflect.ValueOf(x))
		return v, true, nil
	case t.Kind() == reflect.Int64 && t.Name() == "Duration":
		if x, err := time.ParseDuration(s); err == nil {
			v.SetInt(int64(x))
			return v, x != 0 || ptr, nil
		}
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(s)
		return v, s != "" || ptr, nil
	case reflect.Bool:
		b, ok := truth[s]
		if !ok {
			return v, false, errors.New("no bool")
		}
		v.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, err := strconv.ParseInt(s, 0, 64)
		if err != nil || v.OverflowInt(x) {
			return v, false, errors.New("no int")
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if x, err := time.ParseDuration(s); err == nil && x > 0 && !v.OverflowUint(uint64(x)) {
			v.SetUint(uint64(x))
			return v, true, nil
		}
		x, err := strconv.ParseUint(s, 0, 64)
		if err != nil || v.OverflowUint(x) {
			return v, false, errors.New("no uint")
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		x, err := strconv.ParseFloat(s, 64)
		if err != nil || v.OverflowFloat(x) {
			return v, false, errors.New("no float")
		}
		v.SetFloat(x)
	default:
		return v, false, errUnsupported
	}
	return v, true, nil
}

func elemOK(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.String, reflect.Int, reflect.Int64, reflect.Uint, reflect.Uint64, reflect.Float64, reflect.Bool:
		return true
	}
	return t == tTime
}

// wantLeaf sets field to what the key says.
func wantLeaf(key *ini.Key, field reflect.Value, ti tagInfo, strict bool) error {
	t := field.Type()
	if t.Kind() == reflect.Slice {
		strs := key.Strings(ti.delim)
		if ti.shadow {
			strs = key.StringsWithShadows(ti.delim)
		}
		if len(strs) == 0 {
			return nil
		}
		if !elemOK(t.Elem()) {
			return errUnsupported
		}
		out := reflect.MakeSlice(t, 0, len(strs))
		for _, s := range strs {
			v, err := elemOf(s, t.Elem())
			if err != nil && strict {
				return err
			}
			out = reflect.Append(out, v)
		}
		field.Set(out)
		return nil
	}
	ptr := t.Kind() == reflect.Ptr
	if ptr {
		t = t.Elem()
	}
	if ptr && t.Kind() == reflect.Slice {
		strs := key.Strings(ti.delim)
		if ti.shadow {
			strs = key.StringsWithShadows(ti.delim)
		}
		if len(strs) == 0 {
			return nil
		}
		return errUnsupported
	}
	v, set, err := convert(key.String(), t, ptr)
	if err == errUnsupported {
		return err
	}
	if err != nil {
		if strict {
			return err
		}
		return nil
	}
	if !set {
		return nil
	}
	if ptr {
		p := reflect.New(t)
		p.Elem().Set(v)
		v = p
	}
	field.Set(v)
	return nil
}

// elemOf converts a list element; what does not convert becomes the value the
// strconv function reports with its error (zero, or the nearest bound).
func elemOf(s string, t reflect.Type) (reflect.Value, error) {
	v := reflect.New(t).Elem()
	if t == tTime {
		x, err := time.Parse(time.RFC3339, s)
		v.Set(reflect.ValueOf(x))
		return v, err
	}
	switch t.Kind() {
	case reflect.String:
		v.SetString(s)
	case reflect.Bool:
		b, ok := truth[s]
		if !ok {
			return v, errors.New("no bool")
		}
		v.SetBool(b)
	case reflect.Int, reflect.Int64:
		x, err := strconv.ParseInt(s, 0, 64)
		v.SetInt(x)
		return v, err
	case reflect.Uint, reflect.Uint64:
		x, err := strconv.ParseUint(s, 0, 64)
		v.SetUint(x)
		return v, err
	case reflect.Float64:
		x, err := strconv.ParseFloat(s, 64)
		v.SetFloat(x)
		return v, err
	}
	return v, nil
}

// wantMap maps section sec into the struct v.
func wantMap(f *ini.File, sec *ini.Section, v reflect.Value, strict bool, idx int) error {
	if v.Kind() != reflect.Struct {
		return errUnsupported
	}
	for i := 0; i < v.NumField(); i++ {
		field, sf := v.Field(i), v.Type().Field(i)
		ti := tagOf(f, sf)
		if ti.skip || ti.name == "" || !field.CanSet() {
			continue
		}
		t := sf.Type
		isPtr := t.Kind() == reflect.Ptr
		st := t
		if isPtr {
			st = t.Elem()
		}
		isStruct := st.Kind() == reflect.Struct && st != tTime
		if sf.Anonymous && isPtr && field.IsNil() {
			field.Set(reflect.New(st))
		}
		into := func(s *ini.Section, idx int) error {
			if isPtr && field.IsNil() {
				field.Set(reflect.New(st))
			}
			x := field
			if isPtr {
				x = field.Elem()
			}
			return wantMap(f, s, x, strict, idx)
		}
		if ti.extends && sf.Anonymous && (isPtr || isStruct) {
			from := sec
			if ti.raw != "" {
				if l, err := f.SectionsByName(sec.Name() + "." + ti.raw); err == nil && idx < len(l) {
					from = l[idx]
				}
			}
			if err := into(from, idx); err != nil {
				return err
			}
		} else if isStruct || sf.Anonymous && isPtr {
			if l, err := f.SectionsByName(ti.name); err == nil {
				if len(l) <= idx {
					return errors.New("not enough sections")
				}
				if err := into(l[idx], idx); err != nil {
					return err
				}
				continue
			}
		}
		if ti.nonUnique && t.Kind() == reflect.Slice {
			if _, err := f.SectionsByName(ti.name); err != nil {
				continue
			}
			if err := wantSlice(f, ti.name, field, strict); err != nil {
				return err
			}
			continue
		}
		if key, err := sec.GetKey(ti.name); err == nil {
			if err := wantLeaf(key, field, ti, strict); err != nil {
				return err
			}
		}
	}
	return nil
}

func wantSlice(f *ini.File, name string, field reflect.Value, strict bool) error {
	l, err := f.SectionsByName(name)
	if err != nil {
		return err
	}
	et := field.Type().Elem()
	out := field
	for j, s := range l {
		t := et
		if et.Kind() == reflect.Ptr {
			t = et.Elem()
		}
		p := reflect.New(t)
		if err := wantMap(f, s, p.Elem(), strict, j); err != nil {
			return err
		}
		if et.Kind() != reflect.Ptr {
			p = p.Elem()
		}
		out = reflect.Append(out, p)
	}
	field.Set(out)
	return nil
}

func (c *C) structFile(names func() string) (*ini.File, ini.LoadOptions) {
	o := ini.LoadOptions{AllowShadows: c.chance(2), AllowNonUniqueSections: c.chance(2), AllowDuplicateShadowValues: c.chance(3)}
	if c.chance(6) {
		o.Insensitive = true
	}
	f := ini.Empty(o)
	switch c.Intn(4) {
	case 0:
		f.NameMapper = ini.SnackCase
	case 1:
		f.NameMapper = ini.TitleUnderscore
	case 2:
		f.NameMapper = func(s string) string {
			if s == "Z" {
				return ""
			}
			return strings.ToLower(s)
		}
	}
	c.Logf("options %+v mapper %v", o, f.NameMapper != nil)
	num, same := 1+c.Intn(4), ""
	if c.chance(8) {
		num, same = 2+c.Intn(8), names()
	}
	for i := num; i > 0; i-- {
		sec := f.Section("")
		if !c.chance(3) {
			n := names()
			if same != "" && !c.chance(4) {
				n = same
			}
			if n == "" {
				n = "a"
			}
			s, err := f.NewSection(n)
			if err != nil {
				continue
			}
			sec = s
		}
		for j := c.Intn(7); j > 0; j-- {
			n, v := names(), c.text()
			if n == "" {
				n = c.pick(fieldNames...)
			}
			if _, err := sec.NewKey(n, v); err == nil {
				c.Logf("[%s] %s = %q", sec.Name(), n, v)
			}
		}
	}
	return f, o
}

// mapSources maps sources through the package-level functions.
func (c *C) mapSources(f *ini.File, typ reflect.Type, strict bool) {
	var buf strings.Builder
	if _, err := f.WriteTo(&buf); err != nil {
		panic(skipCase{})
	}
	text := buf.String()
	g, err := ini.Load([]byte(text))
	if err != nil {
		panic(skipCase{})
	}
	nm := f.NameMapper
	g.NameMapper = nm
	arg := reflect.New(typ)
	c.fillRandom(arg.Elem(), 2)
	want := deepCopy(arg.Elem())
	var others []interface{}
	for i := c.Intn(3); i > 0; i-- {
		others = append(others, []byte(""))
	}
	c.Logf("type %s, map source %q and %d empty ones, strict %v, mapper %v", typ, text, len(others), strict, nm != nil)
	werr := wantMap(g, g.Section(""), want, strict, 0)
	switch v, src := arg.Interface(), []byte(text); {
	case nm == nil && strict:
		err = ini.StrictMapTo(v, src, others...)
	case nm == nil:
		err = ini.MapTo(v, src, others...)
	case strict:
		err = ini.StrictMapToWithMapper(v, nm, src, others...)
	default:
		err = ini.MapToWithMapper(v, nm, src, others...)
	}
	c.nontriv = true
	c.Check((err != nil) == (werr != nil), "C20", "error %v, want %v", err, werr)
	if err == nil {
		c.Check(dump(arg.Elem()) == dump(want), "C20", "mapped %s\nwant   %s", dump(arg.Elem()), dump(want))
	}
	c.Check(ini.MapTo(arg.Interface(), []byte("[x")) != nil && ini.StrictMapTo(arg.Interface(), []byte("[x")) != nil, "C20", "mapping a source that does not load is no error")
}

func TestC20(t *testing.T) {
	search(t, "C20", func(c *C) {
		typ := c.typ(2, true)
		f, _ := c.structFile(func() string {
			n := c.pick(append(append([]string{}, iniNames...), fieldNames...)...)
			if f := typ.Field(c.Intn(typ.NumField())); c.chance(2) {
				return strings.Split(f.Tag.Get("ini")+",", ",")[0]
			}
			return n
		})
		strict := c.chance(2)
		arg := reflect.New(typ)
		if c.chance(10) {
			c.mapSources(f, typ, strict)
			return
		}
		if c.chance(100) {
			c.Check(f.MapTo(&struct{}{}) == nil && f.StrictMapTo(&struct{}{}) == nil, "C20", "mapping to a struct without fields is an error")
		}
		isSlice := c.chance(8)
		if isSlice {
			arg = reflect.New(reflect.SliceOf(typ))
			if c.chance(2) {
				arg = reflect.New(reflect.SliceOf(reflect.PtrTo(typ)))
			}
		} else {
			c.fillRandom(arg.Elem(), 2)
		}
		secs := f.Sections()
		sec := secs[c.Intn(len(secs))]
		c.Logf("type %s", typ)
		if c.chance(20) {
			var bad interface{}
			switch c.Intn(6) {
			case 1:
				bad = 5
			case 2:
				bad = new(int)
			case 3:
				bad = reflect.Zero(reflect.PtrTo(typ)).Interface()
			case 4:
				bad = reflect.Zero(typ).Interface()
			case 5:
				bad = new(*Plain)
			}
			c.Logf("MapTo(%T)", bad)
			c.Check(sec.MapTo(bad) != nil, "C20", "mapping to a %T is no error", bad)
			return
		}
		before := dump(arg.Elem())
		want := deepCopy(arg.Elem())
		var werr error
		if isSlice {
			werr = wantSlice(f, sec.Name(), want, strict)
		} else {
			werr = wantMap(f, sec, want, strict, 0)
		}
		c.Logf("strict %v, map section %q into %s", strict, sec.Name(), before)
		var err error
		if strict {
			err = sec.StrictMapTo(arg.Interface())
		} else {
			err = sec.MapTo(arg.Interface())
		}
		c.nontriv = dump(want) != before
		c.Check((err != nil) == (werr != nil), "C20", "error %v, want %v", err, werr)
		if err != nil {
			return
		}
		g, w := dump(arg.Elem()), dump(want)
		c.Check(g == w, "C20", "mapped %s\nwant   %s", g, w)
	})
}

// ---- reflecting ----

func fmtLeaf(v reflect.Value) string {
	if v.Type() == tTime {
		return v.Interface().(time.Time).Format(time.RFC3339)
	}
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		if v.Bool() {
			return "true"
		}
		return "false"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Float32, reflect.Float64:
		return fmt.Sprint(v.Float())
	}
	return strconv.FormatUint(v.Uint(), 10)
}

func empty(v reflect.Value) bool {
	if v.Type() == tTime {
		return v.Interface().(time.Time).IsZero()
	}
	switch v.Kind() {
	case reflect.Slice, reflect.String:
		return v.Len() == 0
	case reflect.Struct:
		return false
	}
	return v.IsZero()
}

type wkey struct {
	name, val, comment string
	shadows            []string
}
type wsec struct {
	name, comment string
	keys          []*wkey
}
type wfile struct {
	secs []*wsec
	refl []string // names of fields that write nothing
	lost bool     // a list does not survive its delimiter
}

func (w *wfile) sec(n string) *wsec {
	for _, s := range w.secs {
		if s.name == n {
			return s
		}
	}
	s := &wsec{name: n}
	w.secs = append(w.secs, s)
	return s
}

var errClass = errors.New("outside the class")

// wantReflect is what reflecting v into a fresh file writes; errClass when the
// value is outside the class for which mapping restores it.
func wantReflect(f *ini.File, w *wfile, s *wsec, v reflect.Value, o ini.LoadOptions, nested bool) error {
	for i := 0; i < v.NumField(); i++ {
		field, sf := v.Field(i), v.Type().Field(i)
		ti := tagOf(f, sf)
		if !field.CanInterface() || ti.skip {
			continue
		}
		if ti.omitEmpty && empty(field) {
			w.refl = append(w.refl, ti.name)
			continue
		}
		if r, ok := field.Interface().(Refl); ok {
			// it writes [refl] itself; mapping reads a section or key of the field's name
			k := w.sec("refl")
			if ti.name == "refl" || ti.name == "s" || s.name == "refl" || nested || r.S == "bad" || len(k.keys) > 0 {
				return errClass
			}
			put(k, "s", r.S, nil, "")
			w.refl = append(w.refl, ti.name)
			continue
		}
		if ti.name == "" {
			continue
		}
		if strings.Contains(ti.name, ".") {
			return errClass
		}
		t := sf.Type
		st := t
		if t.Kind() == reflect.Ptr {
			st = t.Elem()
		}
		isStruct := st.Kind() == reflect.Struct && st != tTime
		if ti.extends && sf.Anonymous && isStruct {
			if t.Kind() == reflect.Ptr {
				if field.IsNil() {
					return errClass // mapping allocates it
				}
				field = field.Elem()
			}
			if err := wantReflect(f, w, s, field, o, nested); err != nil {
				return err
			}
			continue
		}
		if sf.Anonymous && t.Kind() == reflect.Ptr && !isStruct {
			return errClass
		}
		if isStruct {
			if t.Kind() == reflect.Ptr {
				if field.IsNil() {
					if sf.Anonymous {
						return errClass // mapping allocates it
					}
					w.refl = append(w.refl, ti.name)
					continue
				}
				field = field.Elem()
			}
			for _, x := range w.secs {
				if x.name == ti.name {
					return errClass // two structs in one section
				}
			}
			if nested {
				return errClass
			}
			x := w.sec(ti.name)
			x.comment = ti.comment
			if err := wantReflect(f, w, x, field, o, nested); err != nil {
				return err
			}
			continue
		}
		if ti.nonUnique && t.Kind() == reflect.Slice {
			if field.Len() == 0 {
				w.refl = append(w.refl, ti.name)
				continue
			}
			if !o.AllowNonUniqueSections || nested {
				return errClass
			}
			for _, x := range w.secs {
				if x.name == ti.name {
					return errClass
				}
			}
			for j := 0; j < field.Len(); j++ {
				e := field.Index(j)
				if e.Kind() == reflect.Ptr {
					if e.IsNil() {
						return errClass
					}
					e = e.Elem()
				}
				if e.Kind() != reflect.Struct || e.Type() == tTime {
					return errClass
				}
				x := &wsec{name: ti.name, comment: ti.comment}
				w.secs = append(w.secs, x)
				if err := wantReflect(f, w, x, e, o, true); err != nil {
					return err
				}
			}
			continue
		}
		for _, k := range s.keys {
			if k.name == ti.name {
				return errClass // two fields share a key
			}
		}
		if t.Kind() == reflect.Ptr {
			if field.IsNil() {
				if st.Kind() == reflect.String {
					return errClass // comes back as a pointer to ""
				}
				if st.Kind() == reflect.Struct {
					put(s, ti.name, "", nil, ti.comment)
					continue
				}
				put(s, ti.name, "", nil, ti.comment)
				continue
			}
			field = field.Elem()
		}
		if t.Kind() == reflect.Slice {
			if !elemOK(t.Elem()) {
				return errClass
			}
			var vals []string
			for j := 0; j < field.Len(); j++ {
				x := fmtLeaf(field.Index(j))
				if x == "" || strings.ContainsAny(x, ti.delim) || strings.ContainsAny(x, "\\") || x != strings.TrimSpace(x) {
					w.lost = true
				}
				vals = append(vals, x)
			}
			if len(vals) == 0 {
				put(s, ti.name, "", nil, ti.comment)
			} else if ti.shadow && o.AllowShadows {
				sh := []string{}
				seen := map[string]bool{vals[0]: true}
				for _, x := range vals[1:] {
					if seen[x] && !o.AllowDuplicateShadowValues {
						return errClass
					}
					seen[x] = true
					sh = append(sh, x)
				}
				put(s, ti.name, vals[0], sh, ti.comment)
			} else {
				put(s, ti.name, strings.Join(vals, ti.delim), nil, ti.comment)
			}
			continue
		}
		switch field.Kind() {
		case reflect.Uint8, reflect.Struct, reflect.Slice, reflect.Ptr:
			if field.Type() != tTime {
				return errClass
			}
		}
		x := fmtLeaf(field)
		if strings.Contains(x, "%(") {
			return errClass
		}
		put(s, ti.name, x, nil, ti.comment)
	}
	return nil
}

func put(s *wsec, n, v string, sh []string, comment string) {
	s.keys = append(s.keys, &wkey{name: n, val: v, shadows: sh, comment: comment})
}

// normalize empties nil/empty slice differences.
func sameValue(a, b reflect.Value) bool { return norm(a) == norm(b) }
func norm(v reflect.Value) string       { return dump(v) }

// clear zeroes what reflecting does not write (excluded, unexported, Refl).
func clearSkipped(f *ini.File, v reflect.Value) {
	if v.Type() == tTime {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			clearSkipped(f, v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearSkipped(f, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			x := v.Field(i)
			if !x.CanSet() {
				continue
			}
			ti := tagOf(f, v.Type().Field(i))
			if ti.skip || ti.name == "" || x.Type() == reflect.TypeOf(Refl{}) || ti.omitEmpty && empty(x) {
				x.Set(reflect.Zero(x.Type()))
				continue
			}
			clearSkipped(f, x)
		}
	}
}

func TestC21(t *testing.T) {
	search(t, "C21", func(c *C) {
		typ := c.typ(2, false)
		arg := reflect.New(typ)
		c.fillRandom(arg.Elem(), 2)
		o := ini.LoadOptions{AllowShadows: c.chance(2), AllowNonUniqueSections: c.chance(2), AllowDuplicateShadowValues: c.chance(3)}
		f := ini.Empty(o)
		switch c.Intn(4) {
		case 0:
			f.NameMapper = ini.SnackCase
		case 1:
			f.NameMapper = ini.TitleUnderscore
		}
		c.Logf("options %+v, type %s, value %s", o, typ, dump(arg.Elem()))
		if c.chance(20) {
			var bad interface{}
			switch c.Intn(6) {
			case 1:
				bad = 5
			case 2:
				bad = new(int)
			case 3:
				bad = reflect.Zero(reflect.PtrTo(typ)).Interface()
			case 4:
				bad = reflect.Zero(typ).Interface()
			case 5:
				bad = new(*Plain)
			}
			c.Logf("ReflectFrom(%T)", bad)
			c.Check(f.ReflectFrom(bad) != nil, "C21", "reflecting a %T is no error", bad)
			return
		}
		w := &wfile{secs: []*wsec{{name: "DEFAULT"}}}
		cls := wantReflect(f, w, w.secs[0], arg.Elem(), o, false)
		before := dump(arg.Elem())
		for _, n := range w.refl {
			for _, s := range w.secs {
				if s.name == n {
					cls = errClass
				}
				for _, k := range s.keys {
					if k.name == n {
						cls = errClass
					}
				}
			}
		}
		var err error
		switch k := c.Intn(6); {
		case k == 0 && f.NameMapper == nil:
			err = ini.ReflectFrom(f, arg.Interface())
		case k == 1:
			nm := f.NameMapper
			f.NameMapper = nil
			err = ini.ReflectFromWithMapper(f, arg.Interface(), nm)
		default:
			err = f.ReflectFrom(arg.Interface())
		}
		c.Check(before == dump(arg.Elem()), "C21", "reflecting changed the struct")
		if cls != nil {
			return
		}
		c.Check(err == nil, "C21", "ReflectFrom: %v", err)
		// what was written
		secs := f.Sections()
		var g, x []string
		for _, s := range secs {
			for _, k := range s.Keys() {
				g = append(g, fmt.Sprintf("[%s %q] %s=%q %q %q", s.Name(), s.Comment, k.Name(), k.Value(), k.ValueWithShadows(), k.Comment))
				c.Check(s.KeysHash()[k.Name()] == k.Value(), "C21", "KeysHash of %q is %q, value %q", k.Name(), s.KeysHash()[k.Name()], k.Value())
			}
		}
		for _, s := range w.secs {
			for _, k := range s.keys {
				vs := []string{}
				for _, v := range append([]string{k.val}, k.shadows...) {
					if v != "" {
						vs = append(vs, v)
					}
				}
				x = append(x, fmt.Sprintf("[%s %q] %s=%q %q %q", s.name, s.comment, k.name, k.val, vs, k.comment))
			}
		}
		c.nontriv = len(x) > 0
		c.Check(eqStrs(g, x), "C21", "reflected\n%s\nwant\n%s", strings.Join(g, "\n"), strings.Join(x, "\n"))
		if w.lost {
			return
		}
		// and back
		back := reflect.New(typ)
		err = f.MapTo(back.Interface())
		c.Check(err == nil, "C21", "mapping back: %v", err)
		want := deepCopy(arg.Elem())
		clearSkipped(f, want)
		clearSkipped(f, back.Elem())
		c.Check(sameValue(back.Elem(), want), "C21", "mapped back %s\nwant        %s", dump(back.Elem()), dump(want))
	})
}

func TestC24(t *testing.T) {
	search(t, "C24", func(c *C) {
		word := func() string {
			s := ""
			for i := 1 + c.Intn(6); i > 0; i-- {
				s += c.pick("A", "b", "C", "d", "X", "9", "é", "É", "_", "z", "Ab", "日", "\u01c6", "\u01c5", "\u00df", "\u017f", "\u0131")
			}
			return s
		}
		// the built-in mappers
		raw := word()
		up, low := "", ""
		for i, r := range raw {
			if 'A' <= r && r <= 'Z' {
				if i > 0 {
					up, low = up+"_", low+"_"
				}
				low += strings.ToLower(string(r))
			} else {
				low += string(r)
			}
			up += strings.ToUpper(string(r))
		}
		c.Logf("field name %q", raw)
		c.Check(ini.SnackCase(raw) == up, "C24", "SnackCase(%q) = %q, want %q", raw, ini.SnackCase(raw), up)
		c.Check(ini.TitleUnderscore(raw) == low, "C24", "TitleUnderscore(%q) = %q, want %q", raw, ini.TitleUnderscore(raw), low)

		// tags
		f := ini.Empty(ini.LoadOptions{AllowShadows: true, AllowNonUniqueSections: true})
		if c.chance(2) {
			f.NameMapper = func(s string) string { return "m" + s }
		}
		name := c.pick("", "", "k", "key", "-", "Field", " ", "é", "omitempty")
		tag := name
		var opts []string
		for i := c.Intn(8); i > 0; i-- {
			o := c.pick("omitempty", "allowshadow", "nonunique", "extends", "", "x", "Omitempty", "omitempty ", "-", "y")
			opts = append(opts, o)
			tag += "," + o
		}
		has := func(o string) bool {
			for _, x := range opts {
				if x == o {
					return true
				}
			}
			return false
		}
		delim := c.pick("", "|", ",", ";;")
		st := reflect.StructTag(fmt.Sprintf("ini:%q delim:%q", tag, delim))
		want := name
		if want == "" {
			want = "Field"
			if f.NameMapper != nil {
				want = "mField"
			}
		}
		if delim == "" {
			delim = ","
		}
		c.nontriv = true
		c.Logf("tag %q, mapper %v", st, f.NameMapper != nil)
		kind := c.Intn(4)
		var ft reflect.Type
		switch kind {
		case 0, 1:
			ft = reflect.TypeOf([]string{})
		case 2:
			ft = reflect.TypeOf("")
		case 3:
			ft = reflect.TypeOf([]Plain{})
		}
		typ := reflect.StructOf([]reflect.StructField{{Name: "Field", Type: ft, Tag: st}})
		v := reflect.New(typ)
		if tag == "-" {
			f.Section("").NewKey(want, "x")
			f.Section("").NewKey("Field", "x")
			f.Section("").NewKey("mField", "x")
			c.Check(f.MapTo(v.Interface()) == nil && v.Elem().IsZero(), "C24", "an excluded field was mapped")
			g := ini.Empty()
			c.Check(g.ReflectFrom(v.Interface()) == nil && len(g.Section("").Keys()) == 0 && len(g.Sections()) == 1, "C24", "an excluded field was written")
			return
		}
		switch kind {
		case 0, 1:
			// list: delimiter and shadows
			if has("nonunique") {
				return
			}
			k, _ := f.Section("").NewKey(want, "a"+delim+"b")
			k.AddShadow("c" + delim + "d")
			for _, n := range []string{"Field", "mField", "k", "key"} {
				if n != want {
					f.Section("").NewKey(n, "no")
				}
			}
			exp := "[a b]"
			if has("allowshadow") {
				exp = "[a b c d]"
			}
			err := f.MapTo(v.Interface())
			c.Check(err == nil && fmt.Sprint(v.Elem().Field(0)) == exp, "C24", "mapped %v (%v), want %s", v.Elem().Field(0), err, exp)
			g := ini.Empty(ini.LoadOptions{AllowShadows: true})
			g.NameMapper = f.NameMapper
			v.Elem().Field(0).Set(reflect.ValueOf([]string{"p", "q"}))
			err = g.ReflectFrom(v.Interface())
			exp = fmt.Sprintf("%q", []string{"p" + delim + "q"})
			if has("allowshadow") {
				exp = `["p" "q"]`
			}
			c.Check(err == nil && g.Section("").HasKey(want) && len(g.Section("").Keys()) == 1, "C24", "reflected keys %v (%v), want %q", g.Section("").KeyStrings(), err, want)
			got := fmt.Sprintf("%q", g.Section("").Key(want).ValueWithShadows())
			c.Check(got == exp, "C24", "reflected %s, want %s", got, exp)
		case 2:
			f.Section("").NewKey(want, "x")
			err := f.MapTo(v.Interface())
			c.Check(err == nil && v.Elem().Field(0).String() == "x", "C24", "mapped %v (%v), want x from %q", v.Elem().Field(0), err, want)
			v.Elem().Field(0).SetString(c.pick("", "v"))
			g := ini.Empty()
			g.NameMapper = f.NameMapper
			err = g.ReflectFrom(v.Interface())
			skip := has("omitempty") && v.Elem().Field(0).Len() == 0
			c.Check(err == nil && g.Section("").HasKey(want) == !skip, "C24", "reflected keys %v (%v); omitempty %v value %q", g.Section("").KeyStrings(), err, has("omitempty"), v.Elem().Field(0))
		case 3:
			for i := 0; i < 2; i++ {
				s, _ := f.NewSection(want)
				s.NewKey("Name", strconv.Itoa(i))
				s.NewKey("mName", strconv.Itoa(i))
			}
			err := f.MapTo(v.Interface())
			n := v.Elem().Field(0).Len()
			if has("nonunique") {
				c.Check(err == nil && n == 2 && v.Elem().Field(0).Index(1).Field(0).String() == "1", "C24", "mapped %s (%v)", dump(v.Elem()), err)
			} else {
				c.Check(err == nil && n == 0, "C24", "mapped %s (%v) without nonunique", dump(v.Elem()), err)
			}
		}
	})
}

var _ = math.NaN

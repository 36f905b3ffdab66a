// Reading a key: recursive substitution and typed access.

spec VARPAT() int = regexp("%\\(([^)]+)\\)s")

// the key a %(name)s reference inside key k denotes: same section (or its
// ancestors), else - also when that is k itself - the default section
spec defKey(f *File, o string) *Key = let d = f.sections[lookSec(f, "")] in if len(d) == 0 then nil else lookKey(d[0], o)
spec refKey(k *Key, o string) *Key =
  let a = lookKey(k.s, normKey(k.s.f, o)) in
  if a != nil && a != k then a else defKey(k.s.f, normKey(k.s.f, o))

rec subst(k *Key, v string, n int) string =
  if n <= 0 then v
  else let m = reFind(VARPAT(), v) in
    if m == "" then v
    else let t = refKey(k, m[2:len(m)-2]) in
      if t == nil then v else subst(k, s.replaceall(v, m, t.value), n - 1)

spec mapped(k *Key, v string) string = if k.s.f.ValueMapper == nil then v else apply(0, "string", k.s.f.ValueMapper, v)
spec xform(k *Key, v string) string = subst(k, mapped(k, v), 99)
spec kstr(k *Key) string = xform(k, k.value)

func (*Key).transformValue(k, val) (r)
  requires k.s.f.lock.st == 0
  loop 0:
    invariant k.s.f.lock.st == 0
    invariant 0 <= $i && $i <= 99
    invariant subst(k, val, 99 - $i) == subst(k, mapped(k, old(val)), 99)
    decreases 99 - $i
  end
  ensures [C07 subst] r == xform(k, val)

func (*Key).String(k) (r)
  requires k.s.f.lock.st == 0
  ensures [C07 value] r == kstr(k)

func (*Key).Validate(k, fn) (r)
  requires k.s.f.lock.st == 0
  requires fn != nil
  ensures [C08 validate] r == apply(0, "string", fn, kstr(k))

spec isTrue(s string) bool = s == "1" || s == "t" || s == "T" || s == "true" || s == "TRUE" || s == "True" || s == "YES" || s == "yes" || s == "Yes" || s == "y" || s == "ON" || s == "on" || s == "On"
spec isFalse(s string) bool = s == "0" || s == "f" || s == "F" || s == "false" || s == "FALSE" || s == "False" || s == "NO" || s == "no" || s == "No" || s == "n" || s == "OFF" || s == "off" || s == "Off"
func parseBool(str) (value, err)
  ensures [C08 bool] value == isTrue(str) && (err == nil <==> isTrue(str) || isFalse(str))

func (*Key).Bool(k) (v, err)
  requires k.s.f.lock.st == 0
  ensures [C08 bool] v == isTrue(kstr(k)) && (err == nil <==> isTrue(kstr(k)) || isFalse(kstr(k)))
func (*Key).Float64(k) (v, err)
  requires k.s.f.lock.st == 0
  ensures [C08 float] same(v, parseFloat(kstr(k), 64)) && err == parseFloatErr(kstr(k), 64)
func (*Key).Int(k) (v, err)
  requires k.s.f.lock.st == 0
  ensures [C08 int] v == parseInt(kstr(k), 0, 64) && err == parseIntErr(kstr(k), 0, 64)
func (*Key).Int64(k) (v, err)
  requires k.s.f.lock.st == 0
  ensures [C08 int64] v == parseInt(kstr(k), 0, 64) && err == parseIntErr(kstr(k), 0, 64)
func (*Key).Uint(k) (v, err)
  requires k.s.f.lock.st == 0
  ensures [C08 uint] v == parseUint(kstr(k), 0, 64) && err == parseUintErr(kstr(k), 0, 64)
func (*Key).Uint64(k) (v, err)
  requires k.s.f.lock.st == 0
  ensures [C08 uint64] v == parseUint(kstr(k), 0, 64) && err == parseUintErr(kstr(k), 0, 64)
func (*Key).Duration(k) (v, err)
  requires k.s.f.lock.st == 0
  ensures [C08 duration] v == parseDuration(kstr(k)) && err == parseDurationErr(kstr(k))
func (*Key).TimeFormat(k, format) (v, err)
  requires k.s.f.lock.st == 0
  ensures [C08 timeformat] v == parseTime(format, kstr(k)) && err == parseTimeErr(format, kstr(k))
func (*Key).Time(k) (v, err)
  requires k.s.f.lock.st == 0
  ensures [C08 time] v == parseTime("2006-01-02T15:04:05Z07:00", kstr(k)) && err == parseTimeErr("2006-01-02T15:04:05Z07:00", kstr(k))

func (*Key).MustBool(k, d) (r)
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C08 parsed] old((isTrue(kstr(k)) || isFalse(kstr(k)))) || len(d) == 0 ==> r == old(isTrue(kstr(k))) && k.value == old(k.value) && k.s.keysHash == old(k.s.keysHash)
  ensures [C08 default] !old((isTrue(kstr(k)) || isFalse(kstr(k)))) && len(d) > 0 ==> r == d[0] && k.value == fmtBool(d[0]) && k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, fmtBool(d[0])) else old(k.s.keysHash))

func (*Key).MustFloat64(k, d) (r)
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C08 parsed] old((parseFloatErr(kstr(k), 64) == nil)) || len(d) == 0 ==> same(r, old(parseFloat(kstr(k), 64))) && k.value == old(k.value) && k.s.keysHash == old(k.s.keysHash)
  ensures [C08 default] !old((parseFloatErr(kstr(k), 64) == nil)) && len(d) > 0 ==> same(r, d[0]) && k.value == fmtFloat(d[0]) && k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, fmtFloat(d[0])) else old(k.s.keysHash))

func (*Key).MustInt(k, d) (r)
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C08 parsed] old((parseIntErr(kstr(k), 0, 64) == nil)) || len(d) == 0 ==> r == old(parseInt(kstr(k), 0, 64)) && k.value == old(k.value) && k.s.keysHash == old(k.s.keysHash)
  ensures [C08 default] !old((parseIntErr(kstr(k), 0, 64) == nil)) && len(d) > 0 ==> r == d[0] && k.value == fmtInt(d[0], 10) && k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, fmtInt(d[0], 10)) else old(k.s.keysHash))

func (*Key).MustInt64(k, d) (r)
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C08 parsed] old((parseIntErr(kstr(k), 0, 64) == nil)) || len(d) == 0 ==> r == old(parseInt(kstr(k), 0, 64)) && k.value == old(k.value) && k.s.keysHash == old(k.s.keysHash)
  ensures [C08 default] !old((parseIntErr(kstr(k), 0, 64) == nil)) && len(d) > 0 ==> r == d[0] && k.value == fmtInt(d[0], 10) && k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, fmtInt(d[0], 10)) else old(k.s.keysHash))

func (*Key).MustUint(k, d) (r)
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C08 parsed] old((parseUintErr(kstr(k), 0, 64) == nil)) || len(d) == 0 ==> r == old(parseUint(kstr(k), 0, 64)) && k.value == old(k.value) && k.s.keysHash == old(k.s.keysHash)
  ensures [C08 default] !old((parseUintErr(kstr(k), 0, 64) == nil)) && len(d) > 0 ==> r == d[0] && k.value == fmtUint(d[0], 10) && k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, fmtUint(d[0], 10)) else old(k.s.keysHash))

func (*Key).MustUint64(k, d) (r)
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C08 parsed] old((parseUintErr(kstr(k), 0, 64) == nil)) || len(d) == 0 ==> r == old(parseUint(kstr(k), 0, 64)) && k.value == old(k.value) && k.s.keysHash == old(k.s.keysHash)
  ensures [C08 default] !old((parseUintErr(kstr(k), 0, 64) == nil)) && len(d) > 0 ==> r == d[0] && k.value == fmtUint(d[0], 10) && k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, fmtUint(d[0], 10)) else old(k.s.keysHash))

func (*Key).MustDuration(k, d) (r)
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C08 parsed] old((parseDurationErr(kstr(k)) == nil)) || len(d) == 0 ==> r == old(parseDuration(kstr(k))) && k.value == old(k.value) && k.s.keysHash == old(k.s.keysHash)
  ensures [C08 default] !old((parseDurationErr(kstr(k)) == nil)) && len(d) > 0 ==> r == d[0] && k.value == fmtDuration(d[0]) && k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, fmtDuration(d[0])) else old(k.s.keysHash))

func (*Key).MustTimeFormat(k, format, d) (r)
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C08 parsed] old((parseTimeErr(format, kstr(k)) == nil)) || len(d) == 0 ==> r == old(parseTime(format, kstr(k))) && k.value == old(k.value) && k.s.keysHash == old(k.s.keysHash)
  ensures [C08 default] !old((parseTimeErr(format, kstr(k)) == nil)) && len(d) > 0 ==> r == d[0] && k.value == fmtTime(d[0], format) && k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, fmtTime(d[0], format)) else old(k.s.keysHash))

func (*Key).MustTime(k, d) (r)
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C08 parsed] old((parseTimeErr("2006-01-02T15:04:05Z07:00", kstr(k)) == nil)) || len(d) == 0 ==> r == old(parseTime("2006-01-02T15:04:05Z07:00", kstr(k))) && k.value == old(k.value) && k.s.keysHash == old(k.s.keysHash)
  ensures [C08 default] !old((parseTimeErr("2006-01-02T15:04:05Z07:00", kstr(k)) == nil)) && len(d) > 0 ==> r == d[0] && k.value == fmtTime(d[0], "2006-01-02T15:04:05Z07:00") && k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, fmtTime(d[0], "2006-01-02T15:04:05Z07:00")) else old(k.s.keysHash))

func (*Key).MustString(k, d) (r)
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C08 parsed] old(kstr(k)) != "" ==> r == old(kstr(k)) && k.value == old(k.value) && k.s.keysHash == old(k.s.keysHash)
  ensures [C08 default] old(kstr(k)) == "" ==> r == d && k.value == d && k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, d) else old(k.s.keysHash))

func (*Key).In(k, d, c) (r)
  requires k.s.f.lock.st == 0
  loop 0:
    invariant forall j int :: {c[j]} 0 <= j && j < $i ==> !(c[j] == kstr(k))
  end
  ensures [C08 in] true && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == kstr(k)) ==> r == kstr(k)
  ensures [C08 notin] !(true && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == kstr(k))) ==> r == d

func (*Key).InFloat64(k, d, c) (r)
  requires k.s.f.lock.st == 0
  loop 0:
    invariant forall j int :: {c[j]} 0 <= j && j < $i ==> !(c[j] == parseFloat(kstr(k), 64))
  end
  ensures [C08 in] parseFloatErr(kstr(k), 64) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == parseFloat(kstr(k), 64)) ==> same(r, parseFloat(kstr(k), 64))
  ensures [C08 notin] !(parseFloatErr(kstr(k), 64) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == parseFloat(kstr(k), 64))) ==> same(r, d)

func (*Key).InInt(k, d, c) (r)
  requires k.s.f.lock.st == 0
  loop 0:
    invariant forall j int :: {c[j]} 0 <= j && j < $i ==> !(c[j] == parseInt(kstr(k), 0, 64))
  end
  ensures [C08 in] parseIntErr(kstr(k), 0, 64) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == parseInt(kstr(k), 0, 64)) ==> r == parseInt(kstr(k), 0, 64)
  ensures [C08 notin] !(parseIntErr(kstr(k), 0, 64) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == parseInt(kstr(k), 0, 64))) ==> r == d

func (*Key).InInt64(k, d, c) (r)
  requires k.s.f.lock.st == 0
  loop 0:
    invariant forall j int :: {c[j]} 0 <= j && j < $i ==> !(c[j] == parseInt(kstr(k), 0, 64))
  end
  ensures [C08 in] parseIntErr(kstr(k), 0, 64) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == parseInt(kstr(k), 0, 64)) ==> r == parseInt(kstr(k), 0, 64)
  ensures [C08 notin] !(parseIntErr(kstr(k), 0, 64) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == parseInt(kstr(k), 0, 64))) ==> r == d

func (*Key).InUint(k, d, c) (r)
  requires k.s.f.lock.st == 0
  loop 0:
    invariant forall j int :: {c[j]} 0 <= j && j < $i ==> !(c[j] == parseUint(kstr(k), 0, 64))
  end
  ensures [C08 in] parseUintErr(kstr(k), 0, 64) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == parseUint(kstr(k), 0, 64)) ==> r == parseUint(kstr(k), 0, 64)
  ensures [C08 notin] !(parseUintErr(kstr(k), 0, 64) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == parseUint(kstr(k), 0, 64))) ==> r == d

func (*Key).InUint64(k, d, c) (r)
  requires k.s.f.lock.st == 0
  loop 0:
    invariant forall j int :: {c[j]} 0 <= j && j < $i ==> !(c[j] == parseUint(kstr(k), 0, 64))
  end
  ensures [C08 in] parseUintErr(kstr(k), 0, 64) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == parseUint(kstr(k), 0, 64)) ==> r == parseUint(kstr(k), 0, 64)
  ensures [C08 notin] !(parseUintErr(kstr(k), 0, 64) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && c[j] == parseUint(kstr(k), 0, 64))) ==> r == d

func (*Key).InTimeFormat(k, format, d, c) (r)
  requires k.s.f.lock.st == 0
  loop 0:
    invariant forall j int :: {c[j]} 0 <= j && j < $i ==> !(timeInstant(c[j]) == timeInstant(parseTime(format, kstr(k))))
  end
  ensures [C08 in] parseTimeErr(format, kstr(k)) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && timeInstant(c[j]) == timeInstant(parseTime(format, kstr(k)))) ==> r == parseTime(format, kstr(k))
  ensures [C08 notin] !(parseTimeErr(format, kstr(k)) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && timeInstant(c[j]) == timeInstant(parseTime(format, kstr(k))))) ==> r == d

func (*Key).InTime(k, d, c) (r)
  requires k.s.f.lock.st == 0
  ensures [C08 in] parseTimeErr("2006-01-02T15:04:05Z07:00", kstr(k)) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && timeInstant(c[j]) == timeInstant(parseTime("2006-01-02T15:04:05Z07:00", kstr(k)))) ==> r == parseTime("2006-01-02T15:04:05Z07:00", kstr(k))
  ensures [C08 notin] !(parseTimeErr("2006-01-02T15:04:05Z07:00", kstr(k)) == nil && (exists j int :: {c[j]} 0 <= j && j < len(c) && timeInstant(c[j]) == timeInstant(parseTime("2006-01-02T15:04:05Z07:00", kstr(k))))) ==> r == d

func (*Key).RangeInt(k, d, min, max) (r)
  requires k.s.f.lock.st == 0
  ensures [C08 range] r == (if min <= parseInt(kstr(k), 0, 64) && parseInt(kstr(k), 0, 64) <= max then parseInt(kstr(k), 0, 64) else d)

func (*Key).RangeInt64(k, d, min, max) (r)
  requires k.s.f.lock.st == 0
  ensures [C08 range] r == (if min <= parseInt(kstr(k), 0, 64) && parseInt(kstr(k), 0, 64) <= max then parseInt(kstr(k), 0, 64) else d)

func (*Key).RangeFloat64(k, d, min, max) (r)
  requires k.s.f.lock.st == 0
  ensures [C08 range] same(r, if fplt(parseFloat(kstr(k), 64), min) || fplt(max, parseFloat(kstr(k), 64)) then d else parseFloat(kstr(k), 64))

func (*Key).RangeTimeFormat(k, format, d, min, max) (r)
  requires k.s.f.lock.st == 0
  ensures [C08 range] r == (if timeInstant(min) <= timeInstant(parseTime(format, kstr(k))) && timeInstant(parseTime(format, kstr(k))) <= timeInstant(max) then parseTime(format, kstr(k)) else d)

func (*Key).RangeTime(k, d, min, max) (r)
  requires k.s.f.lock.st == 0
  ensures [C08 range] r == (if timeInstant(min) <= timeInstant(parseTime("2006-01-02T15:04:05Z07:00", kstr(k))) && timeInstant(parseTime("2006-01-02T15:04:05Z07:00", kstr(k))) <= timeInstant(max) then parseTime("2006-01-02T15:04:05Z07:00", kstr(k)) else d)

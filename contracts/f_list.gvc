// Splitting values and typed lists.

spec delimAt(rs []rune, d string, i int) bool = len(d) > 0 && s.prefix(s.ofrunes(rs[i:]), d)

// What is still to come when the splitter stands before rune i of rs: esc says
// that the previous rune was an unescaped backslash, buf is the piece so far.
rec splitAt(rs []rune, d string, i int, esc bool, buf string, acc []string) []string =
  if i >= len(rs) then (let b = (if esc then buf + s.ofrune('\\') else buf) in if b == "" then acc else snoc(acc, s.trim(b)))
  else if esc then
    (if rs[i] != '\\' && !delimAt(rs, d, i) then splitAt(rs, d, i + 1, false, buf + s.ofrune('\\') + s.ofrune(rs[i]), acc)
     else splitAt(rs, d, i + 1, false, buf + s.ofrune(rs[i]), acc))
  else if rs[i] == '\\' then splitAt(rs, d, i + 1, true, buf, acc)
  else if delimAt(rs, d, i) then splitAt(rs, d, i + len(s.runes(d)), false, "", snoc(acc, s.trim(buf)))
  else splitAt(rs, d, i + 1, false, buf + s.ofrune(rs[i]), acc)

// the pieces of s
def pieces(s string, d string) []string = if s == "" then empty("[]string") else splitAt(s.runes(s), d, 0, false, "", empty("[]string"))

func (*Key).Strings(k, delim) (r)
  requires k.s.f.lock.st == 0

  allocates bytes.Buffer
  loop 0:
    decreases len(runes) - idx
    invariant 0 <= idx && idx < len(runes)
    invariant runes == s.runes(str)
    invariant splitAt(runes, delim, idx, escape, buf.content, vals) == splitAt(runes, delim, 0, false, "", empty("[]string"))
  end
  ensures [C10 pieces] r == pieces(kstr(k), delim)

// the pieces of the first n values
rec splitAll(l []string, d string, n int) []string = if n <= 0 then empty("[]string") else splitAll(l, d, n - 1) ++ s.split(l[n-1], d)

func (*Key).StringsWithShadows(k, delim) (r)
  requires k.s.f.lock.st == 0
  loop 0:
    invariant results == splitAll(vals, delim, $i)
  end
  loop 1:
    invariant len(results) == len(splitAll(shadowVals(k, len(k.shadows) + 1), delim, len(shadowVals(k, len(k.shadows) + 1))))
    invariant forall j int :: {results[j]} 0 <= j && j < len(results) ==> results[j] == (if j < $i then xform(k, s.trim(splitAll(shadowVals(k, len(k.shadows) + 1), delim, len(shadowVals(k, len(k.shadows) + 1)))[j])) else splitAll(shadowVals(k, len(k.shadows) + 1), delim, len(shadowVals(k, len(k.shadows) + 1)))[j])
  end
  ensures [C10 shadows] len(r) == len(splitAll(shadowVals(k, len(k.shadows) + 1), delim, len(shadowVals(k, len(k.shadows) + 1))))
  ensures [C10 shadowpieces] forall j int :: {r[j]} 0 <= j && j < len(r) ==> r[j] == xform(k, s.trim(splitAll(shadowVals(k, len(k.shadows) + 1), delim, len(shadowVals(k, len(k.shadows) + 1)))[j]))

// the values p gives for l[:n], with (ai) or without those it rejects
rec parsed(p Parser, l []string, ai bool, n int) []any =
  if n <= 0 then empty("[]any")
  else if ai || apply(1, "error", p, l[n-1]) == nil then snoc(parsed(p, l, ai, n - 1), apply(0, "any", p, l[n-1]))
  else parsed(p, l, ai, n - 1)

func (*Key).doParse(k, strs, addInvalid, returnOnInvalid, pf) (r, err)
  requires pf != nil
  loop 0:
    invariant vals == parsed(pf, strs, addInvalid, $i)
    invariant returnOnInvalid ==> forall j int :: {strs[j]} 0 <= j && j < $i ==> apply(1, "error", pf, strs[j]) == nil
  end
  ensures [C09 strict] err != nil <==> returnOnInvalid && exists j int :: {strs[j]} 0 <= j && j < len(strs) && apply(1, "error", pf, strs[j]) != nil
  ensures [C09 values] err == nil ==> r == parsed(pf, strs, addInvalid, len(strs))

rec listBool(l []string, ai bool, n int) []bool =
  if n <= 0 then empty("[]bool")
  else if ai || (isTrue(l[n-1]) || isFalse(l[n-1])) then snoc(listBool(l, ai, n - 1), isTrue(l[n-1]))
  else listBool(l, ai, n - 1)
lemma parsedBool(p Parser, l []string, ai bool, n int)
  requires 0 <= n && n <= len(l)
  requires forall x string :: {apply(0, "any", p, x)} apply(0, "any", p, x) == box(isTrue(x), "bool")
  requires forall x string :: {apply(1, "error", p, x)} apply(1, "error", p, x) == nil <==> (isTrue(x) || isFalse(x))
  ensures len(parsed(p, l, ai, n)) == len(listBool(l, ai, n))
  ensures forall j int :: {listBool(l, ai, n)[j]} {parsed(p, l, ai, n)[j]} 0 <= j && j < len(listBool(l, ai, n)) ==> parsed(p, l, ai, n)[j] == box(listBool(l, ai, n)[j], "bool")
  decreases n
  proof { if n > 0 { parsedBool(p, l, ai, n - 1) } }

rec listFloat64(l []string, ai bool, n int) []float64 =
  if n <= 0 then empty("[]float64")
  else if ai || parseFloatErr(l[n-1], 64) == nil then snoc(listFloat64(l, ai, n - 1), parseFloat(l[n-1], 64))
  else listFloat64(l, ai, n - 1)
lemma parsedFloat64(p Parser, l []string, ai bool, n int)
  requires 0 <= n && n <= len(l)
  requires forall x string :: {apply(0, "any", p, x)} apply(0, "any", p, x) == box(parseFloat(x, 64), "float64")
  requires forall x string :: {apply(1, "error", p, x)} apply(1, "error", p, x) == nil <==> parseFloatErr(x, 64) == nil
  ensures len(parsed(p, l, ai, n)) == len(listFloat64(l, ai, n))
  ensures forall j int :: {listFloat64(l, ai, n)[j]} {parsed(p, l, ai, n)[j]} 0 <= j && j < len(listFloat64(l, ai, n)) ==> parsed(p, l, ai, n)[j] == box(listFloat64(l, ai, n)[j], "float64")
  decreases n
  proof { if n > 0 { parsedFloat64(p, l, ai, n - 1) } }

rec listInt(l []string, ai bool, n int) []int64 =
  if n <= 0 then empty("[]int64")
  else if ai || parseIntErr(l[n-1], 0, 64) == nil then snoc(listInt(l, ai, n - 1), parseInt(l[n-1], 0, 64))
  else listInt(l, ai, n - 1)
lemma parsedInt(p Parser, l []string, ai bool, n int)
  requires 0 <= n && n <= len(l)
  requires forall x string :: {apply(0, "any", p, x)} apply(0, "any", p, x) == box(parseInt(x, 0, 64), "int64")
  requires forall x string :: {apply(1, "error", p, x)} apply(1, "error", p, x) == nil <==> parseIntErr(x, 0, 64) == nil
  ensures len(parsed(p, l, ai, n)) == len(listInt(l, ai, n))
  ensures forall j int :: {listInt(l, ai, n)[j]} {parsed(p, l, ai, n)[j]} 0 <= j && j < len(listInt(l, ai, n)) ==> parsed(p, l, ai, n)[j] == box(listInt(l, ai, n)[j], "int64")
  decreases n
  proof { if n > 0 { parsedInt(p, l, ai, n - 1) } }

rec listUint(l []string, ai bool, n int) []uint64 =
  if n <= 0 then empty("[]uint64")
  else if ai || parseUintErr(l[n-1], 0, 64) == nil then snoc(listUint(l, ai, n - 1), parseUint(l[n-1], 0, 64))
  else listUint(l, ai, n - 1)
lemma parsedUint(p Parser, l []string, ai bool, n int)
  requires 0 <= n && n <= len(l)
  requires forall x string :: {apply(0, "any", p, x)} apply(0, "any", p, x) == box(parseUint(x, 0, 64), "uint64")
  requires forall x string :: {apply(1, "error", p, x)} apply(1, "error", p, x) == nil <==> parseUintErr(x, 0, 64) == nil
  ensures len(parsed(p, l, ai, n)) == len(listUint(l, ai, n))
  ensures forall j int :: {listUint(l, ai, n)[j]} {parsed(p, l, ai, n)[j]} 0 <= j && j < len(listUint(l, ai, n)) ==> parsed(p, l, ai, n)[j] == box(listUint(l, ai, n)[j], "uint64")
  decreases n
  proof { if n > 0 { parsedUint(p, l, ai, n - 1) } }

rec listTime(f string, l []string, ai bool, n int) []time.Time =
  if n <= 0 then empty("[]time.Time")
  else if ai || parseTimeErr(f, l[n-1]) == nil then snoc(listTime(f, l, ai, n - 1), parseTime(f, l[n-1]))
  else listTime(f, l, ai, n - 1)
lemma parsedTime(f string, p Parser, l []string, ai bool, n int)
  requires 0 <= n && n <= len(l)
  requires forall x string :: {apply(0, "any", p, x)} apply(0, "any", p, x) == box(parseTime(f, x), "time.Time")
  requires forall x string :: {apply(1, "error", p, x)} apply(1, "error", p, x) == nil <==> parseTimeErr(f, x) == nil
  ensures len(parsed(p, l, ai, n)) == len(listTime(f, l, ai, n))
  ensures forall j int :: {listTime(f, l, ai, n)[j]} {parsed(p, l, ai, n)[j]} 0 <= j && j < len(listTime(f, l, ai, n)) ==> parsed(p, l, ai, n)[j] == box(listTime(f, l, ai, n)[j], "time.Time")
  decreases n
  proof { if n > 0 { parsedTime(f, p, l, ai, n - 1) } }

func (*Key).parseBools(k, strs, addInvalid, returnOnInvalid) (r, err)
  hint after@doParse parsedBool(c_pf, c_strs, c_addInvalid, len(c_strs))
  loop 0:
    invariant len(vals) == $i
    invariant forall j int :: {vals[j]} 0 <= j && j < $i ==> same(vals[j], listBool(strs, addInvalid, len(strs))[j])
  end
  ensures [C09 strict] err != nil <==> returnOnInvalid && exists j int :: {strs[j]} 0 <= j && j < len(strs) && !((isTrue(strs[j]) || isFalse(strs[j])))
  ensures [C09 values] err == nil ==> r == listBool(strs, addInvalid, len(strs))

func (*Key).Bools(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 all] r == listBool(pieces(kstr(k), delim), true, len(pieces(kstr(k), delim)))

func (*Key).ValidBools(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 valid] r == listBool(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).StrictBools(k, delim) (r, err)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 strict] err != nil <==> exists j int :: {pieces(kstr(k), delim)[j]} 0 <= j && j < len(pieces(kstr(k), delim)) && !((isTrue(pieces(kstr(k), delim)[j]) || isFalse(pieces(kstr(k), delim)[j])))
  ensures [C09 values] err == nil ==> r == listBool(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).parseFloat64s(k, strs, addInvalid, returnOnInvalid) (r, err)
  hint after@doParse parsedFloat64(c_pf, c_strs, c_addInvalid, len(c_strs))
  loop 0:
    invariant len(vals) == $i
    invariant forall j int :: {vals[j]} 0 <= j && j < $i ==> same(vals[j], listFloat64(strs, addInvalid, len(strs))[j])
  end
  ensures [C09 strict] err != nil <==> returnOnInvalid && exists j int :: {strs[j]} 0 <= j && j < len(strs) && !(parseFloatErr(strs[j], 64) == nil)
  ensures [C09 values] err == nil ==> r == listFloat64(strs, addInvalid, len(strs))

func (*Key).Float64s(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 all] r == listFloat64(pieces(kstr(k), delim), true, len(pieces(kstr(k), delim)))

func (*Key).ValidFloat64s(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 valid] r == listFloat64(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).StrictFloat64s(k, delim) (r, err)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 strict] err != nil <==> exists j int :: {pieces(kstr(k), delim)[j]} 0 <= j && j < len(pieces(kstr(k), delim)) && !(parseFloatErr(pieces(kstr(k), delim)[j], 64) == nil)
  ensures [C09 values] err == nil ==> r == listFloat64(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).parseInts(k, strs, addInvalid, returnOnInvalid) (r, err)
  hint after@doParse parsedInt(c_pf, c_strs, c_addInvalid, len(c_strs))
  loop 0:
    invariant len(vals) == $i
    invariant forall j int :: {vals[j]} 0 <= j && j < $i ==> same(vals[j], listInt(strs, addInvalid, len(strs))[j])
  end
  ensures [C09 strict] err != nil <==> returnOnInvalid && exists j int :: {strs[j]} 0 <= j && j < len(strs) && !(parseIntErr(strs[j], 0, 64) == nil)
  ensures [C09 values] err == nil ==> r == listInt(strs, addInvalid, len(strs))

func (*Key).Ints(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 all] r == listInt(pieces(kstr(k), delim), true, len(pieces(kstr(k), delim)))

func (*Key).ValidInts(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 valid] r == listInt(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).StrictInts(k, delim) (r, err)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 strict] err != nil <==> exists j int :: {pieces(kstr(k), delim)[j]} 0 <= j && j < len(pieces(kstr(k), delim)) && !(parseIntErr(pieces(kstr(k), delim)[j], 0, 64) == nil)
  ensures [C09 values] err == nil ==> r == listInt(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).parseInt64s(k, strs, addInvalid, returnOnInvalid) (r, err)
  hint after@doParse parsedInt(c_pf, c_strs, c_addInvalid, len(c_strs))
  loop 0:
    invariant len(vals) == $i
    invariant forall j int :: {vals[j]} 0 <= j && j < $i ==> same(vals[j], listInt(strs, addInvalid, len(strs))[j])
  end
  ensures [C09 strict] err != nil <==> returnOnInvalid && exists j int :: {strs[j]} 0 <= j && j < len(strs) && !(parseIntErr(strs[j], 0, 64) == nil)
  ensures [C09 values] err == nil ==> r == listInt(strs, addInvalid, len(strs))

func (*Key).Int64s(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 all] r == listInt(pieces(kstr(k), delim), true, len(pieces(kstr(k), delim)))

func (*Key).ValidInt64s(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 valid] r == listInt(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).StrictInt64s(k, delim) (r, err)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 strict] err != nil <==> exists j int :: {pieces(kstr(k), delim)[j]} 0 <= j && j < len(pieces(kstr(k), delim)) && !(parseIntErr(pieces(kstr(k), delim)[j], 0, 64) == nil)
  ensures [C09 values] err == nil ==> r == listInt(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).parseUints(k, strs, addInvalid, returnOnInvalid) (r, err)
  hint after@doParse parsedUint(c_pf, c_strs, c_addInvalid, len(c_strs))
  loop 0:
    invariant len(vals) == $i
    invariant forall j int :: {vals[j]} 0 <= j && j < $i ==> same(vals[j], listUint(strs, addInvalid, len(strs))[j])
  end
  ensures [C09 strict] err != nil <==> returnOnInvalid && exists j int :: {strs[j]} 0 <= j && j < len(strs) && !(parseUintErr(strs[j], 0, 64) == nil)
  ensures [C09 values] err == nil ==> r == listUint(strs, addInvalid, len(strs))

func (*Key).Uints(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 all] r == listUint(pieces(kstr(k), delim), true, len(pieces(kstr(k), delim)))

func (*Key).ValidUints(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 valid] r == listUint(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).StrictUints(k, delim) (r, err)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 strict] err != nil <==> exists j int :: {pieces(kstr(k), delim)[j]} 0 <= j && j < len(pieces(kstr(k), delim)) && !(parseUintErr(pieces(kstr(k), delim)[j], 0, 64) == nil)
  ensures [C09 values] err == nil ==> r == listUint(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).parseUint64s(k, strs, addInvalid, returnOnInvalid) (r, err)
  hint after@doParse parsedUint(c_pf, c_strs, c_addInvalid, len(c_strs))
  loop 0:
    invariant len(vals) == $i
    invariant forall j int :: {vals[j]} 0 <= j && j < $i ==> same(vals[j], listUint(strs, addInvalid, len(strs))[j])
  end
  ensures [C09 strict] err != nil <==> returnOnInvalid && exists j int :: {strs[j]} 0 <= j && j < len(strs) && !(parseUintErr(strs[j], 0, 64) == nil)
  ensures [C09 values] err == nil ==> r == listUint(strs, addInvalid, len(strs))

func (*Key).Uint64s(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 all] r == listUint(pieces(kstr(k), delim), true, len(pieces(kstr(k), delim)))

func (*Key).ValidUint64s(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 valid] r == listUint(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).StrictUint64s(k, delim) (r, err)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 strict] err != nil <==> exists j int :: {pieces(kstr(k), delim)[j]} 0 <= j && j < len(pieces(kstr(k), delim)) && !(parseUintErr(pieces(kstr(k), delim)[j], 0, 64) == nil)
  ensures [C09 values] err == nil ==> r == listUint(pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).parseTimesFormat(k, format, strs, addInvalid, returnOnInvalid) (r, err)
  hint after@doParse parsedTime(format, c_pf, c_strs, c_addInvalid, len(c_strs))
  loop 0:
    invariant len(vals) == $i
    invariant forall j int :: {vals[j]} 0 <= j && j < $i ==> same(vals[j], listTime(format, strs, addInvalid, len(strs))[j])
  end
  ensures [C09 strict] err != nil <==> returnOnInvalid && exists j int :: {strs[j]} 0 <= j && j < len(strs) && !(parseTimeErr(format, strs[j]) == nil)
  ensures [C09 values] err == nil ==> r == listTime(format, strs, addInvalid, len(strs))

func (*Key).TimesFormat(k, format, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 all] r == listTime(format, pieces(kstr(k), delim), true, len(pieces(kstr(k), delim)))

func (*Key).ValidTimesFormat(k, format, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 valid] r == listTime(format, pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).StrictTimesFormat(k, format, delim) (r, err)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 strict] err != nil <==> exists j int :: {pieces(kstr(k), delim)[j]} 0 <= j && j < len(pieces(kstr(k), delim)) && !(parseTimeErr(format, pieces(kstr(k), delim)[j]) == nil)
  ensures [C09 values] err == nil ==> r == listTime(format, pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).Times(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 all] r == listTime("2006-01-02T15:04:05Z07:00", pieces(kstr(k), delim), true, len(pieces(kstr(k), delim)))

func (*Key).ValidTimes(k, delim) (r)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 valid] r == listTime("2006-01-02T15:04:05Z07:00", pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))

func (*Key).StrictTimes(k, delim) (r, err)
  requires k.s.f.lock.st == 0
  allocates bytes.Buffer
  ensures [C09 strict] err != nil <==> exists j int :: {pieces(kstr(k), delim)[j]} 0 <= j && j < len(pieces(kstr(k), delim)) && !(parseTimeErr("2006-01-02T15:04:05Z07:00", pieces(kstr(k), delim)[j]) == nil)
  ensures [C09 values] err == nil ==> r == listTime("2006-01-02T15:04:05Z07:00", pieces(kstr(k), delim), false, len(pieces(kstr(k), delim)))


// Struct mapping and reflection.

// ---- tags and names ----
def tagHas(tag string, o string) bool = exists j int :: {s.split(tag, ",")[j]} 1 <= j && j < len(s.split(tag, ",")) && s.split(tag, ",")[j] == o

func parseTagOptions(tag) (rawName, omitEmpty, allowShadow, allowNonUnique, extends)
  flags pure
  loop 0:
    invariant rawName == s.split(tag, ",")[0]
    invariant omitEmpty <==> exists j int :: {s.split(tag, ",")[j]} 1 <= j && j <= $i && s.split(tag, ",")[j] == "omitempty"
    invariant allowShadow <==> exists j int :: {s.split(tag, ",")[j]} 1 <= j && j <= $i && s.split(tag, ",")[j] == "allowshadow"
    invariant allowNonUnique <==> exists j int :: {s.split(tag, ",")[j]} 1 <= j && j <= $i && s.split(tag, ",")[j] == "nonunique"
    invariant extends <==> exists j int :: {s.split(tag, ",")[j]} 1 <= j && j <= $i && s.split(tag, ",")[j] == "extends"
  end
  ensures [C24 tagname] rawName == s.split(tag, ",")[0]
  ensures [C24 omitempty] omitEmpty <==> tagHas(tag, "omitempty")
  ensures [C24 allowshadow] allowShadow <==> tagHas(tag, "allowshadow")
  ensures [C24 nonunique] allowNonUnique <==> tagHas(tag, "nonunique")
  ensures [C24 extends] extends <==> tagHas(tag, "extends")

func parseDelim(actual) (r)
  flags pure
  ensures [C24 delim] r == (if actual == "" then "," else actual)

func (*Section).parseFieldName(s, raw, actual) (r)
  flags pure
  ensures [C24 name] r == (if actual != "" then actual else if s.f.NameMapper == nil then raw else apply(0, "string", s.f.NameMapper, raw))

def isUpperAZ(c int) bool = 65 <= c && c <= 90
// the first n characters of raw in upper case, an underscore before every letter A to Z but the first character
rec snack(raw string, n int) []int =
  if n <= 0 then empty("[]int")
  else let c = s.runes(raw)[n-1] in
    if isUpperAZ(c) && n > 1 then snoc(snoc(snack(raw, n - 1), 95), uniUpper(c)) else snoc(snack(raw, n - 1), uniUpper(c))
rec titleUnder(raw string, n int) []int =
  if n <= 0 then empty("[]int")
  else let c = s.runes(raw)[n-1] in
    let d = (if isUpperAZ(c) then c + 32 else c) in
    if isUpperAZ(c) && n > 1 then snoc(snoc(titleUnder(raw, n - 1), 95), d) else snoc(titleUnder(raw, n - 1), d)

func SnackCase(raw) (r)
  flags pure
  loop 0:
    invariant newstr == snack(raw, $i)
  end
  ensures [C24 snack] r == s.ofrunes(snack(raw, len(s.runes(raw))))

func TitleUnderscore(raw) (r)
  flags pure
  loop 0:
    invariant newstr == titleUnder(raw, $i)
  end
  ensures [C24 title] r == s.ofrunes(titleUnder(raw, len(s.runes(raw))))

func wrapStrictError(err, isStrict) (r)
  flags pure
  ensures [C20 strict] r == (if isStrict then err else nil)

// ---- mapping one key ----
def base(T reflect.Type) reflect.Type = if rkind(T) == 22 then relem(T) else T
def isDur(V reflect.Type) bool = rkind(V) == 6 && rname(V) == "Duration"
def scalar(V reflect.Type) bool = rkind(V) == 24 || rkind(V) == 1 || isIntK(rkind(V)) || rkind(V) == 7 || rkind(V) == 9 || rkind(V) == 10 || rkind(V) == 11 || isFloatK(rkind(V)) || V == RTIME()
def uintDur(V reflect.Type, s string) bool = parseDurationErr(s) == nil && parseDuration(s) > 0 && fitsUint(rbits(V), parseDuration(s))
// whether the text s converts to the type V
def convOK(V reflect.Type, s string) bool =
  if rkind(V) == 24 then true
  else if rkind(V) == 1 then isTrue(s) || isFalse(s)
  else if isDur(V) then parseDurationErr(s) == nil || parseIntErr(s, 0, 64) == nil
  else if isIntK(rkind(V)) then parseIntErr(s, 0, rbits(V)) == nil
  else if isUintK(rkind(V)) then uintDur(V, s) || parseUintErr(s, 0, rbits(V)) == nil
  else if isFloatK(rkind(V)) then parseFloatErr(s, rbits(V)) == nil
  else parseTimeErr("2006-01-02T15:04:05Z07:00", s) == nil
// what it converts to
def convTo(V reflect.Type, s string) any =
  if rkind(V) == 24 then box(s, "string")
  else if rkind(V) == 1 then box(isTrue(s), "bool")
  else if isDur(V) then (if parseDurationErr(s) == nil then box(parseDuration(s), "int64") else box(parseInt(s, 0, 64), "int64"))
  else if isIntK(rkind(V)) then box(parseInt(s, 0, rbits(V)), "int64")
  else if isUintK(rkind(V)) then (if uintDur(V, s) then box(parseDuration(s), "uint64") else box(parseUint(s, 0, rbits(V)), "uint64"))
  else if isFloatK(rkind(V)) then box(parseFloat(s, rbits(V)), "float64")
  else box(parseTime("2006-01-02T15:04:05Z07:00", s), "time.Time")
// an empty text and a zero duration leave a field that is not a pointer
def keepOld(T reflect.Type, s string) bool = rkind(T) == 24 && s == "" || isDur(T) && parseDurationErr(s) == nil && parseDuration(s) == 0

// ---- mapping a list ----
def strLen(k *Key, d string, sh bool) int = if sh then len(splitAll(shadowVals(k, len(k.shadows) + 1), d, len(shadowVals(k, len(k.shadows) + 1)))) else len(pieces(kstr(k), d))
def strAt(k *Key, d string, sh bool, j int) string = if sh then xform(k, s.trim(splitAll(shadowVals(k, len(k.shadows) + 1), d, len(shadowVals(k, len(k.shadows) + 1)))[j])) else pieces(kstr(k), d)[j]
def sliceable(E reflect.Type) bool = rkind(E) == 24 || rkind(E) == 1 || rkind(E) == 2 || rkind(E) == 6 || rkind(E) == 7 || rkind(E) == 11 || rkind(E) == 14 || E == RTIME()
def elemOK(E reflect.Type, s string) bool =
  if rkind(E) == 24 then true
  else if rkind(E) == 1 then isTrue(s) || isFalse(s)
  else if isIntK(rkind(E)) then parseIntErr(s, 0, 64) == nil
  else if isUintK(rkind(E)) then parseUintErr(s, 0, 64) == nil
  else if rkind(E) == 14 then parseFloatErr(s, 64) == nil
  else parseTimeErr("2006-01-02T15:04:05Z07:00", s) == nil
def elemVal(E reflect.Type, s string) any =
  if rkind(E) == 24 then box(s, "string")
  else if rkind(E) == 1 then box(isTrue(s), "bool")
  else if isIntK(rkind(E)) then box(parseInt(s, 0, 64), "int64")
  else if isUintK(rkind(E)) then box(parseUint(s, 0, 64), "uint64")
  else if rkind(E) == 14 then box(parseFloat(s, 64), "float64")
  else box(parseTime("2006-01-02T15:04:05Z07:00", s), "time.Time")
def anyBad(l []string, E reflect.Type) bool = exists j int :: {l[j]} 0 <= j && j < len(l) && !elemOK(E, l[j])
def anyBadX(k *Key, l []string, E reflect.Type) bool = exists j int :: {l[j]} 0 <= j && j < len(l) && !elemOK(E, xform(k, s.trim(l[j])))
def listBad(k *Key, d string, sh bool, E reflect.Type) bool =
  if sh then anyBadX(k, splitAll(shadowVals(k, len(k.shadows) + 1), d, len(shadowVals(k, len(k.shadows) + 1))), E) else anyBad(pieces(kstr(k), d), E)

lemma allBool(l []string, n int)
  requires 0 <= n && n <= len(l)
  ensures len(listBool(l, true, n)) == n
  ensures forall j int :: {listBool(l, true, n)[j]} 0 <= j && j < n ==> listBool(l, true, n)[j] == isTrue(l[j])
  decreases n
  proof { if n > 0 { allBool(l, n - 1) } }

lemma allFloat64(l []string, n int)
  requires 0 <= n && n <= len(l)
  ensures len(listFloat64(l, true, n)) == n
  ensures forall j int :: {listFloat64(l, true, n)[j]} 0 <= j && j < n ==> same(listFloat64(l, true, n)[j], parseFloat(l[j], 64))
  decreases n
  proof { if n > 0 { allFloat64(l, n - 1) } }

lemma allInt(l []string, n int)
  requires 0 <= n && n <= len(l)
  ensures len(listInt(l, true, n)) == n
  ensures forall j int :: {listInt(l, true, n)[j]} 0 <= j && j < n ==> listInt(l, true, n)[j] == parseInt(l[j], 0, 64)
  decreases n
  proof { if n > 0 { allInt(l, n - 1) } }

lemma allUint(l []string, n int)
  requires 0 <= n && n <= len(l)
  ensures len(listUint(l, true, n)) == n
  ensures forall j int :: {listUint(l, true, n)[j]} 0 <= j && j < n ==> listUint(l, true, n)[j] == parseUint(l[j], 0, 64)
  decreases n
  proof { if n > 0 { allUint(l, n - 1) } }

lemma allTime(f string, l []string, n int)
  requires 0 <= n && n <= len(l)
  ensures len(listTime(f, l, true, n)) == n
  ensures forall j int :: {listTime(f, l, true, n)[j]} 0 <= j && j < n ==> listTime(f, l, true, n)[j] == parseTime(f, l[j])
  decreases n
  proof { if n > 0 { allTime(f, l, n - 1) } }

func setSliceWithProperType(key, field, delim, allowShadow, isStrict) (err)
  requires key.s.f.lock.st == 0
  requires vset(field) && rborn(field) <= global.rnew && vtype(field) != nil
  requires kindOf(field) == 23 || kindOf(field) == 22 && rkind(relem(vtype(field))) == 23
  modifies global.rcell, global.rnew
  allocates bytes.Buffer
  hint after@parseBools allBool(c_strs, len(c_strs))
  hint after@parseBools assert isStrict && c_err == nil ==> !listBad(key, delim, allowShadow, relem(vtype(field)))
  hint after@parseInts allInt(c_strs, len(c_strs))
  hint after@parseInts assert isStrict && c_err == nil ==> !listBad(key, delim, allowShadow, relem(vtype(field)))
  hint after@parseInt64s allInt(c_strs, len(c_strs))
  hint after@parseInt64s assert isStrict && c_err == nil ==> !listBad(key, delim, allowShadow, relem(vtype(field)))
  hint after@parseUints allUint(c_strs, len(c_strs))
  hint after@parseUints assert isStrict && c_err == nil ==> !listBad(key, delim, allowShadow, relem(vtype(field)))
  hint after@parseUint64s allUint(c_strs, len(c_strs))
  hint after@parseUint64s assert isStrict && c_err == nil ==> !listBad(key, delim, allowShadow, relem(vtype(field)))
  hint after@parseFloat64s allFloat64(c_strs, len(c_strs))
  hint after@parseFloat64s assert isStrict && c_err == nil ==> !listBad(key, delim, allowShadow, relem(vtype(field)))
  hint after@parseTimesFormat allTime("2006-01-02T15:04:05Z07:00", c_strs, len(c_strs))
  hint after@parseTimesFormat assert isStrict && c_err == nil ==> !listBad(key, delim, allowShadow, relem(vtype(field)))
  loop 0:
    invariant 0 <= i && i <= numVals
    invariant !(isStrict && listBad(key, delim, allowShadow, relem(vtype(field))))
    invariant forall j int :: {vidx(vconst(slice), j)} 0 <= j && j < i ==> global.rcell[vidx(vconst(slice), j)] == elemVal(relem(vtype(field)), strAt(key, delim, allowShadow, j))
    invariant forall v reflect.Value :: {global.rcell[v]} rborn(v) <= old(global.rnew) ==> global.rcell[v] == old(global.rcell)[v]
    decreases numVals - i
  end
  ensures global.rnew >= old(global.rnew)
  ensures [C20 frame] forall v reflect.Value :: {global.rcell[v]} v != field && rborn(v) <= old(global.rnew) ==> global.rcell[v] == old(global.rcell)[v]
  ensures [C20 empty] strLen(key, delim, allowShadow) == 0 ==> err == nil && global.rcell == old(global.rcell)
  ensures [C20 unsupported] strLen(key, delim, allowShadow) > 0 && !sliceable(relem(vtype(field))) ==> err != nil && global.rcell == old(global.rcell)
  ensures [C20 strict] strLen(key, delim, allowShadow) > 0 && sliceable(relem(vtype(field))) && isStrict && listBad(key, delim, allowShadow, relem(vtype(field))) ==> err != nil && global.rcell == old(global.rcell)
  ensures [C20 list] strLen(key, delim, allowShadow) > 0 && sliceable(relem(vtype(field))) && !(isStrict && listBad(key, delim, allowShadow, relem(vtype(field)))) ==> err == nil && rlen(global.rcell[field]) == strLen(key, delim, allowShadow) && forall j int :: {vidx(global.rcell[field], j)} 0 <= j && j < strLen(key, delim, allowShadow) ==> rborn(vidx(global.rcell[field], j)) > old(global.rnew) && global.rcell[vidx(global.rcell[field], j)] == elemVal(relem(vtype(field)), strAt(key, delim, allowShadow, j))

func setWithProperType(t, key, field, delim, allowShadow, isStrict) (err)
  requires key.s.f.lock.st == 0
  requires vset(field) && vtype(field) == t && t != nil && rborn(field) <= global.rnew
  requires rkind(t) == 22 ==> relem(t) != nil
  modifies global.rcell, global.rnew, global.mtrace
  update global.mtrace = snoc(old(global.mtrace), sev(t, key, field, delim, allowShadow, isStrict, old(global.rcell), global.rcell, err))
  allocates bytes.Buffer
  ensures global.rnew >= old(global.rnew)
  ensures [C20 frame] forall v reflect.Value :: {global.rcell[v]} v != field && rborn(v) <= old(global.rnew) ==> global.rcell[v] == old(global.rcell)[v]
  ensures [C20 unsupported] !scalar(base(t)) && rkind(base(t)) != 23 ==> err != nil && global.rcell == old(global.rcell)
  ensures [C20 invalid] scalar(base(t)) && !convOK(base(t), kstr(key)) ==> (err != nil <==> isStrict) && global.rcell == old(global.rcell)
  ensures [C20 kept] scalar(t) && convOK(t, kstr(key)) && keepOld(t, kstr(key)) ==> err == nil && global.rcell == old(global.rcell)
  ensures [C20 value] scalar(t) && convOK(t, kstr(key)) && !keepOld(t, kstr(key)) ==> err == nil && global.rcell == mapput(old(global.rcell), field, convTo(t, kstr(key)))
  ensures [C20 pointer] rkind(t) == 22 && scalar(relem(t)) && convOK(relem(t), kstr(key)) ==> err == nil && typeis(global.rcell[field], "reflect.Value") && rborn(unbox(global.rcell[field], "reflect.Value")) > old(global.rnew) && global.rcell[unbox(global.rcell[field], "reflect.Value")] == convTo(relem(t), kstr(key))
  ensures [C20 emptylist] rkind(base(t)) == 23 && strLen(key, delim, allowShadow) == 0 ==> err == nil && global.rcell == old(global.rcell)
  ensures [C20 unsupportedlist] rkind(base(t)) == 23 && strLen(key, delim, allowShadow) > 0 && !sliceable(relem(t)) ==> err != nil && global.rcell == old(global.rcell)
  ensures [C20 strictlist] rkind(t) == 23 && strLen(key, delim, allowShadow) > 0 && sliceable(relem(t)) && isStrict && listBad(key, delim, allowShadow, relem(t)) ==> err != nil && global.rcell == old(global.rcell)
  ensures [C20 list] rkind(t) == 23 && strLen(key, delim, allowShadow) > 0 && sliceable(relem(t)) && !(isStrict && listBad(key, delim, allowShadow, relem(t))) ==> err == nil && rlen(global.rcell[field]) == strLen(key, delim, allowShadow) && forall j int :: {vidx(global.rcell[field], j)} 0 <= j && j < strLen(key, delim, allowShadow) ==> rborn(vidx(global.rcell[field], j)) > old(global.rnew) && global.rcell[vidx(global.rcell[field], j)] == elemVal(relem(t), strAt(key, delim, allowShadow, j))

// ---- mapping a struct ----
// What a mapping does is recorded in a ghost trace: every function appends one
// event for its own call, with the store before and after, and drops those of
// its callees; the iterations are specified by the events they add.
ghost global.mtrace []any
spec mev(s *Section, v reflect.Value, strict bool, idx int, st0 map[reflect.Value]any, st1 map[reflect.Value]any, err error) any
spec lev(f *File, sec string, v reflect.Value, strict bool, st0 map[reflect.Value]any, st1 map[reflect.Value]any, r reflect.Value, err error) any
spec sev(t reflect.Type, k *Key, v reflect.Value, d string, sh bool, strict bool, st0 map[reflect.Value]any, st1 map[reflect.Value]any, err error) any
spec tev(s *Section, v any, strict bool, st0 map[reflect.Value]any, st1 map[reflect.Value]any, err error) any
// what an event left behind
spec evOut(e any) map[reflect.Value]any
spec evErr(e any) error
spec evRes(e any) reflect.Value
spec evSec(e any) *Section
spec evVal(e any) reflect.Value

spec logged(e any) bool = global.mtrace == snoc(old(global.mtrace), e)

func reflect.Kind.String(k) (r)
  flags trusted, pure
axiom [mev] forall s *Section, v reflect.Value, strict bool, idx int, a map[reflect.Value]any, b map[reflect.Value]any, err error :: {mev(s, v, strict, idx, a, b, err)} evOut(mev(s, v, strict, idx, a, b, err)) == b && same(evErr(mev(s, v, strict, idx, a, b, err)), err) && evVal(mev(s, v, strict, idx, a, b, err)) == v
axiom [lev] forall f *File, n string, v reflect.Value, strict bool, a map[reflect.Value]any, b map[reflect.Value]any, r reflect.Value, err error :: {lev(f, n, v, strict, a, b, r, err)} evOut(lev(f, n, v, strict, a, b, r, err)) == b && same(evErr(lev(f, n, v, strict, a, b, r, err)), err) && evRes(lev(f, n, v, strict, a, b, r, err)) == r
axiom [sev] forall t reflect.Type, k *Key, v reflect.Value, d string, sh bool, strict bool, a map[reflect.Value]any, b map[reflect.Value]any, err error :: {sev(t, k, v, d, sh, strict, a, b, err)} evOut(sev(t, k, v, d, sh, strict, a, b, err)) == b && same(evErr(sev(t, k, v, d, sh, strict, a, b, err)), err)
axiom [tev] forall s *Section, v any, strict bool, a map[reflect.Value]any, b map[reflect.Value]any, err error :: {tev(s, v, strict, a, b, err)} evOut(tev(s, v, strict, a, b, err)) == b && same(evErr(tev(s, v, strict, a, b, err)), err) && evSec(tev(s, v, strict, a, b, err)) == s

// the struct a value stands for
def target(v reflect.Value) reflect.Value = if kindOf(v) == 22 then unbox(cont(v), "reflect.Value") else v
def targetKind(v reflect.Value) int = if kindOf(v) == 22 then (if cont(v) == nil then 0 else rkind(relem(vtype(v)))) else kindOf(v)

// field i of a struct type as the mapper sees it
def tagOf(t reflect.Type, i int) string = rtag(rftag(t, i), "ini")
def rawOf(t reflect.Type, i int) string = s.split(tagOf(t, i), ",")[0]
def nameOf(s *Section, t reflect.Type, i int) string = if rawOf(t, i) != "" then rawOf(t, i) else if s.f.NameMapper == nil then rfname(t, i) else apply(0, "string", s.f.NameMapper, rfname(t, i))
def delimOf(t reflect.Type, i int) string = if rtag(rftag(t, i), "delim") == "" then "," else rtag(rftag(t, i), "delim")
def bound(s *Section, v reflect.Value, i int) bool = tagOf(vtype(v), i) != "-" && nameOf(s, vtype(v), i) != "" && vset(vfield(v, i))
def isSt(T reflect.Type) bool = rkind(T) == 25 && T != RTIME()
def isStPtr(T reflect.Type) bool = rkind(T) == 22 && isSt(relem(T))
def anonPtr(t reflect.Type, i int) bool = rkind(rftype(t, i)) == 22 && rfanon(t, i)
// embedded, keeping its keys in the section of the outer struct
def embeds(t reflect.Type, i int) bool = tagHas(tagOf(t, i), "extends") && (anonPtr(t, i) || isSt(rftype(t, i)) && rfanon(t, i))
def nested(t reflect.Type, i int) bool = !embeds(t, i) && (anonPtr(t, i) || isSt(rftype(t, i)) || isStPtr(rftype(t, i)))
def secsOf(s *Section, name string) []*Section = s.f.sections[lookSec(s.f, name)]


// the store after an embedded nil pointer (a pointer to a section, when deep) has been given a new target
def fresh1(st map[reflect.Value]any, F reflect.Value, b bool, n int) map[reflect.Value]any = if b && st[F] == nil then mapput(st, F, box(rcellno(n), "reflect.Value")) else st

func (*Section).mapToField(s, val, isStrict, sectionIndex, sectionName) (err)
  flags partial
  requires s.f.lock.st == 0
  requires !vro(val) && rborn(val) <= global.rnew && sectionIndex >= 0
  modifies global.rcell, global.rnew, global.mtrace
  allocates bytes.Buffer
  update global.mtrace = snoc(old(global.mtrace), mev(s, old(val), isStrict, sectionIndex, old(global.rcell), global.rcell, err))
  ensures global.rnew >= old(global.rnew)
  ensures [C20 nostruct] old(targetKind(val)) != 25 ==> err != nil && global.rcell == old(global.rcell)
  loop 0:
    decreases rnfield(vtype(val)) - i
    invariant s.f.lock.st == 0
    invariant 0 <= i && i <= rnfield(vtype(val))
    invariant global.rnew >= old(global.rnew)
    starts [C20 start] global.rcell == old(global.rcell) && val == old(target(val)) && i == 0
    step [C20 next] i == iter(i) + 1
    step [C20,C24 excluded] !iter(bound(s, val, i)) ==> global.rcell == iter(global.rcell) && global.mtrace == iter(global.mtrace)
    // the struct of an embedded field takes the keys of the outer section, or of the child section named by the tag
    step [C20,C24 embed] iter(bound(s, val, i) && embeds(vtype(val), i)) ==>
      let F = vfield(val, iter(i)) in let T = rftype(vtype(val), iter(i)) in let raw = rawOf(vtype(val), iter(i)) in
      let secs = secsOf(s, s.name + s.f.options.ChildSectionDelimiter + raw) in
      let sec = (if raw != "" && sectionIndex < len(secs) then secs[sectionIndex] else s) in
      let e = global.mtrace[len(iter(global.mtrace))] in
      e == mev(sec, F, isStrict, sectionIndex, fresh1(iter(global.rcell), F, rkind(T) == 22, iter(global.rnew) + 1), evOut(e), nil)
    // a struct field takes the section of its name
    step [C20,C24 section] iter(bound(s, val, i) && nested(vtype(val), i)) && len(secsOf(s, nameOf(s, vtype(val), iter(i)))) > 0 ==>
      let F = vfield(val, iter(i)) in let T = rftype(vtype(val), iter(i)) in
      let secs = secsOf(s, nameOf(s, vtype(val), iter(i))) in
      let e = global.mtrace[len(iter(global.mtrace))] in
      sectionIndex < len(secs) && global.mtrace == snoc(iter(global.mtrace), e) && global.rcell == evOut(e) &&
      e == mev(secs[sectionIndex], F, isStrict, sectionIndex, fresh1(iter(global.rcell), F, rkind(T) == 22, iter(global.rnew) + 1), evOut(e), nil)
    // a slice marked nonunique takes all sections of its name
    step [C20,C24 nonunique] iter(bound(s, val, i)) && rkind(rftype(vtype(val), iter(i))) == 23 && tagHas(tagOf(vtype(val), iter(i)), "nonunique") ==>
      let F = vfield(val, iter(i)) in let n = nameOf(s, vtype(val), iter(i)) in
      if len(secsOf(s, n)) == 0 then global.rcell == iter(global.rcell) && global.mtrace == iter(global.mtrace)
      else let e = global.mtrace[len(iter(global.mtrace))] in
        global.mtrace == snoc(iter(global.mtrace), e) && e == lev(s.f, n, F, isStrict, iter(global.rcell), evOut(e), evRes(e), nil) && vtype(evRes(e)) == vtype(F) && !vaddr(evRes(e)) && global.rcell == mapput(evOut(e), F, vconst(evRes(e)))
    // every other field takes the key of its name, if there is one
    step [C20,C24 key] iter(bound(s, val, i)) && !embeds(vtype(val), iter(i)) && !nested(vtype(val), iter(i)) && !(rkind(rftype(vtype(val), iter(i))) == 23 && tagHas(tagOf(vtype(val), iter(i)), "nonunique")) ==>
      let F = vfield(val, iter(i)) in let T = rftype(vtype(val), iter(i)) in
      let k = lookKey(s, normKey(s.f, nameOf(s, vtype(val), iter(i)))) in
      if k == nil then global.rcell == iter(global.rcell) && global.mtrace == iter(global.mtrace)
      else let e = global.mtrace[len(iter(global.mtrace))] in
        global.mtrace == snoc(iter(global.mtrace), e) && global.rcell == evOut(e) &&
        e == sev(T, k, F, delimOf(vtype(val), iter(i)), tagHas(tagOf(vtype(val), iter(i)), "allowshadow"), isStrict, iter(global.rcell), evOut(e), nil)
    // in particular
    step [C20 value] iter(bound(s, val, i)) && scalar(rftype(vtype(val), iter(i))) ==>
      let F = vfield(val, iter(i)) in let T = rftype(vtype(val), iter(i)) in
      let k = lookKey(s, normKey(s.f, nameOf(s, vtype(val), iter(i)))) in
      if k == nil || !convOK(T, kstr(k)) || keepOld(T, kstr(k)) then global.rcell == iter(global.rcell) && (k != nil && isStrict ==> convOK(T, kstr(k)))
      else global.rcell == mapput(iter(global.rcell), F, convTo(T, kstr(k)))
    // an error is one of the field's own: of its value, of its struct, or that its section is missing
    returns [C20 error] err != nil && iter(bound(s, val, i)) && (len(global.mtrace) > len(iter(global.mtrace)) && evErr(global.mtrace[len(global.mtrace)-1]) != nil
      || iter(nested(vtype(val), i)) && len(secsOf(s, nameOf(s, vtype(val), iter(i)))) > 0 && len(secsOf(s, nameOf(s, vtype(val), iter(i)))) <= sectionIndex && global.mtrace == iter(global.mtrace))
    leaves [C20 all] i >= rnfield(vtype(val))
  end

func (*Section).mapToSlice(s, secName, val, isStrict) (r, err)
  flags partial
  requires s.f.lock.st == 0
  requires !vro(val) && kindOf(val) == 23 && rborn(val) <= global.rnew && (vaddr(val) ==> vset(val))
  modifies global.rcell, global.rnew, global.mtrace
  allocates bytes.Buffer
  update global.mtrace = snoc(old(global.mtrace), lev(s.f, secName, old(val), isStrict, old(global.rcell), global.rcell, r, err))
  loop 0:
    invariant s.f.lock.st == 0
    invariant global.rnew >= old(global.rnew)
    invariant vok(val) && !vro(val) && kindOf(val) == 23 && vtype(val) == old(vtype(val)) && rborn(val) <= global.rnew && ($i > 0 ==> !vaddr(val)) && ($i == 0 ==> val == old(val) && global.rcell == old(global.rcell))
    step [C20 section] let e = global.mtrace[len(iter(global.mtrace))] in let h = rcellno(iter(global.rnew) + 1) in
      global.mtrace == snoc(iter(global.mtrace), e) && let p = evVal(e) in vtype(p) == rptr(if rkind(relem(vtype(val))) == 22 then relem(relem(vtype(val))) else relem(vtype(val))) && vconst(p) == box(h, "reflect.Value") && e == mev(iter($s[$i]), p, isStrict, iter($i), iter(global.rcell), evOut(e), nil) && global.rcell == evOut(e) && vconst(val) == rappend((if vaddr(iter(val)) then global.rcell[iter(val)] else vconst(iter(val))), (if rkind(relem(vtype(val))) == 22 then p else h), global.rcell)
  end
  ensures global.rnew >= old(global.rnew)
  ensures [C20 nosection] len(secsOf(s, secName)) == 0 ==> err != nil && global.rcell == old(global.rcell)
  ensures [C20 list] err == nil ==> vok(r) && !vro(r) && !vaddr(r) && vtype(r) == old(vtype(val)) && rborn(r) <= global.rnew

// ---- entry points ----
ghost global.ttrace []any
def isPtrVal(v any) bool = kindOf(vof(v)) == 22 && cont(vof(v)) != nil
func (*Section).mapTo(s, v, isStrict) (err)
  requires s.f.lock.st == 0
  modifies global.rcell, global.rnew, global.mtrace, global.ttrace
  allocates bytes.Buffer
  update global.ttrace = snoc(old(global.ttrace), tev(s, v, isStrict, old(global.rcell), global.rcell, err))
  ensures [C20 nilptr] !old(isPtrVal(v)) ==> err != nil && global.rcell == old(global.rcell)
  ensures [C20 tostruct] old(isPtrVal(v) && rkind(relem(vtype(vof(v)))) != 23) ==>
    global.mtrace == snoc(old(global.mtrace), mev(s, old(unbox(cont(vof(v)), "reflect.Value")), isStrict, 0, old(global.rcell), global.rcell, err))
  ensures [C20 toslice] old(isPtrVal(v) && rkind(relem(vtype(vof(v)))) == 23) ==>
    let W = old(unbox(cont(vof(v)), "reflect.Value")) in let e = global.mtrace[len(old(global.mtrace))] in
    e == lev(s.f, s.name, W, isStrict, old(global.rcell), evOut(e), evRes(e), err) && (err == nil ==> global.rcell == mapput(evOut(e), W, vconst(evRes(e)))) && (err != nil ==> global.rcell == evOut(e))

func (*Section).MapTo(s, v) (err)
  requires s.f.lock.st == 0
  modifies global.rcell, global.rnew, global.mtrace, global.ttrace
  allocates bytes.Buffer
  ensures [C20 lax] global.ttrace == snoc(old(global.ttrace), tev(s, v, false, old(global.rcell), global.rcell, err))
func (*Section).StrictMapTo(s, v) (err)
  requires s.f.lock.st == 0
  modifies global.rcell, global.rnew, global.mtrace, global.ttrace
  allocates bytes.Buffer
  ensures [C20 strict] global.ttrace == snoc(old(global.ttrace), tev(s, v, true, old(global.rcell), global.rcell, err))
func (*File).MapTo(f, v) (err)
  requires f.lock.st == 0
  modifies global.rcell, global.rnew, global.mtrace, global.ttrace, f.sectionList, f.sectionIndexes, f.sections
  allocates bytes.Buffer, Section
  ensures [C20 lax] let e = global.ttrace[len(old(global.ttrace))] in let sec = evSec(e) in sec.f == f && sec.name == lookSec(f, "") && e == tev(sec, v, false, old(global.rcell), global.rcell, err) && global.ttrace == snoc(old(global.ttrace), e)
func (*File).StrictMapTo(f, v) (err)
  requires f.lock.st == 0
  modifies global.rcell, global.rnew, global.mtrace, global.ttrace, f.sectionList, f.sectionIndexes, f.sections
  allocates bytes.Buffer, Section
  ensures [C20 strict] let e = global.ttrace[len(old(global.ttrace))] in let sec = evSec(e) in sec.f == f && sec.name == lookSec(f, "") && e == tev(sec, v, true, old(global.rcell), global.rcell, err) && global.ttrace == snoc(old(global.ttrace), e)

func MapToWithMapper(v, mapper, source, others) (err)
  modifies global.rcell, global.rnew, global.mtrace, global.ttrace
  allocates File, Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C20,C24 mapper] global.ttrace == old(global.ttrace) && err != nil || (let e = global.ttrace[len(old(global.ttrace))] in let sec = evSec(e) in sec.f.NameMapper == mapper && e == tev(sec, v, false, old(global.rcell), global.rcell, err) && global.ttrace == snoc(old(global.ttrace), e))
func StrictMapToWithMapper(v, mapper, source, others) (err)
  modifies global.rcell, global.rnew, global.mtrace, global.ttrace
  allocates File, Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C20,C24 mapper] global.ttrace == old(global.ttrace) && err != nil || (let e = global.ttrace[len(old(global.ttrace))] in let sec = evSec(e) in sec.f.NameMapper == mapper && e == tev(sec, v, true, old(global.rcell), global.rcell, err) && global.ttrace == snoc(old(global.ttrace), e))
func MapTo(v, source, others) (err)
  modifies global.rcell, global.rnew, global.mtrace, global.ttrace
  allocates File, Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C20,C24 nomapper] global.ttrace == old(global.ttrace) && err != nil || (let e = global.ttrace[len(old(global.ttrace))] in let sec = evSec(e) in sec.f.NameMapper == nil && e == tev(sec, v, false, old(global.rcell), global.rcell, err) && global.ttrace == snoc(old(global.ttrace), e))
func StrictMapTo(v, source, others) (err)
  modifies global.rcell, global.rnew, global.mtrace, global.ttrace
  allocates File, Section, Key, parser, bufio.Reader, bytes.Buffer, sourceData, sourceReadCloser
  ensures [C20,C24 nomapper] global.ttrace == old(global.ttrace) && err != nil || (let e = global.ttrace[len(old(global.ttrace))] in let sec = evSec(e) in sec.f.NameMapper == nil && e == tev(sec, v, true, old(global.rcell), global.rcell, err) && global.ttrace == snoc(old(global.ttrace), e))

// ---- reflecting one value ----
def intK(k int) bool = 2 <= k && k <= 6
def uintK(k int) bool = 7 <= k && k <= 11
def writable(V reflect.Type) bool = rkind(V) == 24 || rkind(V) == 1 || intK(rkind(V)) || uintK(rkind(V)) || isFloatK(rkind(V)) || V == RTIME()
// the text a value of type V with content c is written as
def textOf(V reflect.Type, c any) string =
  if rkind(V) == 24 then unbox(c, "string")
  else if rkind(V) == 1 then str1(box(unbox(c, "bool"), "bool"))
  else if intK(rkind(V)) then str1(box(unbox(c, "int64"), "int64"))
  else if uintK(rkind(V)) then str1(box(unbox(c, "uint64"), "uint64"))
  else if isFloatK(rkind(V)) then str1(box(unbox(c, "float64"), "float64"))
  else fmtTime(unbox(c, "time.Time"), "2006-01-02T15:04:05Z07:00")

def emptyContent(V reflect.Type, c any) bool =
  if rkind(V) == 24 then unbox(c, "string") == ""
  else if rkind(V) == 17 || rkind(V) == 21 || rkind(V) == 23 then rlen(c) == 0
  else if rkind(V) == 1 then !unbox(c, "bool")
  else if isIntK(rkind(V)) then unbox(c, "int64") == 0
  else if isUintK(rkind(V)) then unbox(c, "uint64") == 0
  else if isFloatK(rkind(V)) then fpeq(unbox(c, "float64"), zero("float64"))
  else if rkind(V) == 22 || rkind(V) == 20 then c == nil
  else if V == RTIME() then timeIsZero(unbox(c, "time.Time"))
  else false

func isEmptyValue(v) (r)
  requires vok(v) && !vro(v)
  ensures [C21 empty] r <==> emptyContent(vtype(v), cont(v))

spec hashOf(k *Key, v string) map[string]string = if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, v) else old(k.s.keysHash)

// elements of a list, each followed by the delimiter
rec listText(E reflect.Type, c any, d string, n int) string = if n <= 0 then "" else listText(E, c, d, n - 1) + textOf(E, global.rcell[vidx(c, n-1)]) + d
def writableElem(E reflect.Type) bool = rkind(E) == 24 || rkind(E) == 1 || rkind(E) == 2 || rkind(E) == 6 || rkind(E) == 7 || rkind(E) == 11 || rkind(E) == 14 || E == RTIME()

func reflectSliceWithProperType(key, field, delim, allowShadow) (err)
  requires alloc(key) && !key.isShadow
  requires key.s.f.lock.st == 0
  requires kindOf(field) == 23 && !vro(field) && rborn(field) <= global.rnew
  modifies key.value, key.shadows, key.isShadow, key.isAutoIncrement, key.isBooleanType, key.nestedValues, key.s.keysHash
  allocates Key, bytes.Buffer
  loop 0:
    invariant 0 <= i && i <= rlen(cont(field))
    invariant i > 0 ==> writableElem(relem(vtype(field)))
    invariant key.shadows == old(key.shadows)
    invariant i == 0 <==> keyWithShadows == nil
    invariant i > 0 ==> alloc(keyWithShadows) && fresh(keyWithShadows) && keyWithShadows.s == key.s && keyWithShadows.name == key.name && keyWithShadows.value == textOf(relem(vtype(field)), global.rcell[vidx(cont(field), 0)]) && !keyWithShadows.isShadow && !keyWithShadows.isAutoIncrement && !keyWithShadows.isBooleanType && len(keyWithShadows.nestedValues) == 0
    decreases rlen(cont(field)) - i
    step [C21 shadow] let v = textOf(relem(vtype(field)), global.rcell[vidx(cont(field), iter(i))]) in let k = keyWithShadows in iter(i) > 0 ==>
      k == iter(keyWithShadows) && (if iter(shadowDup(keyWithShadows, textOf(relem(vtype(field)), global.rcell[vidx(cont(field), i)]))) then k.shadows == iter(keyWithShadows.shadows) else len(k.shadows) == len(iter(keyWithShadows.shadows)) + 1 && k.shadows[:len(iter(keyWithShadows.shadows))] == iter(keyWithShadows.shadows) && k.shadows[len(iter(keyWithShadows.shadows))].value == v)
    step [C21 first] iter(i) == 0 ==> len(keyWithShadows.shadows) == 0
  end
  loop 1:
    invariant 0 <= i && i <= rlen(cont(field))
    invariant i > 0 ==> writableElem(relem(vtype(field)))
    invariant buf.content == listText(relem(vtype(field)), cont(field), delim, i)
    decreases rlen(cont(field)) - i
  end
  ensures [C21 empty] rlen(cont(field)) == 0 ==> err == nil && key.value == old(key.value) && key.shadows == old(key.shadows) && key.s.keysHash == old(key.s.keysHash)
  ensures [C21 unsupported] rlen(cont(field)) > 0 && !writableElem(relem(vtype(field))) ==> err != nil && key.value == old(key.value) && key.shadows == old(key.shadows) && key.s.keysHash == old(key.s.keysHash)
  ensures [C21 list] rlen(cont(field)) > 0 && writableElem(relem(vtype(field))) && !(allowShadow && key.s.f.options.AllowShadows) ==> err == nil &&
    key.value == listText(relem(vtype(field)), cont(field), delim, rlen(cont(field)))[:len(listText(relem(vtype(field)), cont(field), delim, rlen(cont(field)))) - len(delim)] && key.shadows == old(key.shadows) && key.s.keysHash == hashOf(key, key.value)
  ensures [C21 shadows] rlen(cont(field)) > 0 && writableElem(relem(vtype(field))) && allowShadow && key.s.f.options.AllowShadows ==> err == nil &&
    key.value == textOf(relem(vtype(field)), global.rcell[vidx(cont(field), 0)]) && key.s.keysHash == hashOf(key, key.value)
  ensures [C21 kept] !(allowShadow && key.s.f.options.AllowShadows) ==> key.shadows == old(key.shadows) && key.isShadow == old(key.isShadow) && key.isAutoIncrement == old(key.isAutoIncrement) && key.isBooleanType == old(key.isBooleanType) && key.nestedValues == old(key.nestedValues)

// ---- reflecting a struct ----
// As for mapping: one event per field written (wtrace) and per struct reflected
// (rtrace); the latter with whether the section was the last of its name and
// with the comment it had.
ghost global.rtrace []any
ghost global.wtrace []any
spec rev(s *Section, v reflect.Value, last bool, comment string, err error) any
spec wev(t reflect.Type, k *Key, v reflect.Value, d string, sh bool, err error) any
ghost global.etrace []any
spec eev(s *Section, v any, err error) any
spec sliceAllowed(s *Section) bool = s.name != lookSec(s.f, "") && s.f.options.AllowNonUniqueSections
spec evLast(e any) bool
spec evComment(e any) string

func time.Now() (r)
  flags trusted
axiom [rev] forall s *Section, v reflect.Value, last bool, c string, err error :: {rev(s, v, last, c, err)} evSec(rev(s, v, last, c, err)) == s && evVal(rev(s, v, last, c, err)) == v && (evLast(rev(s, v, last, c, err)) <==> last) && evComment(rev(s, v, last, c, err)) == c && same(evErr(rev(s, v, last, c, err)), err)
axiom [eev] forall s *Section, v any, err error :: {eev(s, v, err)} evSec(eev(s, v, err)) == s && same(evErr(eev(s, v, err)), err)
axiom [wev] forall t reflect.Type, k *Key, v reflect.Value, d string, sh bool, err error :: {wev(t, k, v, d, sh, err)} same(evErr(wev(t, k, v, d, sh, err)), err)

func reflectWithProperType(t, key, field, delim, allowShadow) (err)
  flags partial
  requires alloc(key) && !key.isShadow
  requires key.s.f.lock.st == 0
  requires vok(field) && vtype(field) == t && t != nil && !vro(field) && rborn(field) <= global.rnew
  modifies key.value, key.shadows, key.isShadow, key.isAutoIncrement, key.isBooleanType, key.nestedValues, key.s.keysHash, global.wtrace
  update global.wtrace = snoc(old(global.wtrace), wev(t, key, field, delim, allowShadow, err))
  allocates Key, bytes.Buffer
  ensures [C21 value] writable(t) ==> err == nil && key.value == textOf(t, cont(field)) && key.s.keysHash == hashOf(key, key.value)
  ensures [C21 pointer] rkind(t) == 22 && writable(relem(t)) && cont(field) != nil ==> err == nil && key.value == textOf(relem(t), cont(unbox(cont(field), "reflect.Value"))) && key.s.keysHash == hashOf(key, key.value)
  ensures [C21 nilpointer] rkind(t) == 22 && cont(field) == nil ==> err == nil && key.value == old(key.value) && key.s.keysHash == old(key.s.keysHash)
  ensures [C21 unsupported] !writable(t) && rkind(t) != 22 && rkind(t) != 23 ==> err != nil && key.value == old(key.value) && key.s.keysHash == old(key.s.keysHash)
  ensures [C21 list] rkind(t) == 23 && rlen(cont(field)) > 0 && writableElem(relem(t)) && !(allowShadow && key.s.f.options.AllowShadows) ==> err == nil &&
    key.value == listText(relem(t), cont(field), delim, rlen(cont(field)))[:len(listText(relem(t), cont(field), delim, rlen(cont(field)))) - len(delim)] && key.s.keysHash == hashOf(key, key.value)
  ensures [C21 emptylist] rkind(t) == 23 && rlen(cont(field)) == 0 ==> err == nil && key.value == old(key.value) && key.s.keysHash == old(key.s.keysHash)
  ensures [C21 scalarkept] rkind(t) != 23 && !(rkind(t) == 22 && !writable(relem(t))) ==> key.shadows == old(key.shadows) && key.isShadow == old(key.isShadow) && key.isAutoIncrement == old(key.isAutoIncrement) && key.isBooleanType == old(key.isBooleanType) && key.nestedValues == old(key.nestedValues)

// user code: it changes the file through the package's own functions only, and not the struct being reflected
func StructReflector.ReflectINIStruct(r, f) (err)
  flags interface
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections
  modifies where(Section.keyList, q, q.f == f), where(Section.keys, q, q.f == f), where(Section.keysHash, q, q.f == f), where(Section.Comment, q, q.f == f), where(Section.isRawSection, q, q.f == f), where(Section.rawBody, q, q.f == f)
  modifies where(Key.value, k, k.s.f == f), where(Key.shadows, k, k.s.f == f), where(Key.isBooleanType, k, k.s.f == f), where(Key.isAutoIncrement, k, k.s.f == f), where(Key.Comment, k, k.s.f == f), where(Key.nestedValues, k, k.s.f == f), where(Key.isShadow, k, k.s.f == f)
  modifies global.rtrace, global.wtrace
  allocates Section, Key, bytes.Buffer

def isLast(s *Section) bool = len(s.f.sections[s.name]) > 0 && s.f.sections[s.name][len(s.f.sections[s.name])-1] == s
def ctagOf(t reflect.Type, i int) string = rtag(rftag(t, i), "comment")
def skipped(v reflect.Value, i int) bool = vro(vfield(v, i)) || tagOf(vtype(v), i) == "-" || tagHas(tagOf(vtype(v), i), "omitempty") && emptyContent(rftype(vtype(v), i), cont(vfield(v, i)))
// reflects itself
def selfRefl(v reflect.Value, i int) bool = typeis(riface(rftype(vtype(v), i), cont(vfield(v, i))), "StructReflector")
def rbound(s *Section, v reflect.Value, i int) bool = !skipped(v, i) && !selfRefl(v, i) && nameOf(s, vtype(v), i) != "" && vset(vfield(v, i))
def rembeds(t reflect.Type, i int) bool = tagHas(tagOf(t, i), "extends") && rfanon(t, i) && (rkind(rftype(t, i)) == 22 || rkind(rftype(t, i)) == 25)
def rnested(t reflect.Type, i int) bool = !rembeds(t, i) && (isSt(rftype(t, i)) || isStPtr(rftype(t, i)))
def rmany(t reflect.Type, i int) bool = rkind(rftype(t, i)) == 23 && tagHas(tagOf(t, i), "nonunique")
def isNilPtr(v reflect.Value, i int) bool = rkind(rftype(vtype(v), i)) == 22 && cont(vfield(v, i)) == nil
def rleaf(t reflect.Type, i int) bool = !rembeds(t, i) && !rnested(t, i) && !rmany(t, i)
def keyOf(s *Section, t reflect.Type, i int) string = normKey(s.f, nameOf(s, t, i))

func (*Section).reflectFrom(s, val) (err)
  flags partial
  requires s.f.lock.st == 0
  requires !vro(val) && rborn(val) <= global.rnew
  modifies s.f.sectionList, s.f.sectionIndexes, s.f.sections
  modifies where(Section.keyList, q, q.f == s.f), where(Section.keys, q, q.f == s.f), where(Section.keysHash, q, q.f == s.f), where(Section.Comment, q, q.f == s.f), where(Section.isRawSection, q, q.f == s.f), where(Section.rawBody, q, q.f == s.f)
  modifies where(Key.value, k, k.s.f == s.f), where(Key.shadows, k, k.s.f == s.f), where(Key.isBooleanType, k, k.s.f == s.f), where(Key.isAutoIncrement, k, k.s.f == s.f), where(Key.Comment, k, k.s.f == s.f), where(Key.nestedValues, k, k.s.f == s.f), where(Key.isShadow, k, k.s.f == s.f)
  modifies global.rtrace, global.wtrace
  allocates Section, Key, bytes.Buffer
  update global.rtrace = snoc(old(global.rtrace), rev(s, old(val), old(isLast(s)), old(s.Comment), err))
  ensures [C21 nostruct] old(targetKind(val)) != 25 ==> err != nil && frame(old, global.rtrace)
  loop 0:
    decreases rnfield(vtype(val)) - i
    invariant s.f.lock.st == 0
    invariant 0 <= i && i <= rnfield(vtype(val))
    starts [C21 start] val == old(target(val)) && i == 0 && frame(old)
    step [C21 next] i == iter(i) + 1
    step [C21,C24 excluded] iter(skipped(val, i) || !selfRefl(val, i) && !(nameOf(s, vtype(val), i) != "" && vset(vfield(val, i)))) ==> frame(iter)
    step [C21 nilstruct] iter(rbound(s, val, i) && (rembeds(vtype(val), i) || rnested(vtype(val), i)) && isNilPtr(val, i)) ==> frame(iter)
    step [C21,C24 embed] iter(rbound(s, val, i) && rembeds(vtype(val), i) && !isNilPtr(val, i)) ==>
      let e = global.rtrace[len(iter(global.rtrace))] in
      global.rtrace == snoc(iter(global.rtrace), e) && e == rev(s, vfield(val, iter(i)), evLast(e), iter(s.Comment), nil)
    step [C21,C24 section] iter(rbound(s, val, i) && rnested(vtype(val), i) && !isNilPtr(val, i)) ==>
      let e = global.rtrace[len(iter(global.rtrace))] in let sec = evSec(e) in let n = nameOf(s, vtype(val), iter(i)) in
      let secs = iter(secsOf(s, nameOf(s, vtype(val), i))) in let c = ctagOf(vtype(val), iter(i)) in
      global.rtrace == snoc(iter(global.rtrace), e) && e == rev(sec, vfield(val, iter(i)), evLast(e), evComment(e), nil) &&
      (if len(secs) > 0 then sec == secs[0] && evComment(e) == (if iter(secsOf(s, nameOf(s, vtype(val), i))[0].Comment) == "" then c else iter(secsOf(s, nameOf(s, vtype(val), i))[0].Comment))
       else !iter(alloc(sec)) && sec.f == s.f && sec.name == normSec(s.f, n) && evLast(e) && evComment(e) == c)
    step [C21,C24 key] iter(rbound(s, val, i)) && rleaf(vtype(val), iter(i)) ==>
      let e = global.wtrace[len(iter(global.wtrace))] in let T = rftype(vtype(val), iter(i)) in let kn = keyOf(s, vtype(val), iter(i)) in
      has(s.keys, kn) && (let k = s.keys[kn] in
      global.wtrace == snoc(iter(global.wtrace), e) && e == wev(T, k, vfield(val, iter(i)), delimOf(vtype(val), iter(i)), tagHas(tagOf(vtype(val), iter(i)), "allowshadow"), nil)
      && (if iter(has(s.keys, keyOf(s, vtype(val), i))) then s.keyList == iter(s.keyList) && s.keys == iter(s.keys) && k.Comment == (if iter(s.keys[keyOf(s, vtype(val), i)].Comment) == "" then ctagOf(vtype(val), iter(i)) else iter(s.keys[keyOf(s, vtype(val), i)].Comment))
          else s.keyList == snoc(iter(s.keyList), kn) && s.keys == mapput(iter(s.keys), kn, k) && k.Comment == ctagOf(vtype(val), iter(i)))
      && frame(iter, s.keyList, s.keys, s.keysHash, k.value, k.shadows, k.isShadow, k.isAutoIncrement, k.isBooleanType, k.nestedValues, k.Comment, global.wtrace))
    step [C21 value] iter(rbound(s, val, i)) && rleaf(vtype(val), iter(i)) && writable(rftype(vtype(val), iter(i))) ==>
      s.keys[keyOf(s, vtype(val), iter(i))].value == textOf(rftype(vtype(val), iter(i)), cont(vfield(val, iter(i))))
    returns [C21 error] err != nil && !iter(skipped(val, i)) && (iter(selfRefl(val, i)) ||
      iter(rbound(s, val, i)) && (len(global.rtrace) > len(iter(global.rtrace)) && evErr(global.rtrace[len(global.rtrace)-1]) != nil
      || len(global.wtrace) > len(iter(global.wtrace)) && evErr(global.wtrace[len(global.wtrace)-1]) != nil
      || iter(rmany(vtype(val), i)) && rkind(relem(rftype(vtype(val), iter(i)))) != 25 && rkind(relem(rftype(vtype(val), iter(i)))) != 22))
    leaves [C21 all] i >= rnfield(vtype(val))
  end
  loop 1:
    decreases rlen(cont(field)) - i
    invariant s.f.lock.st == 0
    invariant 0 <= i && i <= rlen(cont(field))
    step [C21,C24 nonunique] let e = global.rtrace[len(iter(global.rtrace))] in let sec = evSec(e) in
      global.rtrace == snoc(iter(global.rtrace), e) && e == rev(sec, vidx(cont(field), iter(i)), evLast(e), evComment(e), nil) && sec.f == s.f && sec.name == normSec(s.f, fieldName) && evLast(e) && i == iter(i) + 1
      && (s.f.options.AllowNonUniqueSections ==> !iter(alloc(sec)) && evComment(e) == rtag(tpField.Tag, "comment"))
    leaves [C21 all] i >= rlen(cont(field))
  end

// what a value of type V can hold
def isContent(V reflect.Type, c any) bool =
  if rkind(V) == 24 then typeis(c, "string")
  else if rkind(V) == 1 then typeis(c, "bool")
  else if isIntK(rkind(V)) then typeis(c, "int64") && fitsInt(rbits(V), unbox(c, "int64"))
  else if isUintK(rkind(V)) then typeis(c, "uint64") && fitsUint(rbits(V), unbox(c, "uint64"))
  else typeis(c, "float64") && (rbits(V) == 64 || isFloat32(unbox(c, "float64")))
// a value written by reflecting and read by mapping comes back; only what mapping
// leaves alone, the zero value of a string or duration, is not set again
lemma roundTrip(V reflect.Type, c any)
  requires V != nil && writable(V) && scalar(V) && V != RTIME() && isContent(V, c)
  ensures [C21 converts] convOK(V, textOf(V, c))
  ensures [C21 restores] convTo(V, textOf(V, c)) == c
  ensures [C21 zero] keepOld(V, textOf(V, c)) ==> emptyContent(V, c)
  proof { }

// ---- reflection entry points ----
func (*Section).ReflectFrom(s, v) (err)
  requires s.f.lock.st == 0
  modifies s.f.sectionList, s.f.sectionIndexes, s.f.sections
  modifies where(Section.keyList, q, q.f == s.f), where(Section.keys, q, q.f == s.f), where(Section.keysHash, q, q.f == s.f), where(Section.Comment, q, q.f == s.f), where(Section.isRawSection, q, q.f == s.f), where(Section.rawBody, q, q.f == s.f)
  modifies where(Key.value, k, k.s.f == s.f), where(Key.shadows, k, k.s.f == s.f), where(Key.isBooleanType, k, k.s.f == s.f), where(Key.isAutoIncrement, k, k.s.f == s.f), where(Key.Comment, k, k.s.f == s.f), where(Key.nestedValues, k, k.s.f == s.f), where(Key.isShadow, k, k.s.f == s.f)
  modifies global.rtrace, global.wtrace, global.etrace
  allocates Section, Key, bytes.Buffer
  update global.etrace = snoc(old(global.etrace), eev(s, v, err))
  ensures [C21 nilptr] !old(isPtrVal(v)) && !(sliceAllowed(s) && kindOf(vof(v)) == 23) ==> err != nil && frame(old, global.etrace)
  ensures [C21 tostruct] old(isPtrVal(v)) && !sliceAllowed(s) ==>
    global.rtrace == snoc(old(global.rtrace), rev(s, old(unbox(cont(vof(v)), "reflect.Value")), old(isLast(s)), old(s.Comment), err))
  ensures [C21 renewed] old(isPtrVal(v)) && sliceAllowed(s) ==> s.name == "" && err != nil || (let e = global.rtrace[len(old(global.rtrace))] in let sec = evSec(e) in
    sec.f == s.f && sec.name == normSec(s.f, s.name) && !old(alloc(sec)) && global.rtrace == snoc(old(global.rtrace), rev(sec, old(unbox(cont(vof(v)), "reflect.Value")), true, "", err)))
  loop 0:
    decreases rlen(cont(val)) - i
    invariant s.f.lock.st == 0 && 0 <= i && i <= rlen(cont(val))
    starts [C21 start] len(s.f.sections[lookSec(s.f, s.name)]) == 0
    step [C21 element] let e = global.rtrace[len(iter(global.rtrace))] in let sec = evSec(e) in
      global.rtrace == snoc(iter(global.rtrace), e) && e == rev(sec, vidx(cont(val), iter(i)), true, "", nil) && sec.f == s.f && sec.name == normSec(s.f, s.name) && !iter(alloc(sec)) && i == iter(i) + 1
    leaves [C21 all] i >= rlen(cont(val))
  end


func (*File).ReflectFrom(f, v) (err)
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections
  modifies where(Section.keyList, q, q.f == f), where(Section.keys, q, q.f == f), where(Section.keysHash, q, q.f == f), where(Section.Comment, q, q.f == f), where(Section.isRawSection, q, q.f == f), where(Section.rawBody, q, q.f == f)
  modifies where(Key.value, k, k.s.f == f), where(Key.shadows, k, k.s.f == f), where(Key.isBooleanType, k, k.s.f == f), where(Key.isAutoIncrement, k, k.s.f == f), where(Key.Comment, k, k.s.f == f), where(Key.nestedValues, k, k.s.f == f), where(Key.isShadow, k, k.s.f == f)
  modifies global.rtrace, global.wtrace, global.etrace
  allocates Section, Key, bytes.Buffer
  ensures [C21 default] let e = global.etrace[len(old(global.etrace))] in let sec = evSec(e) in sec.f == f && sec.name == lookSec(f, "") && e == eev(sec, v, err) && global.etrace == snoc(old(global.etrace), e)
func ReflectFromWithMapper(cfg, v, mapper) (err)
  requires alloc(cfg)
  requires cfg.lock.st == 0
  modifies cfg.NameMapper
  modifies cfg.sectionList, cfg.sectionIndexes, cfg.sections
  modifies where(Section.keyList, q, q.f == cfg), where(Section.keys, q, q.f == cfg), where(Section.keysHash, q, q.f == cfg), where(Section.Comment, q, q.f == cfg), where(Section.isRawSection, q, q.f == cfg), where(Section.rawBody, q, q.f == cfg)
  modifies where(Key.value, k, k.s.f == cfg), where(Key.shadows, k, k.s.f == cfg), where(Key.isBooleanType, k, k.s.f == cfg), where(Key.isAutoIncrement, k, k.s.f == cfg), where(Key.Comment, k, k.s.f == cfg), where(Key.nestedValues, k, k.s.f == cfg), where(Key.isShadow, k, k.s.f == cfg)
  modifies global.rtrace, global.wtrace, global.etrace
  allocates Section, Key, bytes.Buffer
  ensures [C21,C24 mapper] cfg.NameMapper == mapper && let e = global.etrace[len(old(global.etrace))] in let sec = evSec(e) in sec.f == cfg && sec.name == lookSec(cfg, "") && e == eev(sec, v, err) && global.etrace == snoc(old(global.etrace), e)
func ReflectFrom(cfg, v) (err)
  requires alloc(cfg)
  requires cfg.lock.st == 0
  modifies cfg.NameMapper
  modifies cfg.sectionList, cfg.sectionIndexes, cfg.sections
  modifies where(Section.keyList, q, q.f == cfg), where(Section.keys, q, q.f == cfg), where(Section.keysHash, q, q.f == cfg), where(Section.Comment, q, q.f == cfg), where(Section.isRawSection, q, q.f == cfg), where(Section.rawBody, q, q.f == cfg)
  modifies where(Key.value, k, k.s.f == cfg), where(Key.shadows, k, k.s.f == cfg), where(Key.isBooleanType, k, k.s.f == cfg), where(Key.isAutoIncrement, k, k.s.f == cfg), where(Key.Comment, k, k.s.f == cfg), where(Key.nestedValues, k, k.s.f == cfg), where(Key.isShadow, k, k.s.f == cfg)
  modifies global.rtrace, global.wtrace, global.etrace
  allocates Section, Key, bytes.Buffer
  ensures [C21,C24 nomapper] cfg.NameMapper == nil && let e = global.etrace[len(old(global.etrace))] in let sec = evSec(e) in sec.f == cfg && sec.name == lookSec(cfg, "") && e == eev(sec, v, err) && global.etrace == snoc(old(global.etrace), e)

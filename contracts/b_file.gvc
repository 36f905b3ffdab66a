// configuration the package variables may hold
axiom [defaultSection] DefaultSection != ""
axiom [lineBreak] LineBreak != ""

// The section registry of a File.

spec insSec(f *File) bool = f.options.Insensitive || f.options.InsensitiveSections
spec insKey(f *File) bool = f.options.Insensitive || f.options.InsensitiveKeys
spec normSec(f *File, n string) string = if insSec(f) then s.lower(n) else n
spec normKey(f *File, n string) string = if insKey(f) then s.lower(n) else n
// the name a lookup uses: the empty name stands for the default section
spec lookSec(f *File, n string) string = normSec(f, if n == "" then DefaultSection else n)

// occurrences of n among the first k names
rec cnt(l []string, n string, k int) int =
  if k <= 0 then 0 else cnt(l, n, k - 1) + (if l[k-1] == n then 1 else 0)

object File f
  // configuration: a usable child-section delimiter, which the default section's name does not contain
  inv [delim] f.options.ChildSectionDelimiter != "" && s.valid(f.options.ChildSectionDelimiter) && s.lidx(lookSec(f, ""), f.options.ChildSectionDelimiter) < 0
  inv [sources] forall i int :: {f.dataSources[i]} 0 <= i && i < len(f.dataSources) ==> usable(f.dataSources[i])
  inv [C22 lockoff] f.lock.off == !f.BlockMode
  inv [C01 lens] len(f.sectionIndexes) == len(f.sectionList)
  inv [C01 mapnn] !isnil(f.sections)
  inv [C01 idx] forall i int :: 0 <= i && i < len(f.sectionList) ==> f.sectionIndexes[i] == cnt(f.sectionList, f.sectionList[i], i)
  inv [C01 count] forall n string :: {f.sections[n]} {cnt(f.sectionList, n, len(f.sectionList))} len(f.sections[n]) == cnt(f.sectionList, n, len(f.sectionList))
  inv [C01 has] forall n string :: {has(f.sections, n)} has(f.sections, n) ==> len(f.sections[n]) > 0
  inv [C01 secs] forall n string, i int :: {f.sections[n][i]} has(f.sections, n) && 0 <= i && i < len(f.sections[n]) ==> alloc(f.sections[n][i]) && f.sections[n][i].f == f && f.sections[n][i].name == n
  inv [C01 inj] forall n string, i int, j int :: {f.sections[n][i], f.sections[n][j]} has(f.sections, n) && 0 <= i && i < j && j < len(f.sections[n]) ==> f.sections[n][i] != f.sections[n][j]
  inv [C01 uniq] !f.options.AllowNonUniqueSections ==> forall n string :: {f.sections[n]} len(f.sections[n]) <= 1
  inv [C01 nonempty] !contains(f.sectionList, "")
  inv [C05 lower] insSec(f) ==> forall i int :: 0 <= i && i < len(f.sectionList) ==> s.lower(f.sectionList[i]) == f.sectionList[i]

object Section s
  inv [sfile] alloc(s.f)
  inv [C03 mapsnn] !isnil(s.keys) && !isnil(s.keysHash)
  inv [C03 keys] forall k string :: {has(s.keys, k)} {contains(s.keyList, k)} has(s.keys, k) <==> contains(s.keyList, k)
  inv [C03 hash] forall k string :: {has(s.keysHash, k)} {contains(s.keyList, k)} has(s.keysHash, k) <==> contains(s.keyList, k)
  inv [C03 nodup] forall i int, j int :: {s.keyList[i], s.keyList[j]} 0 <= i && i < j && j < len(s.keyList) ==> s.keyList[i] != s.keyList[j]
  inv [C03 key] forall k string :: {s.keys[k]} has(s.keys, k) ==> alloc(s.keys[k]) && s.keys[k].s == s && s.keys[k].name == k
  inv [C06 main] forall k string :: {s.keys[k]} has(s.keys, k) ==> !s.keys[k].isShadow
  inv [C03 val] forall k string :: {s.keysHash[k]} has(s.keys, k) ==> s.keysHash[k] == s.keys[k].value
  inv [C03 nonempty] !contains(s.keyList, "")
  inv [C05 lower] insKey(s.f) ==> forall i int :: 0 <= i && i < len(s.keyList) ==> s.lower(s.keyList[i]) == s.keyList[i]

  inv [C05 secname] insSec(s.f) ==> s.lower(s.name) == s.name

object Key k
  inv [ksec] alloc(k.s)
  inv [C06 shadows] forall i int :: {k.shadows[i]} 0 <= i && i < len(k.shadows) ==> alloc(k.shadows[i]) && k.shadows[i].isShadow && k.shadows[i].s == k.s && k.shadows[i].name == k.name
  inv [C06 flat] k.isShadow ==> len(k.shadows) == 0

func inSlice(str, s) (r)
  flags guarded
  flags noinv
  ensures r <==> contains(s, str)
  loop 0:
    invariant forall j int :: 0 <= j && j < $i ==> s[j] != str
  end

lemma cntZero(l []string, n string, k int)
  requires 0 <= k && k <= len(l)
  ensures 0 <= cnt(l, n, k)
  ensures cnt(l, n, k) == 0 <==> (forall j int :: 0 <= j && j < k ==> l[j] != n)
  decreases k
  proof { if k > 0 { cntZero(l, n, k - 1) } }

lemma cntMono(l []string, n string, a int, b int)
  requires 0 <= a && a <= b
  ensures cnt(l, n, a) <= cnt(l, n, b)
  decreases b
  proof { if a < b { cntMono(l, n, a, b - 1) } }

lemma cntLess(l []string, i int)
  requires 0 <= i && i < len(l)
  ensures 0 <= cnt(l, l[i], i) && cnt(l, l[i], i) < cnt(l, l[i], len(l))
  proof { cntZero(l, l[i], i); assert cnt(l, l[i], i + 1) == cnt(l, l[i], i) + 1; cntMono(l, l[i], i + 1, len(l)) }

lemma cntSame(l []string, m []string, n string, k int)
  requires 0 <= k && k <= len(l) && k <= len(m)
  requires forall j int :: 0 <= j && j < k ==> l[j] == m[j]
  ensures cnt(l, n, k) == cnt(m, n, k)
  decreases k
  proof { if k > 0 { cntSame(l, m, n, k - 1) } }

lemma cntContains(l []string, n string)
  ensures contains(l, n) <==> cnt(l, n, len(l)) > 0
  proof { cntZero(l, n, len(l)) }

lemma cntSnoc(l []string, v string, n string, k int)
  requires 0 <= k && k <= len(l)
  ensures cnt(snoc(l, v), n, k) == cnt(l, n, k)
  proof { cntSame(snoc(l, v), l, n, k) }

func (*File).NewSection(f, name) (sec, err)
  flags guarded
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections
  allocates Section
  hint return forall n string, k int :: {cnt(f.sectionList, n, k)} cntSnoc(old(f.sectionList), normSec(f, name), n, k)
  hint entry forall n string :: {contains(f.sectionList, n)} cntContains(f.sectionList, n)
  hint return forall n string :: {contains(f.sectionList, n)} cntContains(f.sectionList, n)
  ensures [C05 fold] sec != nil ==> sec.name == normSec(f, name) && contains(f.sectionList, normSec(f, name))
  ensures [C01 empty] name == "" ==> sec == nil && err != nil && f.sectionList == old(f.sectionList) && f.sections == old(f.sections)
  ensures [C01 named] name != "" ==> err == nil && alloc(sec) && sec.f == f && sec.name == normSec(f, name)
  ensures [C01 last] name != "" ==> contains(f.sectionList, normSec(f, name)) && len(f.sections[normSec(f, name)]) > 0 && sec == f.sections[normSec(f, name)][len(f.sections[normSec(f, name)])-1]
  ensures [C01 reuse] name != "" && !f.options.AllowNonUniqueSections && old(contains(f.sectionList, normSec(f, name))) ==>
      sec == old(f.sections[normSec(f, name)][0]) && f.sectionList == old(f.sectionList) && f.sectionIndexes == old(f.sectionIndexes) && f.sections == old(f.sections)
  ensures [C01 append] name != "" && (f.options.AllowNonUniqueSections || !old(contains(f.sectionList, normSec(f, name)))) ==>
      f.sectionList == snoc(old(f.sectionList), normSec(f, name)) && fresh(sec) && f.sections == mapput(old(f.sections), normSec(f, name), snoc(old(f.sections[normSec(f, name)]), sec)) && sec.keyList == empty("[]string") && sec.Comment == "" && !sec.isRawSection

func newSection(f, name) (sec)
  flags guarded
  requires alloc(f)
  flags noinv
  allocates Section
  ensures fresh(sec) && next(Section) == old(next(Section)) + 1 && sec.f == f && sec.name == name && sec.keyList == empty("[]string") && sec.Comment == "" && !sec.isRawSection && sec.rawBody == "" 
  ensures (forall k string :: !has(sec.keys, k)) && (forall k string :: !has(sec.keysHash, k)) && !isnil(sec.keys) && !isnil(sec.keysHash)

// ---- lookups ----

func (*File).SectionsByName(f, name) (secs, err)
  flags guarded
  flags shares
  requires f.lock.st == 0
  ensures [C05 fold] err == nil <==> len(f.sections[lookSec(f, name)]) > 0
  ensures [C01 found] len(f.sections[lookSec(f, name)]) > 0 ==> err == nil && secs == f.sections[lookSec(f, name)]
  ensures [C01 missing] len(f.sections[lookSec(f, name)]) == 0 ==> err != nil && len(secs) == 0

func (*File).GetSection(f, name) (sec, err)
  flags guarded
  requires f.lock.st == 0
  ensures [C05 fold] err == nil <==> len(f.sections[lookSec(f, name)]) > 0
  ensures [C05 folded] sec != nil ==> sec.name == lookSec(f, name)
  ensures [C01 found] len(f.sections[lookSec(f, name)]) > 0 ==> err == nil && sec == f.sections[lookSec(f, name)][0] && alloc(sec)
  ensures [C01 missing] len(f.sections[lookSec(f, name)]) == 0 ==> err != nil && sec == nil

func (*File).HasSection(f, name) (r)
  flags guarded
  requires f.lock.st == 0
  hint entry cntContains(f.sectionList, lookSec(f, name))
  ensures [C05 fold] r <==> contains(f.sectionList, lookSec(f, name))
  ensures [C01 has] r <==> contains(f.sectionList, lookSec(f, name))

func (*File).Section(f, name) (sec)
  flags guarded
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections
  allocates Section
  hint entry cntContains(f.sectionList, lookSec(f, name))
  ensures [C05 fold] sec != nil ==> sec.name == lookSec(f, name)
  ensures [C01 result] alloc(sec) && sec.f == f && sec.name == lookSec(f, name)
  ensures old(contains(f.sectionList, lookSec(f, name))) <==> old(len(f.sections[lookSec(f, name)])) > 0
  ensures [C01 found] old(contains(f.sectionList, lookSec(f, name))) ==> sec == old(f.sections[lookSec(f, name)][0]) && f.sectionList == old(f.sectionList) && f.sectionIndexes == old(f.sectionIndexes) && f.sections == old(f.sections)
  ensures [C01 create] !old(contains(f.sectionList, lookSec(f, name))) ==> fresh(sec) && f.sectionList == snoc(old(f.sectionList), lookSec(f, name)) && f.sections == mapput(old(f.sections), lookSec(f, name), snoc(old(f.sections[lookSec(f, name)]), sec)) && sec.keyList == empty("[]string") && sec.Comment == "" && !sec.isRawSection

func (*File).SectionWithIndex(f, name, index) (sec)
  flags guarded
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections
  allocates Section
  hint entry cntContains(f.sectionList, lookSec(f, name))
  ensures [C05 fold] sec != nil ==> sec.name == lookSec(f, name)
  ensures [C01 result] alloc(sec) && sec.f == f && sec.name == lookSec(f, name)
  ensures [C01 found] 0 <= index && index < old(len(f.sections[lookSec(f, name)])) ==> sec == old(f.sections[lookSec(f, name)][index]) && next(Section) == old(next(Section)) && f.sectionList == old(f.sectionList) && f.sectionIndexes == old(f.sectionIndexes) && f.sections == old(f.sections)
  ensures [C01 create] !(0 <= index && index < old(len(f.sections[lookSec(f, name)]))) && (f.options.AllowNonUniqueSections || !old(contains(f.sectionList, lookSec(f, name)))) ==> fresh(sec) && f.sectionList == snoc(old(f.sectionList), lookSec(f, name)) && f.sections == mapput(old(f.sections), lookSec(f, name), snoc(old(f.sections[lookSec(f, name)]), sec)) && sec.keyList == empty("[]string") && sec.Comment == "" && !sec.isRawSection

func (*File).Sections(f) (r)
  flags guarded
  requires f.lock.st == 0
  hint entry forall j int :: {f.sectionList[j]} cntLess(f.sectionList, j)
  loop 0:
    invariant len(sections) == (if len(pre(sections)) == 0 then $i else len(pre(sections))) && (len(pre(sections)) == 0 || len(pre(sections)) == len(f.sectionList))
    invariant forall j int :: 0 <= j && j < $i ==> sections[j] == f.sections[f.sectionList[j]][cnt(f.sectionList, f.sectionList[j], j)]
  end
  ensures [C01 len] len(r) == len(f.sectionList)
  ensures [C01 order] forall j int :: 0 <= j && j < len(r) ==> r[j] == f.sections[f.sectionList[j]][cnt(f.sectionList, f.sectionList[j], j)] && r[j].name == f.sectionList[j] && alloc(r[j])

func (*File).SectionStrings(f) (r)
  ensures [C01 names] r == f.sectionList

func (*File).NewRawSection(f, name, body) (sec, err)
  flags guarded
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections, where(Section.isRawSection, s2, s2 == f.sections[normSec(f, name)][0]), where(Section.rawBody, s2, s2 == f.sections[normSec(f, name)][0])
  allocates Section
  ensures [C01 empty] name == "" ==> sec == nil && err != nil && f.sectionList == old(f.sectionList) && f.sections == old(f.sections)
  ensures [C01 named] name != "" ==> err == nil && alloc(sec) && sec.f == f && sec.name == normSec(f, name) && contains(f.sectionList, normSec(f, name)) && sec.isRawSection && sec.rawBody == body

func (*File).NewSections(f, names) (err)
  flags guarded
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections
  allocates Section
  loop 0:
    invariant err == nil
    invariant f.lock.st == 0
    invariant forall j int :: 0 <= j && j < $i ==> names[j] != "" && contains(f.sectionList, normSec(f, names[j]))
  end
  ensures [C01 all] (err == nil) <==> !contains(names, "")
  ensures [C01 created] err == nil ==> forall j int :: 0 <= j && j < len(names) ==> contains(f.sectionList, normSec(f, names[j]))

// ---- deletion ----

spec without(l []string, p int) []string = l[:p] ++ l[p+1:]

lemma containsWithout(l []string, p int, x string)
  requires 0 <= p && p < len(l) && forall i int, j int :: {l[i], l[j]} 0 <= i && i < j && j < len(l) ==> l[i] != l[j]
  ensures contains(without(l, p), x) <==> contains(l, x) && x != l[p]
  proof {
    assert forall j int :: {l[j]} 0 <= j && j < p ==> without(l, p)[j] == l[j]
    assert forall j int :: {l[j]} p < j && j < len(l) ==> without(l, p)[j-1] == l[j]
  }

// position of the i-th (0-based) occurrence of n among the first k names, or -1
rec nth(l []string, n string, i int, k int) int =
  if k <= 0 then 0 - 1 else if l[k-1] == n && cnt(l, n, k - 1) == i then k - 1 else nth(l, n, i, k - 1)

lemma nthIn(l []string, n string, i int, k int)
  requires 0 <= k && k <= len(l) && 0 <= i
  ensures cnt(l, n, k) <= i ==> nth(l, n, i, k) == 0 - 1
  ensures cnt(l, n, k) > i ==> 0 <= nth(l, n, i, k) && nth(l, n, i, k) < k && l[nth(l, n, i, k)] == n && cnt(l, n, nth(l, n, i, k)) == i
  decreases k
  proof { if k > 0 { nthIn(l, n, i, k - 1) } }

lemma cntWithout(l []string, p int, n string, k int)
  requires 0 <= p && p < len(l) && 0 <= k && k < len(l)
  ensures cnt(without(l, p), n, k) == (if k <= p then cnt(l, n, k) else cnt(l, n, k + 1) - (if l[p] == n then 1 else 0))
  decreases k
  proof { if k > 0 { cntWithout(l, p, n, k - 1) } }

func (*File).DeleteSectionWithIndex(f, name, index) (err)
  flags guarded
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections
  hint entry nthIn(f.sectionList, lookSec(f, name), if index < 0 then 0 else index, len(f.sectionList))
  hint entry forall j int :: {f.sectionList[j]} cntLess(f.sectionList, j)
  hint return forall n string, k int :: {cnt(f.sectionList, n, k)} cntWithout(old(f.sectionList), nth(old(f.sectionList), lookSec(f, name), index, len(old(f.sectionList))), n, k)
  loop 0:
    opens File.idx, File.count
    hint begin nthIn(old(f.sectionList), name, index, $i)
    hint begin assert $i < len(old(f.sectionList)) && nth(old(f.sectionList), name, index, $i + 1) == (if old(f.sectionList)[$i] == name && cnt(old(f.sectionList), name, $i) == index then $i else nth(old(f.sectionList), name, index, $i))
    invariant 0 <= index
    invariant sectionListCopy == old(f.sectionList)
    invariant occurrences == cnt(old(f.sectionList), name, $i)
    invariant occurrences <= index ==> f.sectionList == old(f.sectionList) && f.sectionIndexes == old(f.sectionIndexes) && f.sections == old(f.sections)
    invariant occurrences > index ==> f.sectionList == without(old(f.sectionList), nth(old(f.sectionList), name, index, $i)) 
    invariant occurrences > index ==> f.sections == (if len(old(f.sections)[name]) <= 1 then mapdel(old(f.sections), name) else mapput(old(f.sections), name, old(f.sections)[name][:index] ++ old(f.sections)[name][index+1:]))
    invariant occurrences > index ==> len(f.sectionIndexes) == len(old(f.sectionList)) - 1
    invariant occurrences > index ==> forall j int :: {f.sectionIndexes[j]} 0 <= j && j < len(f.sectionIndexes) ==> f.sectionIndexes[j] ==
         (if j < nth(old(f.sectionList), name, index, $i) then old(f.sectionIndexes)[j]
          else if j + 1 < $i && old(f.sectionList)[j+1] == name then old(f.sectionIndexes)[j+1] - 1
          else old(f.sectionIndexes)[j+1])
  end
  ensures [C05 fold] err == nil && index < old(len(f.sections[lookSec(f, name)])) ==> len(f.sections[lookSec(f, name)]) < old(len(f.sections[lookSec(f, name)]))
  ensures [C05 others] forall n string :: {f.sections[n]} n != lookSec(f, name) ==> f.sections[n] == old(f.sections[n])
  ensures [C02 refused] index < 0 || (!f.options.AllowNonUniqueSections && index != 0) ==> err != nil && f.sectionList == old(f.sectionList) && f.sectionIndexes == old(f.sectionIndexes) && f.sections == old(f.sections)
  ensures [C02 accepted] 0 <= index && (f.options.AllowNonUniqueSections || index == 0) ==> err == nil
  ensures [C02 absent] 0 <= index && old(len(f.sections[lookSec(f, name)])) <= index ==> f.sectionList == old(f.sectionList) && f.sectionIndexes == old(f.sectionIndexes) && f.sections == old(f.sections)
  ensures [C02 removed] err == nil && index < old(len(f.sections[lookSec(f, name)])) ==>
     f.sectionList == without(old(f.sectionList), nth(old(f.sectionList), lookSec(f, name), index, len(old(f.sectionList))))
  ensures [C02 others] forall n string :: {f.sections[n]} n != lookSec(f, name) ==> f.sections[n] == old(f.sections[n])
  ensures [C02 siblings] err == nil && index < old(len(f.sections[lookSec(f, name)])) ==>
     f.sections[lookSec(f, name)] == old(f.sections[lookSec(f, name)])[:index] ++ old(f.sections[lookSec(f, name)])[index+1:]

// the names of l[:k] other than n, in order
rec filt(l []string, n string, k int) []string =
  if k <= 0 then empty("[]string") else if l[k-1] == n then filt(l, n, k - 1) else snoc(filt(l, n, k - 1), l[k-1])

lemma filtWithout(l []string, p int, n string, k int)
  requires 0 <= p && p < len(l) && l[p] == n && 0 <= k && k < len(l)
  ensures filt(without(l, p), n, k) == (if k <= p then filt(l, n, k) else filt(l, n, k + 1))
  decreases k
  proof { if k > 0 { filtWithout(l, p, n, k - 1) } }

lemma filtNone(l []string, n string, k int)
  requires 0 <= k && k <= len(l) && cnt(l, n, k) == 0
  ensures filt(l, n, k) == l[:k]
  decreases k
  proof { if k > 0 { cntZero(l, n, k); cntZero(l, n, k - 1); filtNone(l, n, k - 1) } }

func (*File).DeleteSection(f, name)
  flags guarded
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections
  hint entry cntContains(f.sectionList, lookSec(f, name))
  hint return cntContains(f.sectionList, lookSec(f, name))
  hint entry when !contains(f.sectionList, lookSec(f, name)) :: filtNone(f.sectionList, lookSec(f, name), len(f.sectionList))
  hint return when !contains(f.sectionList, lookSec(f, name)) :: filtNone(f.sectionList, lookSec(f, name), len(f.sectionList))
  loop 0:
    hint begin nthIn(f.sectionList, lookSec(f, name), 0, len(f.sectionList))
    hint end when $i <= len(old(f.sections)[lookSec(f, name)]) :: filtWithout(iter(f.sectionList), nth(iter(f.sectionList), lookSec(f, name), 0, len(iter(f.sectionList))), lookSec(f, name), len(iter(f.sectionList)) - 1)
    invariant $i <= len(secs)
    invariant secs == old(f.sections)[lookSec(f, name)]
    invariant f.lock.st == 0
    invariant f.sections[lookSec(f, name)] == old(f.sections)[lookSec(f, name)][$i:]
    invariant forall n string :: {f.sections[n]} n != lookSec(f, name) ==> f.sections[n] == old(f.sections)[n]
    invariant filt(f.sectionList, lookSec(f, name), len(f.sectionList)) == filt(old(f.sectionList), lookSec(f, name), len(old(f.sectionList)))
  end
  ensures [C05 fold] len(f.sections[lookSec(f, name)]) == 0
  ensures [C02 gone] !contains(f.sectionList, lookSec(f, name)) && len(f.sections[lookSec(f, name)]) == 0
  ensures [C02 order] f.sectionList == filt(old(f.sectionList), lookSec(f, name), len(old(f.sectionList)))
  ensures [C02 kept] forall n string :: {f.sections[n]} n != lookSec(f, name) ==> f.sections[n] == old(f.sections)[n]

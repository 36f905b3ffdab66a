// Sections: the key registry and child-section inheritance.

func (*Section).Name(s) (r)
  flags pure
  ensures r == s.name

func (*Section).Body(s) (r)
  ensures [C14 body] r == s.trim(s.rawBody)

func (*Section).SetBody(s, body)
  modifies s.rawBody
  ensures [C14 setbody] s.rawBody == (if s.isRawSection then body else old(s.rawBody))

func (*Section).NewKey(s, name, val) (key, err)
  flags guarded
  requires s.f.lock.st == 0
  modifies s.keyList, s.keys, s.keysHash, where(Key.value, k, k == s.keys[normKey(s.f, name)]), where(Key.shadows, k, k == s.keys[normKey(s.f, name)])
  allocates Key
  ensures [C05 fold] key != nil ==> key.name == normKey(s.f, name) && has(s.keys, normKey(s.f, name))
  ensures [C03 empty] name == "" ==> key == nil && err != nil && s.keyList == old(s.keyList) && s.keys == old(s.keys) && s.keysHash == old(s.keysHash) && next(Key) == old(next(Key))
  ensures [C03 new] name != "" && !old(contains(s.keyList, normKey(s.f, name))) ==> err == nil && fresh(key) && s.keyList == snoc(old(s.keyList), normKey(s.f, name)) && s.keys == mapput(old(s.keys), normKey(s.f, name), key) && s.keysHash == mapput(old(s.keysHash), normKey(s.f, name), val)
  ensures [C03 newkey] name != "" && !old(contains(s.keyList, normKey(s.f, name))) ==> key.s == s && key.name == normKey(s.f, name) && key.value == val && key.Comment == "" && !key.isAutoIncrement && !key.isBooleanType && !key.isShadow && len(key.shadows) == 0 && len(key.nestedValues) == 0
  ensures [C03 same] name != "" && old(contains(s.keyList, normKey(s.f, name))) ==> s.keyList == old(s.keyList) && s.keys == old(s.keys)
  ensures [C03,C06 overwrite] name != "" && old(contains(s.keyList, normKey(s.f, name))) && !s.f.options.AllowShadows ==> err == nil && key == old(s.keys[normKey(s.f, name)]) && key.value == val && key.shadows == old(s.keys[normKey(s.f, name)].shadows) && s.keysHash == mapput(old(s.keysHash), normKey(s.f, name), val)
  ensures [C06 refused] name != "" && old(contains(s.keyList, normKey(s.f, name))) && s.f.options.AllowShadows && old(shadowRefused(s.keys[normKey(s.f, name)])) ==> err != nil && key == nil && s.keys[normKey(s.f, name)].shadows == old(s.keys[normKey(s.f, name)].shadows) && s.keys[normKey(s.f, name)].value == old(s.keys[normKey(s.f, name)].value)
  ensures [C06 first] name != "" && old(contains(s.keyList, normKey(s.f, name))) && s.f.options.AllowShadows && !old(shadowRefused(s.keys[normKey(s.f, name)])) ==> err == nil && key == old(s.keys[normKey(s.f, name)]) && key.value == old(s.keys[normKey(s.f, name)].value) && s.keysHash == old(s.keysHash)
  ensures [C06 dup] name != "" && old(contains(s.keyList, normKey(s.f, name))) && s.f.options.AllowShadows && !old(shadowRefused(s.keys[normKey(s.f, name)])) && old(shadowDup(s.keys[normKey(s.f, name)], val)) ==> key.shadows == old(s.keys[normKey(s.f, name)].shadows)
  ensures [C06 added] name != "" && old(contains(s.keyList, normKey(s.f, name))) && s.f.options.AllowShadows && !old(shadowRefused(s.keys[normKey(s.f, name)])) && !old(shadowDup(s.keys[normKey(s.f, name)], val)) ==> len(key.shadows) == len(old(s.keys[normKey(s.f, name)].shadows)) + 1 && key.shadows[:len(key.shadows)-1] == old(s.keys[normKey(s.f, name)].shadows) && key.shadows[len(key.shadows)-1].value == val

func (*Section).NewBooleanKey(s, name) (key, err)
  flags guarded
  requires s.f.lock.st == 0
  modifies s.keyList, s.keys, s.keysHash, where(Key.value, k, k == s.keys[normKey(s.f, name)]), where(Key.shadows, k, k == s.keys[normKey(s.f, name)]), where(Key.isBooleanType, k, k == s.keys[normKey(s.f, name)])
  allocates Key
  ensures [C05 fold] key != nil ==> key.name == normKey(s.f, name) && has(s.keys, normKey(s.f, name))
  ensures [C03 empty] name == "" ==> key == nil && err != nil && s.keyList == old(s.keyList) && s.keys == old(s.keys) && s.keysHash == old(s.keysHash)
  ensures [C03 bool] err == nil ==> alloc(key) && key.isBooleanType && key.s == s && key.name == normKey(s.f, name) && key == s.keys[normKey(s.f, name)]
  ensures [C03,C06 err] err == nil <==> name != "" && !(s.f.options.AllowShadows && old(contains(s.keyList, normKey(s.f, name))) && old(shadowRefused(s.keys[normKey(s.f, name)])))
  ensures [C03 order] err == nil ==> s.keyList == (if old(contains(s.keyList, normKey(s.f, name))) then old(s.keyList) else snoc(old(s.keyList), normKey(s.f, name)))
  ensures [C03 keys] err == nil ==> s.keys == (if old(contains(s.keyList, normKey(s.f, name))) then old(s.keys) else mapput(old(s.keys), normKey(s.f, name), key))
  ensures [C03 value] err == nil && !(s.f.options.AllowShadows && old(contains(s.keyList, normKey(s.f, name)))) ==> key.value == "true"

// the key named k in the nearest existing ancestor of section name sn that has one
rec findKey(f *File, sn string, k string) *Key =
  let i = s.lidx(sn, f.options.ChildSectionDelimiter) in
  if i < 0 then nil
  else let sec = f.sections[lookSec(f, sn[:i])] in
    if len(sec) == 0 then findKey(f, sn[:i], k)
    else if has(sec[0].keys, k) then sec[0].keys[k]
    else findKey(f, sec[0].name, k)

spec lookKey(s *Section, k string) *Key = if has(s.keys, k) then s.keys[k] else findKey(s.f, s.name, k)
spec depth(f *File, sn string) int = if s.lidx(sn, f.options.ChildSectionDelimiter) < 0 then 0 else len(sn) + 1

func (*Section).GetKey(s, name) (key, err)
  flags guarded
  requires s.f.lock.st == 0
  decreases depth(s.f, s.name)
  loop 0:
    decreases len(sname)
    invariant s.f.lock.st == 0
    invariant len(sname) <= len(s.name)
    invariant insSec(s.f) ==> s.lower(sname) == sname
    invariant sname == s.name || depth(s.f, s.name) > 0
    invariant findKey(s.f, sname, name) == findKey(s.f, s.name, name)
  end
  ensures [C05 fold] key != nil ==> key.name == normKey(s.f, name)
  ensures [C05 folded] has(s.keys, normKey(s.f, name)) ==> key != nil
  ensures [C04 found] key == lookKey(s, normKey(s.f, name))
  ensures [C04 err] err == nil <==> key != nil
  ensures [C04 valid] key != nil ==> alloc(key) && key.name == normKey(s.f, name) && key.s.f == s.f
  ensures [C04 held] key != nil ==> alloc(key.s) && has(key.s.keys, key.name) && key.s.keys[key.name] == key && !key.isShadow

func (*Section).HasKey(s, name) (r)
  flags guarded
  requires s.f.lock.st == 0
  ensures [C05 fold] has(s.keys, normKey(s.f, name)) ==> r
  ensures [C03,C04 has] r <==> lookKey(s, normKey(s.f, name)) != nil

func (*Section).Haskey(s, name) (r)
  flags guarded
  requires s.f.lock.st == 0
  ensures [C05 fold] has(s.keys, normKey(s.f, name)) ==> r
  ensures [C03,C04 has] r <==> lookKey(s, normKey(s.f, name)) != nil

func (*Section).HasValue(s, value) (r)
  flags guarded
  requires s.f.lock.st == 0
  loop 0:
    invariant forall n string :: {s.keys[n]} $seen[n] ==> s.keys[n].value != value
  end
  ensures [C03 hasvalue] r <==> exists n string :: {s.keys[n]} has(s.keys, n) && s.keys[n].value == value

func (*Section).Key(s, name) (key)
  flags guarded
  requires s.f.lock.st == 0
  modifies s.keyList, s.keys, s.keysHash
  allocates Key
  ensures [C05 fold] key != nil ==> key.name == normKey(s.f, name)
  ensures [C04 found] old(lookKey(s, normKey(s.f, name))) != nil ==> key == old(lookKey(s, normKey(s.f, name))) && s.keyList == old(s.keyList) && s.keys == old(s.keys) && s.keysHash == old(s.keysHash) && next(Key) == old(next(Key))
  ensures [C03 create] name != "" && old(lookKey(s, normKey(s.f, name))) == nil ==> fresh(key) && key.s == s && key.name == normKey(s.f, name) && key.value == "" && s.keyList == snoc(old(s.keyList), normKey(s.f, name)) && s.keys == mapput(old(s.keys), normKey(s.f, name), key)

// the keys of s in order
rec keysOf(s *Section, n int) []*Key = if n <= 0 then empty("[]*Key") else snoc(keysOf(s, n - 1), s.keys[s.keyList[n-1]])

lemma keysOfAt(s *Section, n int)
  requires 0 <= n && n <= len(s.keyList)
  ensures len(keysOf(s, n)) == n && forall j int :: {keysOf(s, n)[j]} 0 <= j && j < n ==> keysOf(s, n)[j] == s.keys[s.keyList[j]]
  decreases n
  proof { if n > 0 { keysOfAt(s, n - 1) } }

func (*Section).Keys(s) (r)
  requires s.f.lock.st == 0
  hint return keysOfAt(s, len(s.keyList))
  loop 0:
    invariant s.f.lock.st == 0
    invariant len(keys) == (if len(pre(keys)) == 0 then $i else len(pre(keys))) && (len(pre(keys)) == 0 || len(pre(keys)) == len(s.keyList))
    invariant s.keyList == old(s.keyList) && s.keys == old(s.keys) && s.keysHash == old(s.keysHash) && next(Key) == old(next(Key))
    invariant forall j int :: 0 <= j && j < $i ==> keys[j] == s.keys[s.keyList[j]]
  end
  ensures [C03 keys] r == keysOf(s, len(s.keyList))
  ensures [C03 each] len(r) == len(s.keyList) && forall j int :: 0 <= j && j < len(r) ==> r[j] == s.keys[s.keyList[j]] && alloc(r[j]) && r[j].name == s.keyList[j]

func (*Section).KeyStrings(s) (r)
  ensures [C03 names] r == s.keyList

func (*Section).KeysHash(s) (r)
  flags guarded
  requires s.f.lock.st == 0
  loop 0:
    invariant !isnil(hash)
    invariant forall n string :: {hash[n]} {has(hash, n)} (has(hash, n) <==> $seen[n]) && ($seen[n] ==> hash[n] == s.keysHash[n])
  end
  ensures [C03 hash] forall n string :: {r[n]} {has(r, n)} (has(r, n) <==> has(s.keys, n)) && (has(s.keys, n) ==> r[n] == s.keys[n].value)

func (*Section).DeleteKey(s, name)
  flags guarded
  requires s.f.lock.st == 0
  modifies s.keyList, s.keys, s.keysHash
  hint entry forall p int, x string :: {s.keyList[p], contains(s.keyList, x)} containsWithout(s.keyList, p, x)
  loop 0:
    invariant s.keyList == old(s.keyList)
    invariant forall j int :: 0 <= j && j < $i ==> s.keyList[j] != name
  end
  ensures [C05 fold] !has(s.keys, normKey(s.f, name))
  ensures [C03 gone] !contains(s.keyList, normKey(s.f, name)) && !has(s.keys, normKey(s.f, name)) && !has(s.keysHash, normKey(s.f, name))
  ensures [C03 absent] !old(contains(s.keyList, normKey(s.f, name))) ==> s.keyList == old(s.keyList) && s.keys == old(s.keys) && s.keysHash == old(s.keysHash)
  ensures [C03 kept] s.keys == mapdel(old(s.keys), normKey(s.f, name)) && s.keysHash == mapdel(old(s.keysHash), normKey(s.f, name))
  ensures [C03 order] old(contains(s.keyList, normKey(s.f, name))) ==> exists p int :: 0 <= p && p < len(old(s.keyList)) && old(s.keyList)[p] == normKey(s.f, name) && s.keyList == without(old(s.keyList), p)

// the keys of the existing ancestors of section name sn, nearest first
rec parentKeys(f *File, sn string, acc []*Key) []*Key =
  let i = s.lidx(sn, f.options.ChildSectionDelimiter) in
  if i < 0 then acc
  else let sec = f.sections[lookSec(f, sn[:i])] in
    if len(sec) == 0 then parentKeys(f, sn[:i], acc)
    else parentKeys(f, sn[:i], acc ++ keysOf(sec[0], len(sec[0].keyList)))

func (*Section).ParentKeys(s) (r)
  requires s.f.lock.st == 0
  loop 0:
    decreases len(sname)
    invariant s.f.lock.st == 0
    invariant parentKeys(s.f, sname, parentKeys) == parentKeys(s.f, s.name, empty("[]*Key"))
  end
  ensures [C04 parents] r == parentKeys(s.f, s.name, empty("[]*Key"))

// the sections whose names start with pre, among the first n
rec childSecs(f *File, pre string, n int) []*Section =
  if n <= 0 then empty("[]*Section")
  else if s.prefix(f.sectionList[n-1], pre) then snoc(childSecs(f, pre, n - 1), f.sections[f.sectionList[n-1]][cnt(f.sectionList, f.sectionList[n-1], n-1)])
  else childSecs(f, pre, n - 1)

func (*Section).ChildSections(s) (r)
  hint entry forall j int :: {s.f.sectionList[j]} cntLess(s.f.sectionList, j)
  loop 0:
    invariant children == childSecs(s.f, s.name + s.f.options.ChildSectionDelimiter, $i)
  end
  ensures [C04 children] r == childSecs(s.f, s.name + s.f.options.ChildSectionDelimiter, len(s.f.sectionList))

func (*File).ChildSections(f, name) (r)
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections
  allocates Section
  ensures [C04 children] r == childSecs(f, lookSec(f, name) + f.options.ChildSectionDelimiter, len(f.sectionList))

// Keys: values, shadows, nested values.

func newKey(s, name, val) (k)
  flags guarded
  requires alloc(s)
  flags noinv
  allocates Key
  ensures fresh(k) && next(Key) == old(next(Key)) + 1 && k.s == s && k.name == name && k.value == val && k.Comment == "" && !k.isAutoIncrement && !k.isBooleanType && !k.isShadow && len(k.shadows) == 0 && len(k.nestedValues) == 0

spec shadowRefused(k *Key) bool = k.isShadow || k.isAutoIncrement || k.isBooleanType
spec shadowDup(k *Key, val string) bool = !k.s.f.options.AllowDuplicateShadowValues && (k.value == val || exists i int :: {k.shadows[i]} 0 <= i && i < len(k.shadows) && k.shadows[i].value == val)

func (*Key).addShadow(k, val) (err)
  flags guarded
  modifies k.shadows
  allocates Key
  loop 0:
    invariant forall j int :: 0 <= j && j < $i ==> k.shadows[j].value != val
  end
  ensures [C06 refused] old(shadowRefused(k)) ==> err != nil && k.shadows == old(k.shadows)
  ensures [C06 dup] !old(shadowRefused(k)) && old(shadowDup(k, val)) ==> err == nil && k.shadows == old(k.shadows)
  ensures [C06 added] !old(shadowRefused(k)) && !old(shadowDup(k, val)) ==> err == nil && len(k.shadows) == len(old(k.shadows)) + 1 && k.shadows[:len(old(k.shadows))] == old(k.shadows) && fresh(k.shadows[len(old(k.shadows))]) && k.shadows[len(old(k.shadows))].value == val

func (*Key).AddShadow(k, val) (err)
  modifies k.shadows
  allocates Key
  ensures [C06 off] !k.s.f.options.AllowShadows || old(shadowRefused(k)) ==> err != nil && k.shadows == old(k.shadows)
  ensures [C06 dup] k.s.f.options.AllowShadows && !old(shadowRefused(k)) && old(shadowDup(k, val)) ==> err == nil && k.shadows == old(k.shadows)
  ensures [C06 added] k.s.f.options.AllowShadows && !old(shadowRefused(k)) && !old(shadowDup(k, val)) ==> err == nil && len(k.shadows) == len(old(k.shadows)) + 1 && k.shadows[:len(old(k.shadows))] == old(k.shadows) && k.shadows[len(old(k.shadows))].value == val

func (*Key).addNestedValue(k, val) (err)
  modifies k.nestedValues
  ensures [C06 refused] k.isAutoIncrement || k.isBooleanType ==> err != nil && k.nestedValues == old(k.nestedValues)
  ensures [C06 added] !k.isAutoIncrement && !k.isBooleanType ==> err == nil && k.nestedValues == snoc(old(k.nestedValues), val)

func (*Key).AddNestedValue(k, val) (err)
  modifies k.nestedValues
  ensures [C06 refused] !k.s.f.options.AllowNestedValues || k.isAutoIncrement || k.isBooleanType ==> err != nil && k.nestedValues == old(k.nestedValues)
  ensures [C06 added] k.s.f.options.AllowNestedValues && !k.isAutoIncrement && !k.isBooleanType ==> err == nil && k.nestedValues == snoc(old(k.nestedValues), val)

func (*Key).Name(k) (r)
  flags pure
  ensures r == k.name
func (*Key).Value(k) (r)
  flags pure
  ensures r == k.value
func (*Key).NestedValues(k) (r)
  flags shares
  ensures [C06 nested] r == k.nestedValues

// the non-empty strings among the values of k and its first n - 1 shadows
rec shadowVals(k *Key, n int) []string =
  if n <= 0 then empty("[]string")
  else let v = (if n == 1 then k.value else k.shadows[n-2].value) in
    if v == "" then shadowVals(k, n - 1) else snoc(shadowVals(k, n - 1), v)

func (*Key).ValueWithShadows(k) (r)
  loop 0:
    invariant vals == shadowVals(k, $i + 1)
  end
  ensures [C06 values] r == shadowVals(k, len(k.shadows) + 1)

func (*Key).SetValue(k, v)
  flags guarded
  opens Section.val
  requires forall q *Section, n string :: {q.keysHash[n]} alloc(q) && has(q.keys, n) && q.keys[n] != k ==> q.keysHash[n] == q.keys[n].value
  requires k.s.f.lock.st == 0
  modifies k.value, k.s.keysHash
  ensures [C03 set] k.value == v
  ensures [C03 hash] k.s.keysHash == (if k.s.keys[k.name] == k then mapput(old(k.s.keysHash), k.name, v) else old(k.s.keysHash))

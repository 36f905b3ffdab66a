// Trusted contracts of package reflect, as far as struct mapping uses it.
//
// An addressable Value denotes a cell of the ghost store global.rcell; any other
// Value carries its content.  The content of a Value of kind Bool, Int.., Uint..,
// Float.., String is its value boxed as bool, int64, uint64, float64, string; of
// time.Time the boxed time; of a pointer nil or the boxed Value it points to; of
// a slice its header, whose elements are the cells vidx(header, i).
// Preconditions are the conditions under which the real function does not panic.
ghost global.rcell map[reflect.Value]any
// number of cells allocated so far; rborn: when a cell was allocated
ghost global.rnew int
spec rborn(v reflect.Value) int
spec rcellno(n int) reflect.Value

spec rkind(t reflect.Type) int
spec relem(t reflect.Type) reflect.Type
spec rptr(t reflect.Type) reflect.Type
spec rname(t reflect.Type) string
spec rbits(t reflect.Type) int
spec rnfield(t reflect.Type) int
spec rftype(t reflect.Type, i int) reflect.Type
spec rfname(t reflect.Type, i int) string
spec rftag(t reflect.Type, i int) string
spec rfanon(t reflect.Type, i int) bool
spec rtag(tag string, key string) string
spec RTIME() reflect.Type
spec rtypeof(i any) reflect.Type
spec rassign(from reflect.Type, to reflect.Type) bool

spec vtype(v reflect.Value) reflect.Type
spec vok(v reflect.Value) bool
spec vro(v reflect.Value) bool
spec vaddr(v reflect.Value) bool
spec vconst(v reflect.Value) any
spec vfield(v reflect.Value, i int) reflect.Value
spec vidx(c any, i int) reflect.Value
spec vof(i any) reflect.Value
spec rlen(c any) int
spec riface(t reflect.Type, c any) any
// the content of a list extended by a copy of what x holds in a store
spec rappend(c any, x reflect.Value, store map[reflect.Value]any) any
spec vwith(t reflect.Type, c any) reflect.Value

spec kindOf(v reflect.Value) int = if vok(v) then rkind(vtype(v)) else 0
spec vset(v reflect.Value) bool = vok(v) && vaddr(v) && !vro(v)
spec cont(v reflect.Value) any = if vaddr(v) then global.rcell[v] else vconst(v)
def isIntK(k int) bool = 2 <= k && k <= 6
def isUintK(k int) bool = 7 <= k && k <= 12
def isFloatK(k int) bool = k == 13 || k == 14
def fitsInt(b int, x int) bool = (b == 8 ==> 0 - 128 <= x && x <= 127) && (b == 16 ==> 0 - 32768 <= x && x <= 32767) && (b == 32 ==> 0 - 2147483648 <= x && x <= 2147483647) && (b == 64 ==> 0 - 9223372036854775808 <= x && x <= 9223372036854775807)
def fitsUint(b int, x int) bool = 0 <= x && (b == 8 ==> x <= 255) && (b == 16 ==> x <= 65535) && (b == 32 ==> x <= 4294967295) && (b == 64 ==> x <= 18446744073709551615)
spec isFloat32(x float64) bool

func reflect.TypeOf(i) (r)
  ensures r == rtypeof(i)
  flags trusted, pure
axiom [time] forall i any :: {rtypeof(i)} typeis(i, "time.Time") <==> rtypeof(i) == RTIME()
axiom [timekind] rkind(RTIME()) == 25 && RTIME() != nil
axiom [kinds] forall t reflect.Type :: {rkind(t)} 1 <= rkind(t) && rkind(t) <= 26
axiom [bits] forall t reflect.Type :: {rbits(t)} (rkind(t) == 3 || rkind(t) == 8 ==> rbits(t) == 8) && (rkind(t) == 4 || rkind(t) == 9 ==> rbits(t) == 16) && (rkind(t) == 5 || rkind(t) == 10 || rkind(t) == 13 ==> rbits(t) == 32) && (rkind(t) == 2 || rkind(t) == 6 || rkind(t) == 7 || rkind(t) == 11 || rkind(t) == 12 || rkind(t) == 14 ==> rbits(t) == 64)
axiom [nfield] forall t reflect.Type :: {rnfield(t)} rnfield(t) >= 0
axiom [append] forall c any, x reflect.Value, m map[reflect.Value]any :: {rappend(c, x, m)} rlen(rappend(c, x, m)) == rlen(c) + 1
axiom [ptrto] forall t reflect.Type :: {rptr(t)} rkind(rptr(t)) == 22 && relem(rptr(t)) == t && rptr(t) != nil
axiom [same] forall t reflect.Type :: {rassign(t, t)} rassign(t, t)
axiom [ptrassign] forall t reflect.Type :: {rptr(relem(t))} rkind(t) == 22 ==> rassign(rptr(relem(t)), t)
axiom [float32] forall s string :: {parseFloat(s, 32)} isFloat32(parseFloat(s, 32))
axiom [intrange] forall s string, b int, n int :: {parseInt(s, b, n)} parseIntErr(s, b, n) == nil ==> fitsInt(n, parseInt(s, b, n))
axiom [uintrange] forall s string, b int, n int :: {parseUint(s, b, n)} parseUintErr(s, b, n) == nil ==> fitsUint(n, parseUint(s, b, n))

func reflect.Type.Kind(t) (r)
  requires [C20 nilType] t != nil
  ensures r == rkind(t)
  flags trusted, pure
func reflect.Type.Elem(t) (r)
  requires [C20 elemKind] t != nil && (rkind(t) == 17 || rkind(t) == 18 || rkind(t) == 21 || rkind(t) == 22 || rkind(t) == 23)
  ensures r == relem(t) && r != nil
  flags trusted
func reflect.Type.Name(t) (r)
  requires t != nil
  ensures r == rname(t)
  flags trusted, pure
func reflect.Type.Bits(t) (r)
  requires [C20 bitsKind] t != nil && 2 <= rkind(t) && rkind(t) <= 16
  ensures r == rbits(t)
  flags trusted, pure
func reflect.Type.NumField(t) (r)
  requires [C20 fieldKind] t != nil && rkind(t) == 25
  ensures r == rnfield(t) && r >= 0
  flags trusted
func reflect.Type.Field(t, i) (r)
  requires [C20 fieldKind] t != nil && rkind(t) == 25
  requires [C20 fieldIndex] 0 <= i && i < rnfield(t)
  ensures r.Type == rftype(t, i) && r.Type != nil && r.Name == rfname(t, i) && r.Tag == rftag(t, i) && r.Anonymous == rfanon(t, i)
  flags trusted
func reflect.StructTag.Get(tag, key) (r)
  ensures r == rtag(tag, key)
  flags trusted, pure

func reflect.New(t) (r)
  requires t != nil
  modifies global.rnew
  ensures global.rnew == old(global.rnew) + 1
  ensures vok(r) && !vaddr(r) && !vro(r) && vtype(r) == rptr(t) && vconst(r) == box(rcellno(global.rnew), "reflect.Value") && rborn(r) <= global.rnew
  ensures rborn(rcellno(global.rnew)) == global.rnew && vok(rcellno(global.rnew)) && vaddr(rcellno(global.rnew)) && !vro(rcellno(global.rnew)) && vtype(rcellno(global.rnew)) == t
  flags trusted
func reflect.Zero(t) (r)
  requires t != nil
  ensures vok(r) && !vaddr(r) && !vro(r) && vtype(r) == t
  flags trusted
func reflect.ValueOf(i) (r)
  ensures r == vof(i) && (vok(r) <==> i != nil) && !vaddr(r) && !vro(r) && (i != nil ==> vtype(r) == rtypeof(i) && vtype(r) != nil) && rborn(r) <= global.rnew
  ensures typeis(i, "time.Time") ==> vconst(r) == i
  flags trusted
func reflect.MakeSlice(t, n, c) (r)
  requires [C20 sliceKind] t != nil && rkind(t) == 23 && 0 <= n && n <= c
  modifies global.rnew
  ensures global.rnew == old(global.rnew) + 1
  ensures vok(r) && !vaddr(r) && !vro(r) && vtype(r) == t && rborn(r) <= global.rnew && rlen(vconst(r)) == n
  ensures forall i int :: {vidx(vconst(r), i)} rborn(vidx(vconst(r), i)) == global.rnew
  ensures forall i int, j int :: {vidx(vconst(r), i), vidx(vconst(r), j)} i != j ==> vidx(vconst(r), i) != vidx(vconst(r), j)
  flags trusted
func reflect.Append(s, x) (r)
  requires [C20 sliceKind] kindOf(s) == 23 && !vro(s) && len(x) == 1 && vok(x[0]) && !vro(x[0])
  requires [C20 assign] rassign(vtype(x[0]), relem(vtype(s)))
  ensures vok(r) && !vaddr(r) && !vro(r) && vtype(r) == vtype(s) && rborn(r) <= global.rnew && vconst(r) == rappend(cont(s), x[0], global.rcell)
  flags trusted

func reflect.Value.Kind(v) (r)
  ensures r == kindOf(v)
  flags trusted, pure
func reflect.Value.Type(v) (r)
  requires [C20 zeroValue] vok(v)
  ensures r == vtype(v) && r != nil
  flags trusted
func reflect.Value.CanSet(v) (r)
  ensures r <==> vset(v)
  flags trusted, pure
func reflect.Value.CanInterface(v) (r)
  requires [C21 zeroValue] vok(v)
  ensures r <==> !vro(v)
  flags trusted, pure
func reflect.Value.IsNil(v) (r)
  requires [C20 nilKind] kindOf(v) == 18 || kindOf(v) == 19 || kindOf(v) == 20 || kindOf(v) == 21 || kindOf(v) == 22 || kindOf(v) == 23 || kindOf(v) == 26
  ensures r <==> cont(v) == nil
  flags trusted, pure
func reflect.Value.Elem(v) (r)
  requires [C20 elemKind] kindOf(v) == 22 && !vro(v)
  ensures cont(v) == nil ==> !vok(r)
  ensures cont(v) != nil ==> cont(v) == box(r, "reflect.Value") && vok(r) && vaddr(r) && vtype(r) == relem(vtype(v)) && vtype(r) != nil
  ensures !vro(r) && rborn(r) <= global.rnew
  flags trusted
func reflect.Value.Field(v, i) (r)
  requires [C20 fieldKind] kindOf(v) == 25
  requires [C20 fieldIndex] 0 <= i && i < rnfield(vtype(v))
  ensures r == vfield(v, i) && vok(r) && vtype(r) == rftype(vtype(v), i) && vtype(r) != nil && (vaddr(r) <==> vaddr(v)) && rborn(r) == rborn(v)
  flags trusted
func reflect.Value.Index(v, i) (r)
  requires [C20 sliceKind] kindOf(v) == 23 && !vro(v)
  requires [C20 sliceIndex] 0 <= i && i < rlen(cont(v))
  ensures r == vidx(cont(v), i) && vok(r) && vaddr(r) && !vro(r) && vtype(r) == relem(vtype(v)) && vtype(r) != nil && rborn(r) <= global.rnew
  flags trusted
func reflect.Value.Len(v) (r)
  requires [C21 lenKind] kindOf(v) == 17 || kindOf(v) == 18 || kindOf(v) == 21 || kindOf(v) == 23 || kindOf(v) == 24
  ensures r >= 0 && (kindOf(v) == 17 || kindOf(v) == 21 || kindOf(v) == 23 ==> r == rlen(cont(v))) && (kindOf(v) == 24 ==> r == len(unbox(cont(v), "string")))
  flags trusted
func reflect.Value.Slice(v, i, j) (r)
  requires [C21 sliceKind] kindOf(v) == 23 && !vro(v) && i == 0 && j == rlen(cont(v))
  ensures vok(r) && !vaddr(r) && !vro(r) && vtype(r) == vtype(v) && vconst(r) == cont(v)
  flags trusted

func reflect.Value.Set(v, x)
  requires [C20 settable] vset(v) && vok(x) && !vro(x)
  requires [C20 assign] rassign(vtype(x), vtype(v))
  requires kindOf(v) == 22 || kindOf(v) == 23 || vtype(v) == RTIME()
  modifies global.rcell
  ensures global.rcell == mapput(old(global.rcell), v, old(cont(x)))
  flags trusted
func reflect.Value.SetString(v, x)
  requires [C20 settable] vset(v) && kindOf(v) == 24
  modifies global.rcell
  ensures global.rcell == mapput(old(global.rcell), v, box(x, "string"))
  flags trusted
func reflect.Value.SetBool(v, x)
  requires [C20 settable] vset(v) && kindOf(v) == 1
  modifies global.rcell
  ensures global.rcell == mapput(old(global.rcell), v, box(x, "bool"))
  flags trusted
func reflect.Value.SetInt(v, x)
  requires [C20 settable] vset(v) && isIntK(kindOf(v))
  requires [C20 truncated] fitsInt(rbits(vtype(v)), x)
  modifies global.rcell
  ensures global.rcell == mapput(old(global.rcell), v, box(x, "int64"))
  flags trusted
func reflect.Value.SetUint(v, x)
  requires [C20 settable] vset(v) && isUintK(kindOf(v))
  requires [C20 truncated] fitsUint(rbits(vtype(v)), x)
  modifies global.rcell
  ensures global.rcell == mapput(old(global.rcell), v, box(x, "uint64"))
  flags trusted
func reflect.Value.SetFloat(v, x)
  requires [C20 settable] vset(v) && isFloatK(kindOf(v))
  requires [C20 truncated] rbits(vtype(v)) == 64 || isFloat32(x)
  modifies global.rcell
  ensures global.rcell == mapput(old(global.rcell), v, box(x, "float64"))
  flags trusted
func reflect.Value.OverflowUint(v, x) (r)
  requires [C20 uintKind] isUintK(kindOf(v))
  ensures r <==> !fitsUint(rbits(vtype(v)), x)
  flags trusted, pure

func reflect.Value.String(v) (r)
  ensures kindOf(v) == 24 ==> r == unbox(cont(v), "string")
  flags trusted
func reflect.Value.Bool(v) (r)
  requires [C21 kind] kindOf(v) == 1
  ensures r == unbox(cont(v), "bool")
  flags trusted, pure
func reflect.Value.Int(v) (r)
  requires [C21 kind] isIntK(kindOf(v))
  ensures r == unbox(cont(v), "int64")
  flags trusted, pure
func reflect.Value.Uint(v) (r)
  requires [C21 kind] isUintK(kindOf(v))
  ensures r == unbox(cont(v), "uint64")
  flags trusted, pure
func reflect.Value.Float(v) (r)
  requires [C21 kind] isFloatK(kindOf(v))
  ensures same(r, unbox(cont(v), "float64"))
  flags trusted, pure
func reflect.Value.Interface(v) (r)
  requires [C21 unexported] vok(v) && !vro(v)
  ensures r == riface(vtype(v), cont(v)) && (typeis(r, "time.Time") <==> vtype(v) == RTIME()) && (vtype(v) == RTIME() ==> r == cont(v))
  flags trusted

// fmt.Sprint
spec sprint(a []any) string
func fmt.Sprint(a) (r)
  ensures r == sprint(a)
  flags trusted, pure
spec str1(x any) string = sprint(snoc(empty("[]any"), x))
spec timeIsZero(t time.Time) bool
func time.Time.IsZero(t) (r)
  ensures r <==> timeIsZero(t)
  flags trusted, pure
axiom [sprintstring] forall s string :: {str1(box(s, "string"))} str1(box(s, "string")) == s
// what fmt.Sprint writes is what strconv reads back
axiom [sprintbool] forall b bool :: {str1(box(b, "bool"))} str1(box(b, "bool")) == (if b then "true" else "false")
axiom [sprintint] forall n int, b int :: {parseInt(str1(box(n, "int64")), 0, b)} {parseIntErr(str1(box(n, "int64")), 0, b)} (b == 8 || b == 16 || b == 32 || b == 64) && fitsInt(b, n) ==> parseIntErr(str1(box(n, "int64")), 0, b) == nil && parseInt(str1(box(n, "int64")), 0, b) == n
axiom [sprintuint] forall n int, b int :: {parseUint(str1(box(n, "uint64")), 0, b)} {parseUintErr(str1(box(n, "uint64")), 0, b)} (b == 8 || b == 16 || b == 32 || b == 64) && fitsUint(b, n) ==> parseUintErr(str1(box(n, "uint64")), 0, b) == nil && parseUint(str1(box(n, "uint64")), 0, b) == n
axiom [sprintfloat] forall x float64, b int :: {parseFloat(str1(box(x, "float64")), b)} {parseFloatErr(str1(box(x, "float64")), b)} b == 64 || b == 32 && isFloat32(x) ==> parseFloatErr(str1(box(x, "float64")), b) == nil && same(parseFloat(str1(box(x, "float64")), b), x)
// a number without a unit is no duration, but 0 is
axiom [durint] forall n int :: {parseDurationErr(str1(box(n, "int64")))} parseDurationErr(str1(box(n, "int64"))) == nil ==> n == 0 && parseDuration(str1(box(n, "int64"))) == 0
axiom [duruint] forall n int :: {parseDurationErr(str1(box(n, "uint64")))} parseDurationErr(str1(box(n, "uint64"))) == nil ==> n == 0 && parseDuration(str1(box(n, "uint64"))) == 0
func reflect.Value.OverflowInt(v, x) (r)
  requires [C20 intKind] isIntK(kindOf(v))
  ensures r <==> !fitsInt(rbits(vtype(v)), x)
  flags trusted, pure

// Writing a file.

// ---- trusted ----

spec spaces(n int) string = s.repeat(" ", n)
func bytes.Repeat(b, n) (r)
  requires n >= 0
  ensures r == s.repeat(b, n)
  flags trusted
func strings.ContainsAny(s, p) (r)
  ensures r <==> s.idxany(s, p) >= 0
  flags trusted, pure
func bytes.Buffer.Bytes(b) (r)
  ensures r == b.content
  flags trusted
func fmt.Sprintf(f, a) (r)
  ensures f == " %s " && len(a) == 1 && typeis(a[0], "string") ==> r == " " + unbox(a[0], "string") + " "
  flags trusted

// ---- what is written ----

// the sign between a key and its value
spec wsign(f *File) string =
  if PrettyFormat || PrettyEqual then " " + f.options.KeyValueDelimiterOnWrite + " " else DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight

// a comment of a section (of a key, if key) line by line
spec wcline(l string, key bool) string =
  if l == "" || l[0] != '#' && l[0] != ';' then "; " + (if key then s.trim(l) else l) else l[:1] + " " + s.trim(l[1:])
rec wclines(ls []string, key bool, n int) string = if n <= 0 then "" else wclines(ls, key, n - 1) + (wcline(ls[n-1], key) + LineBreak)
spec wcomment(c string, key bool) string = if c == "" then "" else wclines(s.split(c, LineBreak), key, len(s.split(c, LineBreak)))

// a key's name as it is written
spec quoted1(f *File, n string) bool = s.contains(n, "\"") || s.idxany(n, f.options.KeyValueDelimiters) >= 0
def wname(f *File, n string, auto bool) string =
  if auto then "-" else if quoted1(f, n) then "`" + n + "`" else if s.contains(n, "`") then "\"\"\"" + n + "\"\"\"" else n
def wwidth(f *File, n string) int = if quoted1(f, n) then len(n) + 2 else if s.contains(n, "`") then len(n) + 6 else len(n)
rec walign(f *File, l []string, n int) int = if n <= 0 then 0 else (if wwidth(f, l[n-1]) > walign(f, l, n - 1) then wwidth(f, l[n-1]) else walign(f, l, n - 1))

// a value as it is written
def wval(f *File, v string) string =
  if s.idxany(v, "\n`") >= 0 then "\"\"\"" + v + "\"\"\""
  else if !f.options.IgnoreInlineComment && s.idxany(v, "#;") >= 0 then "`" + v + "`"
  else if len(s.trim(v)) != len(v) then "\"" + v + "\""
  else v

// one key: its comment, a line per value, its nested values
def wline(f *File, k *Key, w int, v string) string =
  let n = wname(f, k.name, k.isAutoIncrement) in
  if k.isBooleanType then n + LineBreak
  else n + (if PrettyFormat then s.repeat(" ", w - len(n)) else "") + (wsign(f) + wval(f, v) + LineBreak)
rec wlines(f *File, k *Key, w int, vs []string, n int) string = if n <= 0 then "" else wlines(f, k, w, vs, n - 1) + wline(f, k, w, vs[n-1])
rec wnested(ind string, vs []string, n int) string = if n <= 0 then "" else wnested(ind, vs, n - 1) + (ind + "  " + vs[n-1] + LineBreak)
def wkey(f *File, k *Key, w int, ind string, pre string) string =
  let vs = shadowVals(k, len(k.shadows) + 1) in
  (if k.Comment == "" then "" else pre + wcomment(k.Comment, true)) + pre
  + (if len(vs) == 0 then wline(f, k, w, "") + wnested(ind, k.nestedValues, len(k.nestedValues))
     else if k.isBooleanType then wline(f, k, w, "")
     else wlines(f, k, w, vs, len(vs)) + wnested(ind, k.nestedValues, len(k.nestedValues)))
spec wpre(n string, ind string) string = if ind != "" && n != DefaultSection then ind else ""
rec wkeys(f *File, sec *Section, w int, ind string, pre string, n int) string =
  if n <= 0 then "" else wkeys(f, sec, w, ind, pre, n - 1) + wkey(f, sec.keys[sec.keyList[n-1]], w, ind, pre)

// one section; a default section at the start needs no header, and none is written if it is empty
spec wwidthAll(f *File, sec *Section) int = if PrettyFormat then walign(f, sec.keyList, len(sec.keyList)) else 0
def wsec(f *File, ind string, i int) string =
  let n = f.sectionList[i] in let sec = f.sections[n][f.sectionIndexes[i]] in
  let head = i > 0 || DefaultHeader || sec.isRawSection || sec.name != lookSec(f, "") in
  let gap = (if PrettySection && i != len(f.sectionList) - 1 then LineBreak else "") in
  wcomment(sec.Comment, false) + (if head then "[" + n + "]" + LineBreak else "")
  + (if !head && len(sec.keyList) == 0 then ""
     else (if sec.isRawSection then sec.rawBody else wkeys(f, sec, wwidthAll(f, sec), ind, wpre(n, ind), len(sec.keyList))) + gap)
rec wsecs(f *File, ind string, n int) string = if n <= 0 then "" else wsecs(f, ind, n - 1) + wsec(f, ind, n - 1)
spec wfile(f *File, ind string) string = wsecs(f, ind, len(f.sectionList))

func (*File).writeToBuffer(f, indent) (buf, err)
  requires f.lock.st == 0
  allocates bytes.Buffer
  keeps File.sectionList, File.sectionIndexes, File.sections, Section.keyList, Section.keys, Section.keysHash, next.Section, next.Key
  ensures [C17,C18,C19 text] err == nil && fresh(buf) && buf.content == wfile(f, indent)
  hint entry forall j int :: {f.sectionList[j]} cntLess(f.sectionList, j)
  loop 0:
    invariant fresh(buf)
    invariant [C17,C18 text] buf.content == wsecs(f, indent, $i)
  end
  loop 1:
    invariant fresh(buf)
    invariant len(lines) == len(s.split(sec.Comment, LineBreak)) && forall j int :: {lines[j]} $i <= j && j < len(lines) ==> lines[j] == s.split(sec.Comment, LineBreak)[j]
    invariant [C17,C18 comment] buf.content == pre(buf.content) + wclines(s.split(sec.Comment, LineBreak), false, $i)
  end
  loop 2:
    invariant fresh(buf)
    invariant alignLength == walign(f, sec.keyList, $i)
    invariant forall j int :: {sec.keyList[j]} 0 <= j && j < $i ==> wwidth(f, sec.keyList[j]) <= alignLength
  end
  loop 3:
    hint begin assert PrettyFormat ==> wwidth(f, sec.keyList[$i]) <= alignLength && len(sec.keyList[$i]) >= 1
    invariant fresh(buf)
    invariant [C17,C18 keys] buf.content == pre(buf.content) + wkeys(f, sec, alignLength, indent, wpre(sname, indent), $i)
  end
  loop 4:
    invariant fresh(buf)
    invariant len(lines) == len(s.split(key.Comment, LineBreak)) && forall j int :: {lines[j]} $i <= j && j < len(lines) ==> lines[j] == s.split(key.Comment, LineBreak)[j]
    invariant [C17,C18 keycomment] buf.content == pre(buf.content) + wclines(s.split(key.Comment, LineBreak), true, $i)
  end
  loop 5:
    invariant fresh(buf)
    invariant [C17,C18 values] buf.content == pre(buf.content) + wlines(f, key, alignLength, shadows, $i)
    invariant $i > 0 ==> !key.isBooleanType
  end
  loop 6:
    invariant fresh(buf)
    invariant [C17,C18 nested] buf.content == pre(buf.content) + wnested(indent, key.nestedValues, $i)
  end

// ---- destinations ----

// what was sent to which writer, and how that went
ghost global.wdst []any
ghost global.wdata []string
ghost global.wn []int
ghost global.werr []error
// what was stored in which file
ghost global.fname []string
ghost global.fdata []string
ghost global.ferr []error

spec sent(w any, d string, n int, e error) bool =
  global.wdst == snoc(old(global.wdst), w) && global.wdata == snoc(old(global.wdata), d) && global.wn == snoc(old(global.wn), n) && global.werr == snoc(old(global.werr), e)
spec sentNothing() bool = global.wdst == old(global.wdst) && global.wdata == old(global.wdata) && global.wn == old(global.wn) && global.werr == old(global.werr)
spec savedAs(name string, d string, e error) bool =
  global.fname == snoc(old(global.fname), name) && global.fdata == snoc(old(global.fdata), d) && global.ferr == snoc(old(global.ferr), e)

func io.Writer.Write(w, p) (n, err)
  modifies global.wdst, global.wdata, global.wn, global.werr
  ensures sent(w, p, n, err) && 0 <= n && n <= len(p) && (n < len(p) ==> err != nil)
  flags trusted
func bytes.Buffer.WriteTo(b, w) (n, err)
  modifies global.wdst, global.wdata, global.wn, global.werr, b.content
  ensures old(b.content) == "" ==> sentNothing() && n == 0 && err == nil
  ensures old(b.content) != "" ==> sent(w, old(b.content), n, err) && 0 <= n && n <= len(old(b.content)) && (n < len(old(b.content)) ==> err != nil)
  flags trusted
func ioutil.WriteFile(name, data, perm) (err)
  modifies global.fname, global.fdata, global.ferr
  ensures savedAs(name, data, err)
  flags trusted
func os.WriteFile(name, data, perm) (err)
  modifies global.fname, global.fdata, global.ferr
  ensures savedAs(name, data, err)
  flags trusted

// the whole text t went to w in one piece, or nothing had to
spec delivered(w any, t string, n int, e error) bool = (sent(w, t, n, e) || t == "" && sentNothing() && n == 0 && e == nil) && (e == nil ==> n == len(t)) && n <= len(t)

func (*File).WriteToIndent(f, w, indent) (n, err)
  requires f.lock.st == 0
  allocates bytes.Buffer
  modifies global.wdst, global.wdata, global.wn, global.werr
  ensures [C19 written] delivered(w, wfile(f, indent), n, err)
func (*File).WriteTo(f, w) (n, err)
  requires f.lock.st == 0
  allocates bytes.Buffer
  modifies global.wdst, global.wdata, global.wn, global.werr
  ensures [C19 written] delivered(w, wfile(f, ""), n, err)
func (*File).SaveToIndent(f, filename, indent) (err)
  requires f.lock.st == 0
  allocates bytes.Buffer
  modifies global.fname, global.fdata, global.ferr
  ensures [C19 saved] savedAs(filename, wfile(f, indent), err)
func (*File).SaveTo(f, filename) (err)
  requires f.lock.st == 0
  allocates bytes.Buffer
  modifies global.fname, global.fdata, global.ferr
  ensures [C19 saved] savedAs(filename, wfile(f, ""), err)

// Loading one source: what each line does.

// how a line is taken, given what came before: 0 nested value, 1 blank, 2 comment,
// 3 section header, 4 raw body, 5 key, 6 boolean key, 7 skipped, 9 an error
def lkind(f *File, ile bool, raw bool, t string) int =
  let l = s.triml(line1(t)) in let d = f.options.KeyValueDelimiters in
  if f.options.AllowNestedValues && ile && (line1(t)[0] == ' ' || line1(t)[0] == '\t') && line1(t) != "" then 0
  else if l == "" then 1
  else if l[0] == '#' || l[0] == ';' then 2
  else if l[0] == '[' then 3
  else if raw then 4
  else if kbad(d, l) then 9
  else if knone(d, l) then (if f.options.AllowBooleanKeys then 6 else if f.options.SkipUnrecognizableLines then 7 else 9)
  else if kempty(d, l) then (if f.options.SkipUnrecognizableLines then 7 else 9)
  else 5
spec lname(l string) string = l[1:s.lidxbyte(l, ']')]
def lkey(f *File, l string, count int) string = let n = kname(f.options.KeyValueDelimiters, l) in if n == "-" then "#" + fmtInt(count, 10) else n
def lrefused(sec *Section, n string) bool = sec.f.options.AllowShadows && contains(sec.keyList, normKey(sec.f, n)) && shadowRefused(sec.keys[normKey(sec.f, n)])
// the line cannot be taken
def lbad(f *File, p *parser, sec *Section, k *Key, ile bool, raw bool, t string) bool =
  let kd = lkind(f, ile, raw, t) in let l = s.triml(line1(t)) in
  last1(t) && p.buf.fin != io.EOF
  || kd == 9
  || kd == 0 && (k.isAutoIncrement || k.isBooleanType)
  || kd == 3 && s.lidxbyte(l, ']') <= 1
  || kd == 5 && (let v = l[kvalue(f.options.KeyValueDelimiters, l):] in let n = lkey(f, l, p.count) in vfail(p, v, after1(t)) || n == "" || lrefused(sec, n))
  || kd == 6 && (vfail(p, l, after1(t)) || vvalue(p, l, after1(t)) == "" || lrefused(sec, vvalue(p, l, after1(t))))
def rawNamed(f *File, n string, k int) bool = exists i int :: {f.options.UnparseableSections[i]} 0 <= i && i < k && (f.options.UnparseableSections[i] == n || insSec(f) && s.fold(f.options.UnparseableSections[i], n))

// the parser reads by the file's options
spec sameRules(p *parser, f *File) bool =
  p.options.IgnoreContinuation == f.options.IgnoreContinuation && p.options.IgnoreInlineComment == f.options.IgnoreInlineComment && p.options.AllowPythonMultilineValues == f.options.AllowPythonMultilineValues
  && p.options.SpaceBeforeInlineComment == f.options.SpaceBeforeInlineComment && p.options.UnescapeValueDoubleQuotes == f.options.UnescapeValueDoubleQuotes
  && p.options.UnescapeValueCommentSymbols == f.options.UnescapeValueCommentSymbols && p.options.PreserveSurroundedQuote == f.options.PreserveSurroundedQuote

// the readers parsed into a file, and how that ended, in order
ghost File.plog []any
ghost File.perr []error

func (*File).parse(f, reader) (err)
  props C11
  update f.plog = snoc(old(f.plog), reader)
  update f.perr = snoc(old(f.perr), err)
  requires f.lock.st == 0
  modifies f.sectionList, f.sectionIndexes, f.sections
  modifies where(Section.keyList, q, q.f == f), where(Section.keys, q, q.f == f), where(Section.keysHash, q, q.f == f), where(Section.Comment, q, q.f == f), where(Section.isRawSection, q, q.f == f), where(Section.rawBody, q, q.f == f)
  modifies where(Key.value, k, k.s.f == f), where(Key.shadows, k, k.s.f == f), where(Key.isBooleanType, k, k.s.f == f), where(Key.isAutoIncrement, k, k.s.f == f), where(Key.Comment, k, k.s.f == f), where(Key.nestedValues, k, k.s.f == f)
  allocates Section, Key, parser, bufio.Reader, bytes.Buffer
  ensures [C11 readerr] rdEnd(reader) != io.EOF ==> err != nil
  loop 0:
    starts [C15 start] p.buf.rest == rdText(reader)[bom(rdText(reader)):]
    starts [C13,C14,C18 options] sameRules(p, f)
    starts [C14,C16 start] section.name == lookSec(f, "") && p.comment.content == "" && p.count == 1 && !isLastValueEmpty && !inUnparseableSection && frame(old, f.sectionList, f.sectionIndexes, f.sections)
    decreases len(p.buf.rest) + (if p.isEOF then 0 else 1)
    invariant pinv(p) && fresh(p) && fresh(p.buf) && fresh(p.comment)
    invariant p.buf.fin == rdEnd(reader)
    invariant f.lock.st == 0 && err == nil
    invariant alloc(section) && section.f == f
    invariant [C14 current] contains(f.sectionList, section.name) && f.sections[section.name][len(f.sections[section.name])-1] == section
    invariant isLastValueEmpty ==> alloc(lastRegularKey) && lastRegularKey.s == section
    step [C11,C14 good] !iter(lbad(f, p, section, lastRegularKey, isLastValueEmpty, inUnparseableSection, p.buf.rest))
    step [C14,C18 nested] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 0 ==>
      frame(iter, p.buf.rest, p.buf.have, p.isEOF, lastRegularKey.nestedValues)
      && lastRegularKey == iter(lastRegularKey) && lastRegularKey.nestedValues == snoc(iter(lastRegularKey.nestedValues), s.trim(line1(iter(p.buf.rest)))) && p.buf.rest == after1(iter(p.buf.rest))
      && section == iter(section) && isLastValueEmpty && inUnparseableSection == iter(inUnparseableSection)
    step [C14 blank] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 1 || iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 7 ==>
      frame(iter, p.buf.rest, p.buf.have, p.isEOF) && p.buf.rest == after1(iter(p.buf.rest))
      && section == iter(section) && lastRegularKey == iter(lastRegularKey) && isLastValueEmpty == iter(isLastValueEmpty) && inUnparseableSection == iter(inUnparseableSection)
    step [C14,C18 comment] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 2 ==>
      frame(iter, p.buf.rest, p.buf.have, p.isEOF, p.comment.content) && p.buf.rest == after1(iter(p.buf.rest))
      && p.comment.content == iter(p.comment.content) + s.triml(line1(iter(p.buf.rest)))
      && section == iter(section) && lastRegularKey == iter(lastRegularKey) && isLastValueEmpty == iter(isLastValueEmpty) && inUnparseableSection == iter(inUnparseableSection)
    step [C14,C18 section] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 3 ==> let sec = section in let l = s.triml(line1(iter(p.buf.rest))) in
      frame(iter, p.buf.rest, p.buf.have, p.isEOF, p.comment.content, p.count, f.sectionList, f.sectionIndexes, f.sections, sec.Comment) && p.buf.rest == after1(iter(p.buf.rest))
      && section.name == normSec(f, lname(l)) && p.count == 1 && p.comment.content == "" && !isLastValueEmpty
      && section.Comment == s.trim(iter(p.comment.content) + (let t = l[s.lidxbyte(l, ']')+1:] in if s.idxany(t, "#;") >= 0 then t[s.idxany(t, "#;"):] else ""))
      && f.sectionList == (if iter(contains(f.sectionList, normSec(f, lname(l)))) && !f.options.AllowNonUniqueSections then iter(f.sectionList) else snoc(iter(f.sectionList), normSec(f, lname(l))))
      && (forall n string :: {f.sections[n]} n != section.name ==> f.sections[n] == iter(f.sections)[n])
      && inUnparseableSection == rawNamed(f, lname(l), len(f.options.UnparseableSections))
    step [C14,C18 raw] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 4 ==>
      frame(iter, p.buf.rest, p.buf.have, p.isEOF, section.isRawSection, section.rawBody) && p.buf.rest == after1(iter(p.buf.rest))
      && section.isRawSection && section.rawBody == iter(section.rawBody) + s.triml(line1(iter(p.buf.rest)))
      && section == iter(section) && lastRegularKey == iter(lastRegularKey) && isLastValueEmpty == iter(isLastValueEmpty) && inUnparseableSection
    step [C14,C18 key] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 5 ==> let l = s.triml(line1(iter(p.buf.rest))) in let t = after1(iter(p.buf.rest)) in let d = f.options.KeyValueDelimiters in let v = l[kvalue(d, l):] in let n = normKey(f, lkey(f, l, iter(p.count))) in let had = iter(contains(section.keyList, n)) in let kk = section.keys[n] in
      section == iter(section) && inUnparseableSection == iter(inUnparseableSection) && lastRegularKey == kk && alloc(kk) && kk.s == section
      && isLastValueEmpty == (vvalue(p, v, t) == "") && p.count == iter(p.count) + (if kname(d, l) == "-" then 1 else 0) && kk.isAutoIncrement == (kname(d, l) == "-")
    step [C12,C14,C18 keyname] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 5 ==> let l = s.triml(line1(iter(p.buf.rest))) in let t = after1(iter(p.buf.rest)) in let d = f.options.KeyValueDelimiters in let v = l[kvalue(d, l):] in let n = normKey(f, lkey(f, l, iter(p.count))) in let had = iter(contains(section.keyList, n)) in let kk = section.keys[n] in
      kk.name == n && section.keyList == (if had then iter(section.keyList) else snoc(iter(section.keyList), n))
      && section.keys == (if had then iter(section.keys) else mapput(iter(section.keys), n, kk))
    step [C13,C18 keyvalue] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 5 ==> let l = s.triml(line1(iter(p.buf.rest))) in let t = after1(iter(p.buf.rest)) in let d = f.options.KeyValueDelimiters in let v = l[kvalue(d, l):] in let n = normKey(f, lkey(f, l, iter(p.count))) in let had = iter(contains(section.keyList, n)) in let kk = section.keys[n] in
      p.buf.rest == vrest(p, v, t) && (had && f.options.AllowShadows ==> kk.value == iter(section.keys[n].value)) && (!(had && f.options.AllowShadows) ==> kk.value == vvalue(p, v, t))
    step [C06,C18 keyshadow] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 5 ==> let l = s.triml(line1(iter(p.buf.rest))) in let t = after1(iter(p.buf.rest)) in let d = f.options.KeyValueDelimiters in let v = l[kvalue(d, l):] in let n = normKey(f, lkey(f, l, iter(p.count))) in let had = iter(contains(section.keyList, n)) in let kk = section.keys[n] in
      (had && f.options.AllowShadows && iter(shadowDup(section.keys[n], vvalue(p, v, t))) ==> kk.shadows == iter(section.keys[n].shadows))
      && (had && f.options.AllowShadows && !iter(shadowDup(section.keys[n], vvalue(p, v, t))) ==> len(kk.shadows) == len(iter(section.keys[n].shadows)) + 1 && kk.shadows[len(kk.shadows)-1].value == vvalue(p, v, t))
    step [C13,C14,C18 keycomment] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 5 ==> let l = s.triml(line1(iter(p.buf.rest))) in let t = after1(iter(p.buf.rest)) in let d = f.options.KeyValueDelimiters in let v = l[kvalue(d, l):] in let n = normKey(f, lkey(f, l, iter(p.count))) in let had = iter(contains(section.keyList, n)) in let kk = section.keys[n] in
      kk.Comment == s.trim(iter(p.comment.content) + vcom(p, v, t)) && p.comment.content == ""
    step [C14,C18 keyonly] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 5 ==> let l = s.triml(line1(iter(p.buf.rest))) in let t = after1(iter(p.buf.rest)) in let d = f.options.KeyValueDelimiters in let v = l[kvalue(d, l):] in let n = normKey(f, lkey(f, l, iter(p.count))) in let had = iter(contains(section.keyList, n)) in let kk = section.keys[n] in let sec = section in
      frame(iter, p.buf.rest, p.buf.have, p.isEOF, p.comment.content, p.count, sec.keyList, sec.keys, sec.keysHash, kk.value, kk.shadows, kk.Comment, kk.isAutoIncrement)
    step [C14,C18 boolean] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 6 ==> let l = s.triml(line1(iter(p.buf.rest))) in let t = after1(iter(p.buf.rest)) in let n = normKey(f, vvalue(p, l, t)) in let had = iter(contains(section.keyList, n)) in let kk = section.keys[n] in
      section == iter(section) && inUnparseableSection == iter(inUnparseableSection) && lastRegularKey == iter(lastRegularKey) && isLastValueEmpty == iter(isLastValueEmpty)
      && p.buf.rest == vrest(p, l, t) && kk.name == n && kk.isBooleanType && (had && f.options.AllowShadows || kk.value == "true")
      && section.keyList == (if had then iter(section.keyList) else snoc(iter(section.keyList), n))
      && kk.Comment == s.trim(iter(p.comment.content) + vcom(p, l, t)) && p.comment.content == ""
    step [C14,C18 booleanonly] iter(lkind(f, isLastValueEmpty, inUnparseableSection, p.buf.rest)) == 6 ==> let l = s.triml(line1(iter(p.buf.rest))) in let t = after1(iter(p.buf.rest)) in let n = normKey(f, vvalue(p, l, t)) in let kk = section.keys[n] in let sec = section in
      frame(iter, p.buf.rest, p.buf.have, p.isEOF, p.comment.content, sec.keyList, sec.keys, sec.keysHash, kk.value, kk.shadows, kk.Comment, kk.isBooleanType)
    returns [C11,C14 error] err != nil && iter(lbad(f, p, section, lastRegularKey, isLastValueEmpty, inUnparseableSection, p.buf.rest))
    leaves [C11,C14 whole] p.buf.rest == "" && p.buf.fin == io.EOF
  end
  loop 1:
    invariant inUnparseableSection == rawNamed(f, name, $i)
  end

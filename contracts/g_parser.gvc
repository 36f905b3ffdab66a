// The reader of the INI format.

// ---- trusted: readers, buffers ----

// what a reader delivers before it ends, and how it ends (io.EOF or another error)
spec rdText(r any) string
spec rdEnd(r any) error

// rest: the bytes still to be delivered; fin: the error that follows them (a
// reader that has reported io.EOF keeps doing so); have: bytes in the buffer
ghost bufio.Reader.rest string
ghost bufio.Reader.fin error
ghost bufio.Reader.have int

func bufio.NewReaderSize(r, size) (b)
  allocates bufio.Reader
  ensures fresh(b) && b.rest == rdText(r) && b.fin == rdEnd(r) && b.fin != nil
  flags trusted
func bufio.Reader.Peek(b, n) (r, err)
  requires 0 <= n && n <= 16
  modifies b.have
  ensures b.have >= len(r)
  ensures len(b.rest) >= n ==> r == b.rest[:n] && err == nil
  ensures len(b.rest) < n ==> r == b.rest && err == b.fin
  flags trusted
func bufio.Reader.Read(b, p) (n, err)
  modifies b.rest, b.have
  ensures 0 <= n && n <= len(p) && n <= len(old(b.rest)) && b.rest == old(b.rest)[n:]
  ensures len(p) <= old(b.have) ==> n == len(p)
  ensures err != nil ==> err == b.fin && err != io.EOF || len(p) > old(b.have)
  flags trusted
func bufio.Reader.ReadBytes(b, c) (r, err)
  modifies b.rest, b.have
  ensures s.idxbyte(old(b.rest), c) >= 0 ==> err == nil && r == old(b.rest)[:s.idxbyte(old(b.rest), c)+1] && b.rest == old(b.rest)[s.idxbyte(old(b.rest), c)+1:]
  ensures s.idxbyte(old(b.rest), c) < 0 ==> err == b.fin && r == old(b.rest) && b.rest == ""
  flags trusted
func bytes.Buffer.Write(b, s) (n, err)
  modifies b.content
  ensures b.content == old(b.content) + s && n == len(s) && err == nil
  flags trusted
func bytes.IndexAny(s, p) (r)
  ensures r == s.idxany(s, p)
  flags trusted, pure
func bytes.LastIndexByte(s, c) (r)
  ensures r == s.lidxbyte(s, c)
  flags trusted, pure
func strings.IndexByte(s, c) (r)
  ensures r == s.idxbyte(s, c)
  flags trusted, pure
func strings.TrimLeftFunc(s, f) (r)
  requires f == unicode.IsSpace
  ensures r == s.triml(s)
  flags trusted
func bytes.TrimLeftFunc(s, f) (r)
  requires f == unicode.IsSpace
  ensures r == s.triml(s)
  flags trusted
func bytes.TrimSpace(s) (r)
  ensures r == s.trim(s)
  flags trusted, pure
func strings.TrimSuffix(s, t) (r)
  ensures r == (if s.suffix(s, t) then s[:len(s)-len(t)] else s)
  flags trusted, pure
func strings.ReplaceAll(s, a, b) (r)
  ensures r == s.replaceall(s, a, b)
  flags trusted, pure
func utf8.DecodeRuneInString(s) (r, n)
  ensures n == runesize(s)
  flags trusted
func strings.EqualFold(a, b) (r)
  ensures r <==> s.fold(a, b)
  flags trusted, pure
func strconv.Itoa(n) (r)
  ensures r == fmtInt(n, 10)
  flags trusted, pure

// ---- lines ----

// the first line of a text with its line break, what follows it, and whether it is the last one
spec line1(t string) string = if s.idxbyte(t, '\n') >= 0 then t[:s.idxbyte(t, '\n')+1] else t
spec after1(t string) string = if s.idxbyte(t, '\n') >= 0 then t[s.idxbyte(t, '\n')+1:] else ""
spec last1(t string) bool = s.idxbyte(t, '\n') < 0
spec bom(t string) int =
  if len(t) >= 2 && (t[0] == 254 && t[1] == 255 || t[0] == 255 && t[1] == 254) then 2
  else if len(t) >= 3 && t[0] == 239 && t[1] == 187 && t[2] == 191 then 3 else 0

spec pinv(p *parser) bool = alloc(p) && alloc(p.buf) && alloc(p.comment) && p.buf.fin != nil && (p.isEOF ==> p.buf.rest == "" && p.buf.fin == io.EOF)

func (*parser).debug(p, format, args)
  flags noinv

func newParser(r, opts) (p)
  props C11
  flags noinv
  allocates parser, bufio.Reader, bytes.Buffer
  ensures [C14,C18 start] fresh(p) && fresh(p.buf) && fresh(p.comment) && !p.isEOF && p.count == 1 && p.comment.content == "" && same(p.options, opts) && p.buf.rest == rdText(r) && p.buf.fin == rdEnd(r) && p.buf.fin != nil

func (*parser).BOM(p) (err)
  props C11
  requires pinv(p)
  flags noinv
  modifies p.buf.rest, p.buf.have
  ensures [C15 skip] err == nil ==> p.buf.rest == old(p.buf.rest)[bom(old(p.buf.rest)):]
  ensures [C11,C15 err] err != nil ==> err == p.buf.fin && p.buf.fin != io.EOF

func (*parser).readUntil(p, delim) (data, err)
  props C11
  requires pinv(p)
  flags noinv
  modifies p.buf.rest, p.buf.have, p.isEOF
  ensures [C11 err] err != nil <==> s.idxbyte(old(p.buf.rest), delim) < 0 && p.buf.fin != io.EOF
  ensures [C11 which] err != nil ==> err == p.buf.fin && p.buf.rest == "" && p.isEOF == old(p.isEOF)
  ensures [C14,C18 line] err == nil && s.idxbyte(old(p.buf.rest), delim) >= 0 ==> data == old(p.buf.rest)[:s.idxbyte(old(p.buf.rest), delim)+1] && p.buf.rest == old(p.buf.rest)[s.idxbyte(old(p.buf.rest), delim)+1:] && p.isEOF == old(p.isEOF)
  ensures [C14,C18 last] err == nil && s.idxbyte(old(p.buf.rest), delim) < 0 ==> data == old(p.buf.rest) && p.buf.rest == "" && p.isEOF

func cleanComment(inp) (r, has)
  props C11
  flags noinv
  ensures [C14 comment] has <==> s.idxany(inp, "#;") >= 0
  ensures [C14 from] r == (if has then inp[s.idxany(inp, "#;"):] else "")

// ---- key names ----

def kquote(l string) string = if l[0] == '"' then (if len(l) > 6 && l[:3] == "\"\"\"" then "\"\"\"" else "\"") else if l[0] == '`' then "`" else ""
// where the closing quote starts in the line, -1: none
def kclose(l string) int = if s.idx(l[len(kquote(l)):], kquote(l)) < 0 then 0 - 1 else s.idx(l[len(kquote(l)):], kquote(l)) + len(kquote(l))
// where the search for the delimiter starts
def kfrom(l string) int = if kquote(l) == "" then 0 else kclose(l) + len(kquote(l))
def kdelim(d string, l string) int = s.idxany(l[kfrom(l):], d)
def kbad(d string, l string) bool = kquote(l) != "" && kclose(l) < 0
def knone(d string, l string) bool = !kbad(d, l) && kdelim(d, l) < 0
def kempty(d string, l string) bool = kquote(l) == "" && kdelim(d, l) == 0
def kname(d string, l string) string = if kquote(l) == "" then s.trim(l[:kdelim(d, l)]) else s.trim(l[len(kquote(l)):kclose(l)])
// where the value starts
def kvalue(d string, l string) int = kfrom(l) + kdelim(d, l) + runesize(l[kfrom(l)+kdelim(d, l):])

func readKeyName(delimiters, inp) (name, offset, err)
  props C11
  requires inp != ""
  flags noinv
  ensures [C12,C18 unclosed] kbad(delimiters, inp) ==> err != nil && !typeis(err, "ErrDelimiterNotFound") && !typeis(err, "ErrEmptyKeyName")
  ensures [C12,C18 nodelim] knone(delimiters, inp) ==> typeis(err, "ErrDelimiterNotFound")
  ensures [C12,C18 empty] kempty(delimiters, inp) ==> typeis(err, "ErrEmptyKeyName")
  ensures [C12,C18 ok] err == nil <==> !kbad(delimiters, inp) && !knone(delimiters, inp) && !kempty(delimiters, inp)
  ensures [C12,C18 name] err == nil ==> name == kname(delimiters, inp)
  ensures [C12,C18 value] err == nil ==> offset == kvalue(delimiters, inp) && 0 < offset && offset <= len(inp)

// ---- values ----

// lines up to the closing quote q
rec mlFound(q string, t string) bool = if s.lidx(line1(t), q) >= 0 then true else if last1(t) then false else mlFound(q, after1(t))
rec mlVal(v string, q string, t string) string = if s.lidx(line1(t), q) >= 0 then v + line1(t)[:s.lidx(line1(t), q)] else if last1(t) then "" else mlVal(v + line1(t), q, after1(t))
rec mlRest(q string, t string) string = if s.lidx(line1(t), q) >= 0 || last1(t) then after1(t) else mlRest(q, after1(t))
rec mlLast(q string, t string) bool = if s.lidx(line1(t), q) >= 0 || last1(t) then last1(t) else mlLast(q, after1(t))
spec tailCom(t string) string = if s.idxany(t, "#;") >= 0 then s.trim(t[s.idxany(t, "#;"):]) else ""
rec mlCom(q string, t string) string = if s.lidx(line1(t), q) >= 0 then tailCom(line1(t)[s.lidx(line1(t), q):]) else if last1(t) then "" else mlCom(q, after1(t))

func (*parser).readMultilines(p, line, val, valQuote) (r, err)
  props C11
  requires pinv(p) && valQuote != ""
  flags noinv
  modifies p.buf.rest, p.buf.have, p.isEOF, p.comment.content
  loop 0:
    decreases len(p.buf.rest)
    invariant pinv(p)
    invariant p.comment.content == old(p.comment.content)
    invariant mlFound(valQuote, p.buf.rest) == mlFound(valQuote, old(p.buf.rest))
    invariant mlVal(val, valQuote, p.buf.rest) == mlVal(old(val), valQuote, old(p.buf.rest))
    invariant mlRest(valQuote, p.buf.rest) == mlRest(valQuote, old(p.buf.rest))
    invariant mlLast(valQuote, p.buf.rest) == mlLast(valQuote, old(p.buf.rest))
    invariant mlCom(valQuote, p.buf.rest) == mlCom(valQuote, old(p.buf.rest))
    invariant p.isEOF == old(p.isEOF) && len(p.buf.rest) <= len(old(p.buf.rest))
  end
  ensures pinv(p) && len(p.buf.rest) <= len(old(p.buf.rest))
  ensures [C13,C18 unclosed] err != nil <==> !mlFound(valQuote, old(p.buf.rest)) || mlLast(valQuote, old(p.buf.rest)) && p.buf.fin != io.EOF
  ensures [C13,C18 value] err == nil ==> r == mlVal(val, valQuote, old(p.buf.rest)) && p.comment.content == old(p.comment.content) + mlCom(valQuote, old(p.buf.rest))
  ensures [C13,C18 rest] err == nil ==> p.buf.rest == mlRest(valQuote, old(p.buf.rest)) && p.isEOF == (old(p.isEOF) || mlLast(valQuote, old(p.buf.rest)))

// lines continued by a backslash
rec ctVal(v string, t string) string =
  let n = s.trim(line1(t)) in if n == "" then v else let w = v + n in if w[len(w)-1] != '\\' then w else ctVal(w[:len(w)-1], after1(t))
rec ctRest(v string, t string) string =
  let n = s.trim(line1(t)) in if n == "" then after1(t) else let w = v + n in if w[len(w)-1] != '\\' then after1(t) else ctRest(w[:len(w)-1], after1(t))
rec ctLast(v string, t string) bool =
  let n = s.trim(line1(t)) in if n == "" || last1(t) then last1(t) else let w = v + n in if w[len(w)-1] != '\\' then false else ctLast(w[:len(w)-1], after1(t))

func (*parser).readContinuationLines(p, val) (r, err)
  props C11
  requires pinv(p)
  flags noinv
  modifies p.buf.rest, p.buf.have, p.isEOF
  loop 0:
    decreases len(p.buf.rest)
    invariant pinv(p)
    invariant ctVal(val, p.buf.rest) == ctVal(old(val), old(p.buf.rest))
    invariant ctRest(val, p.buf.rest) == ctRest(old(val), old(p.buf.rest))
    invariant (p.isEOF || ctLast(val, p.buf.rest)) == (old(p.isEOF) || ctLast(old(val), old(p.buf.rest)))
    invariant len(p.buf.rest) <= len(old(p.buf.rest))
  end
  ensures pinv(p) && len(p.buf.rest) <= len(old(p.buf.rest))
  ensures [C13,C18 err] err != nil <==> ctLast(val, old(p.buf.rest)) && p.buf.fin != io.EOF
  ensures [C13,C18 value] err == nil ==> r == ctVal(val, old(p.buf.rest))
  ensures [C13,C18 rest] err == nil ==> p.buf.rest == ctRest(val, old(p.buf.rest)) && p.isEOF == (old(p.isEOF) || ctLast(val, old(p.buf.rest)))

spec chomp(t string) string = if s.suffix(t, "\n") then t[:len(t)-1] else t
spec indented(t string) bool = t != "" && (t[0] == ' ' || t[0] == '\t' || t[0] == '\f')
rec pyVal(v string, t string) string = if !indented(t) then v else pyVal(v + "\n" + chomp(line1(t)), after1(t))
rec pyRest(t string) string = if !indented(t) then t else pyRest(after1(t))
rec pyLast(t string) bool = if !indented(t) then false else if last1(t) then true else pyLast(after1(t))

func (*parser).readPythonMultilines(p, line) (r, err)
  props C11
  requires pinv(p)
  flags noinv
  modifies p.buf.rest, p.buf.have, p.isEOF
  loop 0:
    decreases len(p.buf.rest)
    invariant pinv(p)
    invariant pyVal(line, p.buf.rest) == pyVal(old(line), old(p.buf.rest))
    invariant pyRest(p.buf.rest) == pyRest(old(p.buf.rest))
    invariant (p.isEOF || pyLast(p.buf.rest)) == (old(p.isEOF) || pyLast(old(p.buf.rest)))
    invariant len(p.buf.rest) <= len(old(p.buf.rest))
  end
  ensures pinv(p) && len(p.buf.rest) <= len(old(p.buf.rest))
  ensures [C13,C18 err] err != nil <==> pyRest(old(p.buf.rest)) == "" && p.buf.fin != io.EOF
  ensures [C13,C18 value] err == nil ==> r == pyVal(line, old(p.buf.rest))
  ensures [C13,C18 rest] err == nil ==> p.buf.rest == pyRest(old(p.buf.rest)) && p.isEOF == (old(p.isEOF) || pyLast(old(p.buf.rest)))

spec surrounded(l string, q int) bool = len(l) >= 2 && l[0] == q && l[len(l)-1] == q && s.idxbyte(l[1:], q) == len(l) - 2
func hasSurroundedQuote(inp, quote) (r)
  props C11
  flags noinv
  ensures [C13,C18 surrounded] r <==> surrounded(inp, quote)

def vquote(p *parser, l string) string =
  if len(l) > 3 && l[:3] == "\"\"\"" then "\"\"\"" else if l[0] == '`' then "`" else if p.options.UnescapeValueDoubleQuotes && l[0] == '"' then "\"" else ""
// where the inline comment starts in a trimmed line, -1: none
def vcut(p *parser, l string) int =
  if p.options.IgnoreInlineComment then 0 - 1
  else if !p.options.SpaceBeforeInlineComment then s.idxany(l, "#;")
  else let i = s.idx(l, " #") in let j = s.idx(l, " ;") in if j >= 0 && (i < 0 || j < i) then j else i
def vbody(p *parser, l string) string = if vcut(p, l) >= 0 then s.trim(l[:vcut(p, l)]) else l
def vstrip(p *parser, l string) bool = (surrounded(vbody(p, l), '\'') || surrounded(vbody(p, l), '"')) && !p.options.PreserveSurroundedQuote
def vplain(p *parser, l string) string =
  if vstrip(p, l) then vbody(p, l)[1:len(vbody(p, l))-1]
  else if p.options.UnescapeValueCommentSymbols then s.replaceall(s.replaceall(vbody(p, l), "\\;", ";"), "\\#", "#") else vbody(p, l)
// how a value goes on: 0 it ends on its line, 1 indented lines, 2 up to a closing quote, 3 after a backslash
def vmode(p *parser, inp string) int =
  let l = s.triml(inp) in
  if l == "" then (if p.options.AllowPythonMultilineValues && inp != "" && inp[len(inp)-1] == '\n' then 1 else 0)
  else if vquote(p, l) != "" then (if s.lidx(l[len(vquote(p, l)):], vquote(p, l)) < 0 then 2 else 0)
  else if !p.options.IgnoreContinuation && s.trim(l)[len(s.trim(l))-1] == '\\' then 3
  else if !vstrip(p, s.trim(l)) && p.options.AllowPythonMultilineValues && l[len(l)-1] == '\n' then 1 else 0
// the part of the value on its first line
def vfirst(p *parser, inp string) string =
  let l = s.triml(inp) in
  if l == "" then ""
  else let q = vquote(p, l) in
    if q != "" then (let i = s.lidx(l[len(q):], q) in if i < 0 then l[len(q):] else if q == "\"" then s.replaceall(l[len(q):i+len(q)], "\\\"", "\"") else l[len(q):i+len(q)])
    else if vmode(p, inp) == 3 then s.trim(l)[:len(s.trim(l))-1]
    else vplain(p, s.trim(l))
def vcom1(p *parser, inp string) string =
  let l = s.triml(inp) in if l == "" || vquote(p, l) != "" || vmode(p, inp) == 3 || vcut(p, s.trim(l)) < 0 then "" else s.trim(l)[vcut(p, s.trim(l)):]
def vvalue(p *parser, inp string, t string) string =
  if vmode(p, inp) == 1 then pyVal(vfirst(p, inp), t) else if vmode(p, inp) == 2 then mlVal(vfirst(p, inp), vquote(p, s.triml(inp)), t) else if vmode(p, inp) == 3 then ctVal(vfirst(p, inp), t) else vfirst(p, inp)
def vrest(p *parser, inp string, t string) string =
  if vmode(p, inp) == 1 then pyRest(t) else if vmode(p, inp) == 2 then mlRest(vquote(p, s.triml(inp)), t) else if vmode(p, inp) == 3 then ctRest(vfirst(p, inp), t) else t
def vlast(p *parser, inp string, t string) bool =
  if vmode(p, inp) == 1 then pyLast(t) else if vmode(p, inp) == 2 then mlLast(vquote(p, s.triml(inp)), t) else if vmode(p, inp) == 3 then ctLast(vfirst(p, inp), t) else false
def vcom(p *parser, inp string, t string) string =
  if vmode(p, inp) == 2 then mlCom(vquote(p, s.triml(inp)), t) else vcom1(p, inp)
// no closing quote, or the reader fails
def vfail(p *parser, inp string, t string) bool =
  vmode(p, inp) == 2 && !mlFound(vquote(p, s.triml(inp)), t)
  || p.buf.fin != io.EOF && (if vmode(p, inp) == 1 then pyRest(t) == "" else vlast(p, inp, t))

func (*parser).readValue(p, inp) (r, err)
  props C11
  requires pinv(p)
  flags noinv
  modifies p.buf.rest, p.buf.have, p.isEOF, p.comment.content
  ensures pinv(p) && len(p.buf.rest) <= len(old(p.buf.rest))
  ensures [C13,C18 err] err != nil <==> vfail(p, inp, old(p.buf.rest))
  ensures [C13,C18 value] err == nil ==> r == vvalue(p, inp, old(p.buf.rest))
  ensures [C13,C18 comment] err == nil ==> p.comment.content == old(p.comment.content) + vcom(p, inp, old(p.buf.rest))
  ensures [C13,C18 rest] err == nil ==> p.buf.rest == vrest(p, inp, old(p.buf.rest)) && p.isEOF == (old(p.isEOF) || vlast(p, inp, old(p.buf.rest)))

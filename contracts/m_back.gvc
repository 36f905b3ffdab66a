// What the writer puts on a key's line is what the reader takes from it.

// ---- facts about the library's string functions (assumed; each is tested against the real functions by axioms/) ----
spec blank(s string) bool = s.triml(s) == ""
spec solid(c int) bool = 32 < c && c < 127

lemma trimlCat(a string, b string)
  requires blank(a)
  ensures s.triml(a + b) == s.triml(b)
  flags assumed
lemma trimlSolid(t string)
  requires t != "" && solid(t[0])
  ensures s.triml(t) == t
  flags assumed
lemma trimSolid(t string)
  requires t != "" && solid(t[0]) && solid(t[len(t)-1])
  ensures s.trim(t) == t
  flags assumed
lemma trimBreak(t string)
  ensures s.trim(t + "\n") == s.trim(t)
  flags assumed
// z cannot complete the first character of y
lemma trimlKeep(y string, z string)
  requires y != "" && s.trim(y) == y && z != "" && z[0] < 128
  ensures s.triml(y + z) == y + z
  flags assumed
lemma lidxEnd(u string, q string, z string)
  requires q != "" && len(z) == 1 && s.idx(q, z) < 0
  ensures s.lidx(u + q + z, q) == len(u)
  flags assumed
lemma lidxNone(t string, q string)
  ensures s.lidx(t, q) < 0 <==> !s.contains(t, q)
  flags assumed
lemma idxNone(t string, q string)
  ensures s.idx(t, q) < 0 <==> !s.contains(t, q)
  flags mode=native
lemma containsPart(t string, i int, j int, q string)
  requires 0 <= i && i <= j && j <= len(t) && !s.contains(t, q)
  ensures !s.contains(t[i:j], q)
  flags mode=native
lemma anyCat(a string, b string, c string)
  requires c == "#;" || c == "\n`"
  ensures s.idxany(a + b, c) < 0 <==> s.idxany(a, c) < 0 && s.idxany(b, c) < 0
  flags assumed
lemma anyLit()
  ensures s.idxany("\n", "#;") < 0 && s.idxany("\"\"\"\n", "#;") < 0 && s.idxany("\"", "#;") < 0
  flags assumed
lemma anyByte(t string, c int)
  ensures (c == '\n' || c == '`') && s.idxany(t, "\n`") < 0 ==> s.idxbyte(t, c) < 0
  ensures (c == '#' || c == ';') && s.idxany(t, "#;") < 0 ==> s.idxbyte(t, c) < 0
  flags assumed
lemma spaced(t string)
  requires s.idxany(t, "#;") < 0
  ensures s.idx(t, " #") < 0 && s.idx(t, " ;") < 0
  flags assumed
lemma replaceNone(t string, a string, b string)
  requires a != "" && !s.contains(t, a)
  ensures s.replaceall(t, a, b) == t
  flags assumed
lemma containsByte(t string, a string, c int, i int)
  requires s.idxbyte(t, c) < 0 && 0 <= i && i < len(a) && a[i] == c
  ensures !s.contains(t, a)
  flags mode=native

lemma blankBreak()
  ensures blank("\n")
  flags assumed
lemma trimLen(t string)
  requires len(s.trim(t)) == len(t)
  ensures s.trim(t) == t
  flags assumed

// ---- values ----

// the values that survive: see DESIGN.md, C18
spec plainVal(f *File, v string) bool =
  !s.prefix(v, "\"\"\"") && !(f.options.UnescapeValueDoubleQuotes && v[0] == '"') && (f.options.IgnoreContinuation || v[len(v)-1] != '\\')
  && (f.options.PreserveSurroundedQuote || !surrounded(v, '\'') && !surrounded(v, '"'))
  && !(f.options.UnescapeValueCommentSymbols && (s.contains(v, "\\;") || s.contains(v, "\\#")))
def carried(f *File, v string) bool =
  if s.idxany(v, "\n`") >= 0 then s.idxbyte(v, '\n') < 0 || !s.contains(v, "\"\"\"")
  else if !f.options.IgnoreInlineComment && s.idxany(v, "#;") >= 0 then true
  else if len(s.trim(v)) != len(v) then s.idxbyte(v, '"') < 0 && !f.options.PreserveSurroundedQuote
  else v == "" || plainVal(f, v)

// the rest of a text up to the closing quotes
lemma blockBack(a string, u string, t string)
  requires !s.contains(u, "\"\"\"")
  ensures mlVal(a, "\"\"\"", u + "\"\"\"" + "\n" + t) == a + u
  ensures mlRest("\"\"\"", u + "\"\"\"" + "\n" + t) == t
  ensures mlFound("\"\"\"", u + "\"\"\"" + "\n" + t)
  ensures mlCom("\"\"\"", u + "\"\"\"" + "\n" + t) == ""
  decreases len(u)
  flags mode=native
  proof {
    if s.idxbyte(u, '\n') < 0 {
      assert s.idxbyte(u + "\"\"\"" + "\n" + t, '\n') == len(u) + 3
      assert line1(u + "\"\"\"" + "\n" + t) == u + "\"\"\"" + "\n"
      assert after1(u + "\"\"\"" + "\n" + t) == t
      lidxEnd(u, "\"\"\"", "\n")
      anyLit()
    } else {
      assert line1(u + "\"\"\"" + "\n" + t) == u[:s.idxbyte(u, '\n')+1]
      assert after1(u + "\"\"\"" + "\n" + t) == u[s.idxbyte(u, '\n')+1:] + "\"\"\"" + "\n" + t
      containsPart(u, 0, s.idxbyte(u, '\n') + 1, "\"\"\"")
      containsPart(u, s.idxbyte(u, '\n') + 1, len(u), "\"\"\"")
      lidxNone(u[:s.idxbyte(u, '\n')+1], "\"\"\"")
      blockBack(a + u[:s.idxbyte(u, '\n')+1], u[s.idxbyte(u, '\n')+1:], t)
      assert a + u[:s.idxbyte(u, '\n')+1] + u[s.idxbyte(u, '\n')+1:] == a + u
    }
  }

// read from x, with t after its line, the value is v
def reads(p *parser, x string, v string, t string) bool =
  vvalue(p, line1(x), after1(x)) == v && vrest(p, line1(x), after1(x)) == t && vcom(p, line1(x), after1(x)) == "" && (p.buf.fin == io.EOF ==> !vfail(p, line1(x), after1(x)))

// one line: w white space, y the written value
lemma lineOf(w string, y string, t string)
  requires blank(w) && s.idxbyte(w, '\n') < 0 && s.idxbyte(y, '\n') < 0
  ensures line1(w + y + "\n" + t) == w + (y + "\n") && after1(w + y + "\n" + t) == t
  ensures s.triml(line1(w + y + "\n" + t)) == s.triml(y + "\n")
  flags mode=native
  proof {
    assert line1(w + y + "\n" + t) == w + (y + "\n")
    trimlCat(w, y + "\n")
  }

// v between quotes q on one line
lemma quotedBack(p *parser, q string, v string, w string, t string)
  requires q == "`" || q == "\"\"\""
  requires blank(w) && s.idxbyte(w, '\n') < 0 && s.idxbyte(v, '\n') < 0
  ensures reads(p, w + (q + v + q) + "\n" + t, v, t)
  flags mode=native
  proof {
    lineOf(w, q + v + q, t)
    trimlSolid(q + v + q + "\n")
    lidxEnd(v, q, "\n")
    assert (q + v + q + "\n")[len(q):] == v + q + "\n"
    if q == "`" { assert vquote(p, "`" + v + "`" + "\n") == "`" } else { assert vquote(p, "\"\"\"" + v + "\"\"\"" + "\n") == "\"\"\"" }
    assert vmode(p, line1(w + (q + v + q) + "\n" + t)) == 0
    assert vfirst(p, line1(w + (q + v + q) + "\n" + t)) == v
  }

// v in triple quotes over several lines
lemma longBack(p *parser, v string, w string, t string)
  requires blank(w) && s.idxbyte(w, '\n') < 0 && s.idxbyte(v, '\n') >= 0 && !s.contains(v, "\"\"\"")
  ensures reads(p, w + ("\"\"\"" + v + "\"\"\"") + "\n" + t, v, t)
  flags mode=native
  proof {
    assert line1(w + ("\"\"\"" + v + "\"\"\"") + "\n" + t) == w + ("\"\"\"" + v[:s.idxbyte(v, '\n')+1])
    assert after1(w + ("\"\"\"" + v + "\"\"\"") + "\n" + t) == v[s.idxbyte(v, '\n')+1:] + "\"\"\"" + "\n" + t
    trimlCat(w, "\"\"\"" + v[:s.idxbyte(v, '\n')+1])
    trimlSolid("\"\"\"" + v[:s.idxbyte(v, '\n')+1])
    assert ("\"\"\"" + v[:s.idxbyte(v, '\n')+1])[3:] == v[:s.idxbyte(v, '\n')+1]
    assert vquote(p, "\"\"\"" + v[:s.idxbyte(v, '\n')+1]) == "\"\"\""
    containsPart(v, 0, s.idxbyte(v, '\n') + 1, "\"\"\"")
    lidxNone(v[:s.idxbyte(v, '\n')+1], "\"\"\"")
    containsPart(v, s.idxbyte(v, '\n') + 1, len(v), "\"\"\"")
    assert vmode(p, line1(w + ("\"\"\"" + v + "\"\"\"") + "\n" + t)) == 2
    assert vfirst(p, line1(w + ("\"\"\"" + v + "\"\"\"") + "\n" + t)) == v[:s.idxbyte(v, '\n')+1]
    blockBack(v[:s.idxbyte(v, '\n')+1], v[s.idxbyte(v, '\n')+1:], t)
    assert v[:s.idxbyte(v, '\n')+1] + v[s.idxbyte(v, '\n')+1:] == v
  }

// v in double quotes, because of the white space around it
lemma spacedBack(p *parser, v string, w string, t string)
  requires blank(w) && s.idxbyte(w, '\n') < 0 && s.idxbyte(v, '\n') < 0 && v != ""
  requires s.idxbyte(v, '"') < 0 && !p.options.PreserveSurroundedQuote && (p.options.IgnoreInlineComment || s.idxany(v, "#;") < 0)
  ensures reads(p, w + ("\"" + v + "\"") + "\n" + t, v, t)
  flags mode=native
  proof {
    lineOf(w, "\"" + v + "\"", t)
    trimlSolid("\"" + v + "\"" + "\n")
    trimBreak("\"" + v + "\"")
    trimSolid("\"" + v + "\"")
    lidxEnd(v, "\"", "\n")
    containsByte(v, "\\\"", '"', 1)
    replaceNone(v, "\\\"", "\"")
    assert ("\"" + v + "\"" + "\n")[1:] == v + "\"" + "\n"
    assert v[0] != '"'
    if p.options.UnescapeValueDoubleQuotes {
      assert vquote(p, "\"" + v + "\"" + "\n") == "\""
      assert vmode(p, line1(w + ("\"" + v + "\"") + "\n" + t)) == 0
      assert vfirst(p, line1(w + ("\"" + v + "\"") + "\n" + t)) == v
    } else {
      assert vquote(p, "\"" + v + "\"" + "\n") == ""
      anyLit()
      anyCat("\"" + v, "\"", "#;")
      anyCat("\"", v, "#;")
      if !p.options.IgnoreInlineComment { spaced("\"" + v + "\"") }
      assert vcut(p, "\"" + v + "\"") < 0
      assert surrounded("\"" + v + "\"", '"')
      assert vstrip(p, "\"" + v + "\"")
      assert vplain(p, "\"" + v + "\"") == v
      assert vmode(p, line1(w + ("\"" + v + "\"") + "\n" + t)) == 0
    }
  }

// v as it is
lemma plainQuote(p *parser, v string)
  requires v != "" && s.idxbyte(v, '`') < 0 && !s.prefix(v, "\"\"\"") && !(p.options.UnescapeValueDoubleQuotes && v[0] == '"')
  ensures vquote(p, v + "\n") == ""
  flags mode=native
  proof {
    assert v[0] != '`'
    assert (v + "\n")[0] == v[0]
    if len(v) >= 3 { assert (v + "\n")[:3] == v[:3] } else { if len(v) == 2 { assert (v + "\n")[2] == '\n' } }
  }
lemma plainCut(p *parser, v string)
  requires p.options.IgnoreInlineComment || s.idxany(v, "#;") < 0
  ensures vcut(p, v) < 0
  flags mode=native
  proof { if !p.options.IgnoreInlineComment { spaced(v) } }
lemma plainBack(f *File, p *parser, v string, w string, t string)
  requires sameRules(p, f) && plainVal(f, v) && v != "" && s.trim(v) == v
  requires blank(w) && s.idxbyte(w, '\n') < 0 && s.idxbyte(v, '\n') < 0 && s.idxbyte(v, '`') < 0 && (p.options.IgnoreInlineComment || s.idxany(v, "#;") < 0)
  requires f.options.AllowPythonMultilineValues ==> !indented(t)
  ensures reads(p, w + v + "\n" + t, v, t)
  flags mode=native
  proof {
    lineOf(w, v, t)
    trimlKeep(v, "\n")
    trimBreak(v)
    plainQuote(p, v)
    plainCut(p, v)
    if !s.contains(v, "\\;") { replaceNone(v, "\\;", ";") }
    if !s.contains(v, "\\#") { replaceNone(v, "\\#", "#") }
    assert vbody(p, v) == v
    assert !vstrip(p, v)
    assert vplain(p, v) == v
    assert vmode(p, line1(w + v + "\n" + t)) == 0 || vmode(p, line1(w + v + "\n" + t)) == 1
    assert vfirst(p, line1(w + v + "\n" + t)) == v
    assert vcom1(p, line1(w + v + "\n" + t)) == ""
  }
lemma emptyBack(p *parser, w string, t string)
  requires blank(w) && s.idxbyte(w, '\n') < 0
  requires p.options.AllowPythonMultilineValues ==> !indented(t)
  ensures reads(p, w + "" + "\n" + t, "", t)
  flags mode=native
  proof {
    lineOf(w, "", t)
    blankBreak()
  }

// the reader takes the value the writer wrote: w white space after the sign, t the following lines
lemma valueBack(f *File, p *parser, v string, w string, t string)
  requires sameRules(p, f) && carried(f, v) && blank(w) && s.idxbyte(w, '\n') < 0
  requires f.options.AllowPythonMultilineValues ==> !indented(t)
  ensures [C18 value] reads(p, w + wval(f, v) + "\n" + t, v, t)
  flags mode=native
  proof {
    if s.idxany(v, "\n`") >= 0 {
      assert wval(f, v) == "\"\"\"" + v + "\"\"\""
      if s.idxbyte(v, '\n') < 0 { quotedBack(p, "\"\"\"", v, w, t) } else { longBack(p, v, w, t) }
    } else {
      anyByte(v, '\n')
      anyByte(v, '`')
      if !f.options.IgnoreInlineComment && s.idxany(v, "#;") >= 0 {
        assert wval(f, v) == "`" + v + "`"
        quotedBack(p, "`", v, w, t)
      } else {
        if len(s.trim(v)) != len(v) {
          assert wval(f, v) == "\"" + v + "\""
          spacedBack(p, v, w, t)
        } else {
          assert wval(f, v) == v
          trimLen(v)
          if v == "" { emptyBack(p, w, t) } else { plainBack(f, p, v, w, t) }
        }
      }
    }
  }

// ---- key lines ----

// d: the sign on write; l, r: the white space around it
def plainSign(f *File, l string, d string, r string) bool =
  blank(l) && blank(r) && s.idxbyte(l, '\n') < 0 && s.idxbyte(r, '\n') < 0 && (l == "" || l[0] < 128) && s.idxany(l, f.options.KeyValueDelimiters) < 0
  && len(d) == 1 && solid(d[0]) && s.idxany(d, f.options.KeyValueDelimiters) == 0 && s.idxany("-", f.options.KeyValueDelimiters) < 0
def carriedName(f *File, n string) bool =
  n != "" && s.trim(n) == n && s.idxbyte(n, '\n') < 0
  && (if quoted1(f, n) then !s.contains(n, "`") else s.contains(n, "`") || n != "-" && n[0] != '#' && n[0] != ';' && n[0] != '[')

lemma anyCatD(a string, b string, c string)
  ensures s.idxany(a, c) < 0 && s.idxany(b, c) == 0 ==> s.idxany(a + b, c) == len(a)
  ensures s.idxany(a, c) < 0 && s.idxany(b, c) >= 0 && b != "" && b[0] < 128 ==> s.idxany(a + b, c) == len(a) + s.idxany(b, c)
  ensures s.idxany(a, c) == 0 ==> s.idxany(a + b, c) == 0
  flags assumed
lemma idxEnd(u string, q string, z string)
  requires q == "`" || q == "\"\"\""
  requires if q == "`" then !s.contains(u, "`") else !s.contains(u, "\"")
  ensures s.idx(u + q + z, q) == len(u)
  flags mode=native
lemma trimBlank(n string, b string)
  requires s.trim(n) == n && blank(b)
  ensures s.trim(n + b) == n
  flags assumed
lemma asciiRune(t string)
  requires t != "" && t[0] < 128
  ensures runesize(t) == 1
  flags assumed

// the name read back from a written name; z: what follows it
spec nameRead(f *File, y string, n string, l string, z string) bool =
  let x = y + l + z in let d = f.options.KeyValueDelimiters in
  !kbad(d, x) && !knone(d, x) && !kempty(d, x) && kname(d, x) == n && x[kvalue(d, x):] == z[1:]

lemma nameQuoted(f *File, q string, n string, l string, z string)
  requires q == "`" || q == "\"\"\""
  requires if q == "`" then !s.contains(n, "`") else !s.contains(n, "\"")
  requires n != "" && s.trim(n) == n && blank(l) && s.idxany(l, f.options.KeyValueDelimiters) < 0
  requires z != "" && z[0] < 128 && s.idxany(z, f.options.KeyValueDelimiters) == 0
  ensures nameRead(f, q + n + q, n, l, z)
  flags mode=native
  proof {
    idxEnd(n, q, l + z)
    asciiRune(z)
    anyCatD(l, z, f.options.KeyValueDelimiters)
    if q == "`" {
      assert kquote("`" + n + "`" + l + z) == "`"
      assert ("`" + n + "`" + l + z)[1:] == n + "`" + (l + z)
      assert kclose("`" + n + "`" + l + z) == len(n) + 1
      assert ("`" + n + "`" + l + z)[len(n)+2:] == l + z
      assert kdelim(f.options.KeyValueDelimiters, "`" + n + "`" + l + z) == len(l)
      assert ("`" + n + "`" + l + z)[1:len(n)+1] == n
      assert ("`" + n + "`" + l + z)[len(n)+2+len(l):] == z
      assert kvalue(f.options.KeyValueDelimiters, "`" + n + "`" + l + z) == len(n) + 2 + len(l) + 1
      assert ("`" + n + "`" + l + z)[len(n)+2+len(l)+1:] == z[1:]
    } else {
      assert kquote("\"\"\"" + n + "\"\"\"" + l + z) == "\"\"\""
      assert ("\"\"\"" + n + "\"\"\"" + l + z)[3:] == n + "\"\"\"" + (l + z)
      assert kclose("\"\"\"" + n + "\"\"\"" + l + z) == len(n) + 3
      assert ("\"\"\"" + n + "\"\"\"" + l + z)[len(n)+6:] == l + z
      assert kdelim(f.options.KeyValueDelimiters, "\"\"\"" + n + "\"\"\"" + l + z) == len(l)
      assert ("\"\"\"" + n + "\"\"\"" + l + z)[3:len(n)+3] == n
      assert ("\"\"\"" + n + "\"\"\"" + l + z)[len(n)+6+len(l):] == z
      assert kvalue(f.options.KeyValueDelimiters, "\"\"\"" + n + "\"\"\"" + l + z) == len(n) + 6 + len(l) + 1
      assert ("\"\"\"" + n + "\"\"\"" + l + z)[len(n)+6+len(l)+1:] == z[1:]
    }
  }
lemma namePlain(f *File, n string, l string, z string)
  requires n != "" && s.trim(n) == n && blank(l) && s.idxany(l, f.options.KeyValueDelimiters) < 0
  requires (l == "" || l[0] < 128) && n[0] != '"' && n[0] != '`' && s.idxany(n, f.options.KeyValueDelimiters) < 0
  requires z != "" && z[0] < 128 && s.idxany(z, f.options.KeyValueDelimiters) == 0
  ensures nameRead(f, n, n, l, z)
  flags mode=native
  proof {
    asciiRune(z)
    anyCatD(n, l + z, f.options.KeyValueDelimiters)
    anyCatD(l, z, f.options.KeyValueDelimiters)
    trimBlank(n, l)
    assert kquote(n + l + z) == ""
    assert n + l + z == n + (l + z)
    assert (l + z)[0] < 128
    assert s.idxany(n + l + z, f.options.KeyValueDelimiters) == len(n) + len(l)
    assert (n + l + z)[:len(n)+len(l)] == n + l
    assert (n + l + z)[len(n)+len(l):] == z
    assert kvalue(f.options.KeyValueDelimiters, n + l + z) == len(n) + len(l) + 1
    assert (n + l + z)[len(n)+len(l)+1:] == z[1:]
  }

lemma trimFirst(t string)
  requires t != "" && s.trim(t) == t
  ensures t[0] != ' ' && t[0] != '\t'
  flags assumed

// a text without line break before another text
lemma lineAfter(a string, b string, x string)
  requires s.idxbyte(a, '\n') < 0 && s.idxbyte(b, '\n') < 0 && s.idxbyte(x, '\n') >= 0
  ensures line1(a + b + x) == a + b + line1(x) && after1(a + b + x) == after1(x)
  flags mode=native

// the written name: trimmed, on one line, read back, and no other kind of line begins like it
lemma nameBack(f *File, n string, auto bool, l string, z string)
  requires auto || carriedName(f, n)
  requires blank(l) && (l == "" || l[0] < 128) && s.idxany(l, f.options.KeyValueDelimiters) < 0 && s.idxany("-", f.options.KeyValueDelimiters) < 0
  requires z != "" && z[0] < 128 && s.idxany(z, f.options.KeyValueDelimiters) == 0
  ensures nameRead(f, wname(f, n, auto), if auto then "-" else n, l, z)
  ensures let y = wname(f, n, auto) in y != "" && s.trim(y) == y && s.idxbyte(y, '\n') < 0 && y[0] != '#' && y[0] != ';' && y[0] != '[' && y[0] != ' ' && y[0] != '\t'
  flags mode=native
  proof {
    if auto {
      assert wname(f, n, auto) == "-"
      trimSolid("-")
      namePlain(f, "-", l, z)
    } else {
      if quoted1(f, n) {
        assert wname(f, n, auto) == "`" + n + "`"
        trimSolid("`" + n + "`")
        nameQuoted(f, "`", n, l, z)
      } else {
        if s.contains(n, "`") {
          assert wname(f, n, auto) == "\"\"\"" + n + "\"\"\""
          trimSolid("\"\"\"" + n + "\"\"\"")
          nameQuoted(f, "\"\"\"", n, l, z)
        } else {
          assert wname(f, n, auto) == n
          trimFirst(n)
          namePlain(f, n, l, z)
        }
      }
    }
  }

// a key's line is taken as a key of that name and value
lemma keyBack(f *File, p *parser, ile bool, n string, auto bool, ind string, l string, d string, r string, v string, t string)
  requires sameRules(p, f) && carried(f, v) && (auto || carriedName(f, n)) && plainSign(f, l, d, r)
  requires blank(ind) && s.idxbyte(ind, '\n') < 0 && (ind == "" || !f.options.AllowNestedValues)
  requires f.options.AllowPythonMultilineValues ==> !indented(t)
  ensures [C18 line] let x = ind + wname(f, n, auto) + l + d + r + wval(f, v) + "\n" + t in let k = f.options.KeyValueDelimiters in let b = s.triml(line1(x)) in
    lkind(f, ile, false, x) == 5 && kname(k, b) == (if auto then "-" else n) && vvalue(p, b[kvalue(k, b):], after1(x)) == v && vrest(p, b[kvalue(k, b):], after1(x)) == t
    && vcom(p, b[kvalue(k, b):], after1(x)) == "" && (p.buf.fin == io.EOF ==> !vfail(p, b[kvalue(k, b):], after1(x)))
  flags mode=native
  proof {
    assert s.idxbyte(r + wval(f, v) + "\n" + t, '\n') >= 0
    anyCatD(d, line1(r + wval(f, v) + "\n" + t), f.options.KeyValueDelimiters)
    nameBack(f, n, auto, l, d + line1(r + wval(f, v) + "\n" + t))
    valueBack(f, p, v, r, t)
    lineAfter(ind, wname(f, n, auto) + l + d, r + wval(f, v) + "\n" + t)
    trimlKeep(wname(f, n, auto), l + d + line1(r + wval(f, v) + "\n" + t))
    trimlCat(ind, wname(f, n, auto) + l + d + line1(r + wval(f, v) + "\n" + t))
    assert wname(f, n, auto) + l + d + line1(r + wval(f, v) + "\n" + t) == wname(f, n, auto) + (l + d + line1(r + wval(f, v) + "\n" + t))
    assert ind + wname(f, n, auto) + l + d + r + wval(f, v) + "\n" + t == ind + (wname(f, n, auto) + l + d) + (r + wval(f, v) + "\n" + t)
    assert s.triml(line1(ind + wname(f, n, auto) + l + d + r + wval(f, v) + "\n" + t)) == wname(f, n, auto) + l + d + line1(r + wval(f, v) + "\n" + t)
    assert after1(ind + wname(f, n, auto) + l + d + r + wval(f, v) + "\n" + t) == after1(r + wval(f, v) + "\n" + t)
    assert lkind(f, ile, false, ind + wname(f, n, auto) + l + d + r + wval(f, v) + "\n" + t) == 5
  }

lemma repeatBlank(n int)
  ensures blank(s.repeat(" ", n)) && s.idxbyte(s.repeat(" ", n), '\n') < 0 && (s.repeat(" ", n) == "" || s.repeat(" ", n)[0] == ' ')
  flags assumed
lemma repeatAny(n int, c string)
  requires s.idxany(" ", c) < 0
  ensures s.idxany(s.repeat(" ", n), c) < 0
  flags assumed
lemma blankCat(a string, b string)
  requires blank(a) && blank(b)
  ensures blank(a + b)
  flags assumed
lemma anyCatC(a string, b string, c string)
  requires b == "" || b[0] < 128
  ensures s.idxany(a + b, c) < 0 <==> s.idxany(a, c) < 0 && s.idxany(b, c) < 0
  flags assumed

// the layout lets the key lines be read again
spec signLeft() string = if PrettyFormat || PrettyEqual then " " else DefaultFormatLeft
spec signRight() string = if PrettyFormat || PrettyEqual then " " else DefaultFormatRight
def layoutOK(f *File) bool = LineBreak == "\n" && s.idxany(" ", f.options.KeyValueDelimiters) < 0 && plainSign(f, signLeft(), f.options.KeyValueDelimiterOnWrite, signRight())

lemma padBack(f *File, m int)
  requires layoutOK(f)
  ensures plainSign(f, s.repeat(" ", m) + signLeft(), f.options.KeyValueDelimiterOnWrite, signRight())
  flags mode=native
  proof {
    repeatBlank(m)
    repeatAny(m, f.options.KeyValueDelimiters)
    blankCat(s.repeat(" ", m), signLeft())
    anyCatC(s.repeat(" ", m), signLeft(), f.options.KeyValueDelimiters)
    assert s.repeat(" ", m) == "" || (s.repeat(" ", m) + signLeft())[0] == ' '
    assert s.repeat(" ", m) == "" ==> s.repeat(" ", m) + signLeft() == signLeft()
    assert s.idxbyte(s.repeat(" ", m) + signLeft(), '\n') < 0
    assert blank(s.repeat(" ", m) + signLeft())
  }

// read from x with indentation ind: a key's line
spec keyLine(f *File, p *parser, ile bool, x string, n string, v string, t string) bool =
  let k = f.options.KeyValueDelimiters in let b = s.triml(line1(x)) in
  lkind(f, ile, false, x) == 5 && kname(k, b) == n && vvalue(p, b[kvalue(k, b):], after1(x)) == v && vrest(p, b[kvalue(k, b):], after1(x)) == t
  && vcom(p, b[kvalue(k, b):], after1(x)) == "" && (p.buf.fin == io.EOF ==> !vfail(p, b[kvalue(k, b):], after1(x)))
lemma wlineBack(f *File, p *parser, ile bool, k *Key, w int, ind string, v string, t string)
  requires sameRules(p, f) && layoutOK(f) && carried(f, v) && !k.isBooleanType && (k.isAutoIncrement || carriedName(f, k.name))
  requires blank(ind) && s.idxbyte(ind, '\n') < 0 && (ind == "" || !f.options.AllowNestedValues)
  requires f.options.AllowPythonMultilineValues ==> !indented(t)
  ensures [C18 keyline] keyLine(f, p, ile, ind + wline(f, k, w, v) + t, if k.isAutoIncrement then "-" else k.name, v, t)
  flags mode=native
  proof {
    if PrettyFormat {
      padBack(f, w - len(wname(f, k.name, k.isAutoIncrement)))
      assert wline(f, k, w, v) == wname(f, k.name, k.isAutoIncrement) + (s.repeat(" ", w - len(wname(f, k.name, k.isAutoIncrement))) + signLeft()) + f.options.KeyValueDelimiterOnWrite + signRight() + wval(f, v) + "\n"
      assert ind + wline(f, k, w, v) + t == ind + wname(f, k.name, k.isAutoIncrement) + (s.repeat(" ", w - len(wname(f, k.name, k.isAutoIncrement))) + signLeft()) + f.options.KeyValueDelimiterOnWrite + signRight() + wval(f, v) + "\n" + t
      keyBack(f, p, ile, k.name, k.isAutoIncrement, ind, s.repeat(" ", w - len(wname(f, k.name, k.isAutoIncrement))) + signLeft(), f.options.KeyValueDelimiterOnWrite, signRight(), v, t)
    } else {
      assert wline(f, k, w, v) == wname(f, k.name, k.isAutoIncrement) + signLeft() + f.options.KeyValueDelimiterOnWrite + signRight() + wval(f, v) + "\n"
      assert ind + wline(f, k, w, v) + t == ind + wname(f, k.name, k.isAutoIncrement) + signLeft() + f.options.KeyValueDelimiterOnWrite + signRight() + wval(f, v) + "\n" + t
      keyBack(f, p, ile, k.name, k.isAutoIncrement, ind, signLeft(), f.options.KeyValueDelimiterOnWrite, signRight(), v, t)
    }
  }

lemma lidxByteEnd(u string, c int, z string)
  requires c == ']' && s.idxbyte(z, c) < 0
  ensures s.lidxbyte(u + "]" + z, c) == len(u)
  flags assumed
// a section's header
lemma headerBack(f *File, ile bool, raw bool, n string, t string)
  requires LineBreak == "\n" && s.idxbyte(n, '\n') < 0
  ensures [C18 header] let x = "[" + n + "]" + LineBreak + t in let b = s.triml(line1(x)) in
    lkind(f, ile, raw, x) == 3 && lname(b) == n && s.lidxbyte(b, ']') == len(n) + 1 && s.idxany(b[s.lidxbyte(b, ']')+1:], "#;") < 0 && after1(x) == t
  flags mode=native
  proof {
    lineAfter("", "[" + n + "]", "\n" + t)
    assert line1("[" + n + "]" + LineBreak + t) == "[" + n + "]" + "\n"
    assert after1("[" + n + "]" + LineBreak + t) == t
    trimlSolid("[" + n + "]" + "\n")
    lidxByteEnd("[" + n, ']', "\n")
    anyLit()
    assert ("[" + n + "]" + "\n")[len(n)+2:] == "\n"
    assert ("[" + n + "]" + "\n")[1:len(n)+1] == n
  }

// a comment line: it begins with its sign
lemma wclineSign(l string)
  ensures wcline(l, true) != "" && (wcline(l, true)[0] == '#' || wcline(l, true)[0] == ';')
  ensures wcline(l, false) != "" && (wcline(l, false)[0] == '#' || wcline(l, false)[0] == ';')
  flags mode=native
  proof {
    if l == "" || l[0] != '#' && l[0] != ';' {
      assert wcline(l, true) == "; " + s.trim(l)
      assert wcline(l, false) == "; " + l
    } else {
      assert wcline(l, true) == l[:1] + " " + s.trim(l[1:])
      assert wcline(l, false) == l[:1] + " " + s.trim(l[1:])
    }
  }
lemma commentBack(f *File, ile bool, raw bool, key bool, pre string, l string, t string)
  requires LineBreak == "\n" && s.idxbyte(wcline(l, key), '\n') < 0 && blank(pre) && s.idxbyte(pre, '\n') < 0 && (pre == "" || !f.options.AllowNestedValues)
  ensures [C18 comment] let x = pre + wcline(l, key) + LineBreak + t in
    lkind(f, ile, raw, x) == 2 && s.triml(line1(x)) == wcline(l, key) + LineBreak && after1(x) == t
  flags mode=native
  proof {
    wclineSign(l)
    lineAfter(pre, wcline(l, key), "\n" + t)
    assert line1(pre + wcline(l, key) + LineBreak + t) == pre + (wcline(l, key) + "\n")
    assert after1(pre + wcline(l, key) + LineBreak + t) == t
    trimlSolid(wcline(l, key) + "\n")
    trimlCat(pre, wcline(l, key) + "\n")
  }

// a line of a raw body
lemma rawBack(f *File, ile bool, l string, t string)
  requires l != "" && s.trim(l) == l && s.idxbyte(l, '\n') < 0 && l[0] != '#' && l[0] != ';' && l[0] != '['
  ensures [C18 rawline] lkind(f, ile, true, l + "\n" + t) == 4 && s.triml(line1(l + "\n" + t)) == l + "\n" && after1(l + "\n" + t) == t
  flags mode=native
  proof {
    lineAfter("", l, "\n" + t)
    assert line1(l + "\n" + t) == l + "\n"
    trimlKeep(l, "\n")
    trimFirst(l)
  }

// a nested value
lemma trimAround(a string, v string, b string)
  requires blank(a) && blank(b) && s.trim(v) == v
  ensures s.trim(a + v + b) == v
  flags assumed
lemma blankTwo()
  ensures blank("  ") && blank(" ") && blank("")
  flags assumed
lemma nestedBack(f *File, raw bool, v string, t string)
  requires LineBreak == "\n" && f.options.AllowNestedValues && s.trim(v) == v && s.idxbyte(v, '\n') < 0
  ensures [C18 nested] let x = "" + "  " + v + LineBreak + t in lkind(f, true, raw, x) == 0 && s.trim(line1(x)) == v && after1(x) == t
  flags mode=native
  proof {
    lineAfter("  ", v, "\n" + t)
    blankTwo()
    blankBreak()
    trimAround("  ", v, "\n")
    assert line1("" + "  " + v + LineBreak + t) == "  " + v + "\n"
  }

// a boolean key
lemma anyBreak(c string)
  requires s.idxbyte(c, '\n') < 0
  ensures s.idxany("\n", c) < 0
  flags assumed
def carriedFlag(f *File, n string) bool =
  n != "" && s.trim(n) == n && s.idxbyte(n, '\n') < 0
  && (if quoted1(f, n) then !s.contains(n, "`") else s.contains(n, "`") || carried(f, n) && plainVal(f, n) && s.idxany(n, "#;") < 0 && n[0] != '[')
lemma idxNoneQ(t string)
  ensures s.idxbyte(t, '`') < 0 <==> !s.contains(t, "`")
  ensures s.idxbyte(t, '"') < 0 <==> !s.contains(t, "\"")
  flags mode=native
lemma signFirst(t string)
  requires s.idxany(t, "#;") < 0 && t != ""
  ensures t[0] != '#' && t[0] != ';'
  flags assumed
lemma flagBack(f *File, p *parser, ile bool, k *Key, w int, v string, ind string, t string)
  requires sameRules(p, f) && LineBreak == "\n" && f.options.AllowBooleanKeys && s.idxbyte(f.options.KeyValueDelimiters, '\n') < 0
  requires k.isBooleanType && !k.isAutoIncrement && carriedFlag(f, k.name)
  requires blank(ind) && s.idxbyte(ind, '\n') < 0 && (ind == "" || !f.options.AllowNestedValues)
  requires f.options.AllowPythonMultilineValues ==> !indented(t)
  ensures [C18 flag] let x = ind + wline(f, k, w, v) + t in let b = s.triml(line1(x)) in
    lkind(f, ile, false, x) == 6 && vvalue(p, b, after1(x)) == k.name && vrest(p, b, after1(x)) == t && vcom(p, b, after1(x)) == "" && (p.buf.fin == io.EOF ==> !vfail(p, b, after1(x)))
  flags mode=native
  proof {
    anyBreak(f.options.KeyValueDelimiters)
    idxNoneQ(k.name)
    blankTwo()
    if quoted1(f, k.name) {
      assert wline(f, k, w, v) == "`" + k.name + "`" + "\n"
      lineAfter(ind, "`" + k.name + "`", "\n" + t)
      lineAfter("", "`" + k.name + "`", "\n" + t)
      assert ind + wline(f, k, w, v) + t == ind + ("`" + k.name + "`") + ("\n" + t)
      assert line1(ind + wline(f, k, w, v) + t) == ind + ("`" + k.name + "`" + "\n")
      assert after1(ind + wline(f, k, w, v) + t) == t
      assert line1("" + ("`" + k.name + "`") + "\n" + t) == "`" + k.name + "`" + "\n"
      assert after1("" + ("`" + k.name + "`") + "\n" + t) == t
      trimlSolid("`" + k.name + "`" + "\n")
      trimlCat(ind, "`" + k.name + "`" + "\n")
      idxEnd(k.name, "`", "\n")
      assert ("`" + k.name + "`" + "\n")[1:] == k.name + "`" + "\n"
      assert kclose("`" + k.name + "`" + "\n") == len(k.name) + 1
      assert ("`" + k.name + "`" + "\n")[len(k.name)+2:] == "\n"
      assert knone(f.options.KeyValueDelimiters, "`" + k.name + "`" + "\n")
      assert lkind(f, ile, false, ind + wline(f, k, w, v) + t) == 6
      quotedBack(p, "`", k.name, "", t)
    } else {
      if s.contains(k.name, "`") {
        assert wline(f, k, w, v) == "\"\"\"" + k.name + "\"\"\"" + "\n"
        lineAfter(ind, "\"\"\"" + k.name + "\"\"\"", "\n" + t)
        lineAfter("", "\"\"\"" + k.name + "\"\"\"", "\n" + t)
        assert ind + wline(f, k, w, v) + t == ind + ("\"\"\"" + k.name + "\"\"\"") + ("\n" + t)
        assert line1(ind + wline(f, k, w, v) + t) == ind + ("\"\"\"" + k.name + "\"\"\"" + "\n")
        assert after1(ind + wline(f, k, w, v) + t) == t
        assert line1("" + ("\"\"\"" + k.name + "\"\"\"") + "\n" + t) == "\"\"\"" + k.name + "\"\"\"" + "\n"
        assert after1("" + ("\"\"\"" + k.name + "\"\"\"") + "\n" + t) == t
        trimlSolid("\"\"\"" + k.name + "\"\"\"" + "\n")
        trimlCat(ind, "\"\"\"" + k.name + "\"\"\"" + "\n")
        idxEnd(k.name, "\"\"\"", "\n")
        assert ("\"\"\"" + k.name + "\"\"\"" + "\n")[3:] == k.name + "\"\"\"" + "\n"
        assert kquote("\"\"\"" + k.name + "\"\"\"" + "\n") == "\"\"\""
        assert kclose("\"\"\"" + k.name + "\"\"\"" + "\n") == len(k.name) + 3
        assert ("\"\"\"" + k.name + "\"\"\"" + "\n")[len(k.name)+6:] == "\n"
        assert kfrom("\"\"\"" + k.name + "\"\"\"" + "\n") == len(k.name) + 6
        assert kdelim(f.options.KeyValueDelimiters, "\"\"\"" + k.name + "\"\"\"" + "\n") < 0
        assert knone(f.options.KeyValueDelimiters, "\"\"\"" + k.name + "\"\"\"" + "\n")
        assert lkind(f, ile, false, ind + wline(f, k, w, v) + t) == 6
        quotedBack(p, "\"\"\"", k.name, "", t)
      } else {
        assert wline(f, k, w, v) == k.name + "\n"
        lineAfter(ind, k.name, "\n" + t)
        lineAfter("", k.name, "\n" + t)
        assert ind + wline(f, k, w, v) + t == ind + (k.name) + ("\n" + t)
        assert line1(ind + wline(f, k, w, v) + t) == ind + (k.name + "\n")
        assert after1(ind + wline(f, k, w, v) + t) == t
        assert line1("" + (k.name) + "\n" + t) == k.name + "\n"
        assert after1("" + (k.name) + "\n" + t) == t
        trimlKeep(k.name, "\n")
        trimlCat(ind, k.name + "\n")
        trimFirst(k.name)
        anyCatC(k.name, "\n", f.options.KeyValueDelimiters)
        assert kquote(k.name + "\n") == ""
        assert knone(f.options.KeyValueDelimiters, k.name + "\n")
        signFirst(k.name)
        assert lkind(f, ile, false, ind + wline(f, k, w, v) + t) == 6
        plainBack(f, p, k.name, "", t)
      }
    }
  }

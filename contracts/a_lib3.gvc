// Library functions the current code does not call but an equivalent one may.

func strings.TrimPrefix(s, t) (r)
  ensures r == (if s.prefix(s, t) then s[len(t):] else s)
  flags trusted, pure
func strings.TrimLeft(s, t) (r)
  ensures len(r) <= len(s)
  flags trusted
func strings.Cut(s, sep) (a, b, ok)
  ensures (ok <==> s.idx(s, sep) >= 0) && (if s.idx(s, sep) >= 0 then a == s[:s.idx(s, sep)] && b == s[s.idx(s, sep)+len(sep):] else a == s && b == "")
  flags trusted
func strings.SplitN(s, sep, n) (r)
  ensures n < 0 && sep != "" ==> r == s.split(s, sep)
  flags trusted
func strings.LastIndexByte(s, c) (r)
  ensures r == s.lidxbyte(s, c)
  flags trusted, pure
func strings.IndexRune(s, c) (r)
  ensures 0 <= c && c < 128 ==> r == s.idxbyte(s, c)
  flags trusted
func strings.ContainsRune(s, c) (r)
  ensures 0 <= c && c < 128 ==> (r <==> s.idxbyte(s, c) >= 0)
  flags trusted
func strings.Repeat(s, n) (r)
  requires n >= 0
  ensures r == s.repeat(s, n)
  flags trusted, pure
func bytes.IndexByte(s, c) (r)
  ensures r == s.idxbyte(s, c)
  flags trusted, pure
func bytes.Index(s, t) (r)
  ensures r == s.idx(s, t)
  flags trusted, pure
func bytes.LastIndex(s, t) (r)
  ensures r == s.lidx(s, t)
  flags trusted, pure
func bytes.ContainsAny(s, t) (r)
  ensures r <==> s.idxany(s, t) >= 0
  flags trusted, pure
func bytes.Contains(s, t) (r)
  ensures r <==> s.contains(s, t)
  flags trusted, pure
func bytes.Equal(s, t) (r)
  ensures r <==> s == t
  flags trusted, pure
func bytes.HasPrefix(s, p) (r)
  ensures r <==> s.prefix(s, p)
  flags trusted, pure
func bytes.HasSuffix(s, p) (r)
  ensures r <==> s.suffix(s, p)
  flags trusted, pure
func bytes.TrimSuffix(s, t) (r)
  ensures r == (if s.suffix(s, t) then s[:len(s)-len(t)] else s)
  flags trusted, pure
func bytes.TrimPrefix(s, t) (r)
  ensures r == (if s.prefix(s, t) then s[len(t):] else s)
  flags trusted, pure

// Trusted contracts of the standard library: conversions, regular expressions, buffers, time.

spec parseInt(s string, base int, bits int) int
spec parseIntErr(s string, base int, bits int) error
spec parseUint(s string, base int, bits int) int
spec parseUintErr(s string, base int, bits int) error
spec parseFloat(s string, bits int) float64
spec parseFloatErr(s string, bits int) error
spec parseDuration(s string) int
spec parseDurationErr(s string) error
spec parseTime(layout string, s string) time.Time
spec parseTimeErr(layout string, s string) error
spec fmtInt(v int, base int) string
spec fmtUint(v int, base int) string
spec fmtFloat(v float64) string
spec fmtBool(v bool) string
spec fmtDuration(d int) string
spec fmtTime(t time.Time, layout string) string
spec timeUnix(t time.Time) int
// the instant a time stands for, whatever its location
spec timeInstant(t time.Time) int

func strconv.ParseInt(s, base, bits) (v, err)
  ensures v == parseInt(s, base, bits) && err == parseIntErr(s, base, bits)
  flags trusted
func strconv.ParseUint(s, base, bits) (v, err)
  ensures v == parseUint(s, base, bits) && err == parseUintErr(s, base, bits)
  flags trusted
func strconv.ParseFloat(s, bits) (v, err)
  ensures same(v, parseFloat(s, bits)) && err == parseFloatErr(s, bits)
  flags trusted
func time.ParseDuration(s) (v, err)
  ensures v == parseDuration(s) && err == parseDurationErr(s)
  flags trusted
func time.Parse(layout, s) (v, err)
  ensures v == parseTime(layout, s) && err == parseTimeErr(layout, s)
  flags trusted
func strconv.FormatInt(v, base) (r)
  ensures r == fmtInt(v, base)
  flags trusted, pure
func strconv.FormatUint(v, base) (r)
  ensures r == fmtUint(v, base)
  flags trusted, pure
func strconv.FormatBool(v) (r)
  ensures r == fmtBool(v)
  flags trusted, pure
func strconv.FormatFloat(v, f, p, b) (r)
  requires f == 'f' && p == 0 - 1 && b == 64
  ensures r == fmtFloat(v)
  flags trusted
func time.Duration.String(d) (r)
  ensures r == fmtDuration(d)
  flags trusted, pure
func time.Time.Format(t, layout) (r)
  ensures r == fmtTime(t, layout)
  flags trusted, pure
func time.Time.Before(t, u) (r)
  ensures r == (timeInstant(t) < timeInstant(u))
  flags trusted, pure
func time.Time.After(t, u) (r)
  ensures r == (timeInstant(t) > timeInstant(u))
  flags trusted, pure
func time.Time.Equal(t, u) (r)
  ensures r == (timeInstant(t) == timeInstant(u))
  flags trusted, pure
func time.Time.Compare(t, u) (r)
  ensures r == (if timeInstant(t) < timeInstant(u) then 0 - 1 else if timeInstant(t) > timeInstant(u) then 1 else 0)
  flags trusted, pure
func time.Time.Unix(t) (r)
  ensures r == timeUnix(t)
  flags trusted, pure
func strings.Replace(s, a, b, n) (r)
  requires n == 0 - 1
  ensures r == s.replaceall(s, a, b)
  flags trusted
func strings.Split(s, sep) (r)
  ensures r == s.split(s, sep)
  flags trusted, pure

// first match of the pattern, or ""
spec reFind(re int, s string) string
func regexp.Regexp.FindString(re, s) (r)
  ensures r == reFind(int(re), s)
  flags trusted
axiom [varPattern] forall s string :: {reFind(regexp("%\\(([^)]+)\\)s"), s)} reFind(regexp("%\\(([^)]+)\\)s"), s) != "" ==> len(reFind(regexp("%\\(([^)]+)\\)s"), s)) >= 5 && s.contains(s, "%")

ghost bytes.Buffer.content string
func bytes.Buffer.WriteRune(b, r) (n, err)
  modifies b.content
  ensures b.content == old(b.content) + s.ofrune(r) && err == nil
  flags trusted
func bytes.Buffer.WriteString(b, s) (n, err)
  modifies b.content
  ensures b.content == old(b.content) + s && n == len(s) && err == nil
  flags trusted
func bytes.Buffer.Reset(b)
  modifies b.content
  ensures b.content == ""
  flags trusted
func bytes.Buffer.String(b) (r)
  ensures r == b.content
  flags trusted
func bytes.Buffer.Len(b) (r)
  ensures r == len(b.content)
  flags trusted
func utf8.RuneCountInString(s) (r)
  ensures r == len(s.runes(s))
  flags trusted, pure
spec uniUpper(c int) int
func unicode.ToUpper(c) (r)
  ensures r == uniUpper(c)
  flags trusted, pure

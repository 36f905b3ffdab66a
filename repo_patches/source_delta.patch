From 1f20e96aec1b09b2b5385bb2dcbd454fad16a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:02 +0000
Subject: [PATCH 01/37] fix: lowercase the default section's name too when
 section names are case-insensitive

NewSection kept the name DEFAULT as it is, but the parser and every lookup
lowercase it, so keys under an explicit [DEFAULT] header could not be found.
---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index f8b2240..19dd765 100644
--- a/file.go
+++ b/file.go
@@ -85,7 +85,7 @@ func (f *File) NewSection(name string) (*Section, error) {
 		return nil, errors.New("empty section name")
 	}
 
-	if (f.options.Insensitive || f.options.InsensitiveSections) && name != DefaultSection {
+	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(name)
 	}
 
-- 
2.43.0


From 381912685f975f861333e0c8e465f8e6a3e26d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 02/37] fix: keep KeysHash in step with values set through
 Must* and on deleted keys

The Must* methods stored their default in the key but not in the section's
hash of values, so KeysHash disagreed with Key().Value(); SetValue on a key
that had been deleted put its name back into the hash.
---
 key.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/key.go b/key.go
index a19d9f3..1d0c8a1 100644
--- a/key.go
+++ b/key.go
@@ -252,7 +252,7 @@ func (k *Key) Time() (time.Time, error) {
 func (k *Key) MustString(defaultVal string) string {
 	val := k.String()
 	if len(val) == 0 {
-		k.value = defaultVal
+		k.SetValue(defaultVal)
 		return defaultVal
 	}
 	return val
@@ -263,7 +263,7 @@ func (k *Key) MustString(defaultVal string) string {
 func (k *Key) MustBool(defaultVal ...bool) bool {
 	val, err := k.Bool()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatBool(defaultVal[0])
+		k.SetValue(strconv.FormatBool(defaultVal[0]))
 		return defaultVal[0]
 	}
 	return val
@@ -274,7 +274,7 @@ func (k *Key) MustBool(defaultVal ...bool) bool {
 func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 	val, err := k.Float64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatFloat(defaultVal[0], 'f', -1, 64)
+		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
 	return val
@@ -285,7 +285,7 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 func (k *Key) MustInt(defaultVal ...int) int {
 	val, err := k.Int()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(int64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -296,7 +296,7 @@ func (k *Key) MustInt(defaultVal ...int) int {
 func (k *Key) MustInt64(defaultVal ...int64) int64 {
 	val, err := k.Int64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(defaultVal[0], 10)
+		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -307,7 +307,7 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 func (k *Key) MustUint(defaultVal ...uint) uint {
 	val, err := k.Uint()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(uint64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -318,7 +318,7 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 	val, err := k.Uint64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(defaultVal[0], 10)
+		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -329,7 +329,7 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 	val, err := k.Duration()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].String()
+		k.SetValue(defaultVal[0].String())
 		return defaultVal[0]
 	}
 	return val
@@ -340,7 +340,7 @@ func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 func (k *Key) MustTimeFormat(format string, defaultVal ...time.Time) time.Time {
 	val, err := k.TimeFormat(format)
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].Format(format)
+		k.SetValue(defaultVal[0].Format(format))
 		return defaultVal[0]
 	}
 	return val
@@ -833,5 +833,7 @@ func (k *Key) SetValue(v string) {
 	}
 
 	k.value = v
-	k.s.keysHash[k.name] = v
+	if k.s.keys[k.name] == k {
+		k.s.keysHash[k.name] = v
+	}
 }
-- 
2.43.0


From accf5c0b2d0642cd16145bfc9846429b70b1d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:34 +0000
Subject: [PATCH 03/37] fix: DeleteKey ignores case when key names are
 case-insensitive

---
 section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/section.go b/section.go
index a3615d8..2b1e2b9 100644
--- a/section.go
+++ b/section.go
@@ -226,6 +226,10 @@ func (s *Section) KeysHash() map[string]string {
 
 // DeleteKey deletes a key from section.
 func (s *Section) DeleteKey(name string) {
+	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
+
 	if s.f.BlockMode {
 		s.f.lock.Lock()
 		defer s.f.lock.Unlock()
-- 
2.43.0


From fb040940b5c0dc316d15610107e5939550c779fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:35 +0000
Subject: [PATCH 04/37] fix: reading a value no longer creates the default
 section

Resolving %(name)s went through File.Section, which creates the section when
it does not exist.
---
 key.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 1d0c8a1..6f80c46 100644
--- a/key.go
+++ b/key.go
@@ -161,7 +161,11 @@ func (k *Key) transformValue(val string) string {
 		// If not found or found the key itself, then search again in default section.
 		nk, err := k.s.GetKey(noption)
 		if err != nil || k == nk {
-			nk, _ = k.s.f.Section("").GetKey(noption)
+			// Do not use Section here, looking up a value must not create sections.
+			nk = nil
+			if sec, err := k.s.f.GetSection(""); err == nil {
+				nk, _ = sec.GetKey(noption)
+			}
 			if nk == nil {
 				// Stop when no results found in the default section,
 				// and returns the value as-is.
-- 
2.43.0


From 83eef76a0d6d115df8f6031a8a900a96a856b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 05/37] fix: ChildSections returns every non-unique child
 section once

The section list has one entry per section, so appending all sections of a
name for each of its entries returned n*n sections.
---
 section.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/section.go b/section.go
index 2b1e2b9..3fa7d99 100644
--- a/section.go
+++ b/section.go
@@ -251,9 +251,9 @@ func (s *Section) DeleteKey(name string) {
 func (s *Section) ChildSections() []*Section {
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
-	for _, name := range s.f.sectionList {
+	for i, name := range s.f.sectionList {
 		if strings.HasPrefix(name, prefix) {
-			children = append(children, s.f.sections[name]...)
+			children = append(children, s.f.sections[name][s.f.sectionIndexes[i]])
 		}
 	}
 	return children
-- 
2.43.0


From 40681d8a915ed904ce9138a653c9eac6dd39958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 06/37] fix: In* methods return the default value when the
 value cannot be parsed

As documented; the zero value was looked up in the candidates instead.
---
 key.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/key.go b/key.go
index 6f80c46..54c4228 100644
--- a/key.go
+++ b/key.go
@@ -371,7 +371,10 @@ func (k *Key) In(defaultVal string, candidates []string) string {
 // InFloat64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
-	val := k.MustFloat64()
+	val, err := k.Float64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -383,7 +386,10 @@ func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
 // InInt always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt(defaultVal int, candidates []int) int {
-	val := k.MustInt()
+	val, err := k.Int()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -395,7 +401,10 @@ func (k *Key) InInt(defaultVal int, candidates []int) int {
 // InInt64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
-	val := k.MustInt64()
+	val, err := k.Int64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -407,7 +416,10 @@ func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
 // InUint always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
-	val := k.MustUint()
+	val, err := k.Uint()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -419,7 +431,10 @@ func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
 // InUint64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
-	val := k.MustUint64()
+	val, err := k.Uint64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -431,7 +446,10 @@ func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
 // InTimeFormat always parses with given format and returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []time.Time) time.Time {
-	val := k.MustTimeFormat(format)
+	val, err := k.TimeFormat(format)
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
-- 
2.43.0


From ee66203e268ff55ba0ca83aaf011e52fc2f2e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:21 +0000
Subject: [PATCH 07/37] fix: writing a comment with an empty line no longer
 panics

---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 19dd765..a6e8dfe 100644
--- a/file.go
+++ b/file.go
@@ -349,7 +349,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
 			for i := range lines {
-				if lines[i][0] != '#' && lines[i][0] != ';' {
+				if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 					lines[i] = "; " + lines[i]
 				} else {
 					lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
@@ -419,7 +419,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				// Support multiline comments
 				lines := strings.Split(key.Comment, LineBreak)
 				for i := range lines {
-					if lines[i][0] != '#' && lines[i][0] != ';' {
+					if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
 					} else {
 						lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
-- 
2.43.0


From 5ad363c26eec1e41b80cd09bb75bfbb70ef1da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:23 +0000
Subject: [PATCH 08/37] fix: SectionWithIndex returns a section for an empty
 name or a negative index

It returned nil for the empty name when there was no default section, and
panicked on a negative index.
---
 file.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index a6e8dfe..886c765 100644
--- a/file.go
+++ b/file.go
@@ -186,9 +186,12 @@ func (f *File) Section(name string) *Section {
 // SectionWithIndex assumes named section exists and returns a new section when not.
 func (f *File) SectionWithIndex(name string, index int) *Section {
 	secs, err := f.SectionsByName(name)
-	if err != nil || len(secs) <= index {
+	if err != nil || index < 0 || len(secs) <= index {
 		// NOTE: It's OK here because the only possible error is empty section name,
-		// but if it's empty, this piece of code won't be executed.
+		// and an empty name means the default section.
+		if name == "" {
+			name = DefaultSection
+		}
 		newSec, _ := f.NewSection(name)
 		return newSec
 	}
-- 
2.43.0


From cf5851b3e6f6f1fcd73dc8b4e1fc65a85bcc1e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:32 +0000
Subject: [PATCH 09/37] fix: Strings handles multi-byte and empty delimiters
 and a trailing backslash

---
 key.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/key.go b/key.go
index 54c4228..eb43d55 100644
--- a/key.go
+++ b/key.go
@@ -21,6 +21,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 // Key represents a key under a section.
@@ -522,18 +523,21 @@ func (k *Key) Strings(delim string) []string {
 	var buf bytes.Buffer
 	escape := false
 	idx := 0
+	hasDelim := func(idx int) bool {
+		return len(delim) > 0 && strings.HasPrefix(string(runes[idx:]), delim)
+	}
 	for {
 		if escape {
 			escape = false
-			if runes[idx] != '\\' && !strings.HasPrefix(string(runes[idx:]), delim) {
+			if runes[idx] != '\\' && !hasDelim(idx) {
 				buf.WriteRune('\\')
 			}
 			buf.WriteRune(runes[idx])
 		} else {
 			if runes[idx] == '\\' {
 				escape = true
-			} else if strings.HasPrefix(string(runes[idx:]), delim) {
-				idx += len(delim) - 1
+			} else if hasDelim(idx) {
+				idx += utf8.RuneCountInString(delim) - 1
 				vals = append(vals, strings.TrimSpace(buf.String()))
 				buf.Reset()
 			} else {
@@ -545,6 +549,10 @@ func (k *Key) Strings(delim string) []string {
 			break
 		}
 	}
+	if escape {
+		// A trailing backslash escapes nothing
+		buf.WriteRune('\\')
+	}
 
 	if buf.Len() > 0 {
 		vals = append(vals, strings.TrimSpace(buf.String()))
-- 
2.43.0


From ccc442615da402cc0fba43466d73de2d42bd648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 10/37] fix: DeleteSectionWithIndex rejects a negative index

---
 file.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/file.go b/file.go
index 886c765..ecb7867 100644
--- a/file.go
+++ b/file.go
@@ -245,6 +245,9 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 	if !f.options.AllowNonUniqueSections && index != 0 {
 		return fmt.Errorf("delete section with non-zero index is only allowed when non-unique sections is enabled")
 	}
+	if index < 0 {
+		return fmt.Errorf("delete section with negative index %d", index)
+	}
 
 	if len(name) == 0 {
 		name = DefaultSection
-- 
2.43.0


From 3e4826e6c37339a3c0018cba80faa54cf10ee165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:15 +0000
Subject: [PATCH 11/37] fix: Strings does not run past the value for a
 delimiter that is not valid UTF-8

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index eb43d55..a8affd4 100644
--- a/key.go
+++ b/key.go
@@ -545,7 +545,7 @@ func (k *Key) Strings(delim string) []string {
 			}
 		}
 		idx++
-		if idx == len(runes) {
+		if idx >= len(runes) {
 			break
 		}
 	}
-- 
2.43.0


From a8995987fdc07de390e57f3bbf17e038a5b1d7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:16 +0000
Subject: [PATCH 12/37] fix: a key-value delimiter may be more than one byte
 long

---
 parser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 44fc526..25a7e15 100644
--- a/parser.go
+++ b/parser.go
@@ -23,6 +23,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const minReaderBufferSize = 4096
@@ -156,8 +157,9 @@ func readKeyName(delimiters string, in []byte) (string, int, error) {
 		if i < 0 {
 			return "", -1, ErrDelimiterNotFound{line}
 		}
-		endIdx = pos + i
-		return strings.TrimSpace(line[startIdx:pos]), endIdx + startIdx + 1, nil
+		endIdx = pos + startIdx + i
+		_, size := utf8.DecodeRuneInString(line[endIdx:])
+		return strings.TrimSpace(line[startIdx:pos]), endIdx + size, nil
 	}
 
 	endIdx = strings.IndexAny(line, delimiters)
@@ -168,7 +170,9 @@ func readKeyName(delimiters string, in []byte) (string, int, error) {
 		return "", -1, ErrEmptyKeyName{line}
 	}
 
-	return strings.TrimSpace(line[0:endIdx]), endIdx + 1, nil
+	// The delimiter could be more than one byte long
+	_, size := utf8.DecodeRuneInString(line[endIdx:])
+	return strings.TrimSpace(line[0:endIdx]), endIdx + size, nil
 }
 
 func (p *parser) readMultilines(line, val, valQuote string) (string, error) {
-- 
2.43.0


From fe9fcbd3260abcb73bcf4c055885e5daf66defdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:17 +0000
Subject: [PATCH 13/37] fix: SpaceBeforeInlineComment starts the comment at the
 first comment symbol of either kind

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 25a7e15..37caba0 100644
--- a/parser.go
+++ b/parser.go
@@ -277,8 +277,8 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 		var i int
 		if p.options.SpaceBeforeInlineComment {
 			i = strings.Index(line, " #")
-			if i == -1 {
-				i = strings.Index(line, " ;")
+			if j := strings.Index(line, " ;"); j > -1 && (i == -1 || j < i) {
+				i = j
 			}
 
 		} else {
-- 
2.43.0


From e2b747075af492347320a0bacc88bbd8e02f8edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 14/37] fix: Python-style multi-line values no longer end at
 the reader's buffer, and peek errors are reported

---
 parser.go | 60 ++++++++++++-------------------------------------------
 1 file changed, 13 insertions(+), 47 deletions(-)

diff --git a/parser.go b/parser.go
index 37caba0..8704e11 100644
--- a/parser.go
+++ b/parser.go
@@ -19,7 +19,6 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"regexp"
 	"strconv"
 	"strings"
 	"unicode"
@@ -28,8 +27,6 @@ import (
 
 const minReaderBufferSize = 4096
 
-var pythonMultiline = regexp.MustCompile(`^([\t\f ]+)(.*)`)
-
 type parserOptions struct {
 	IgnoreContinuation          bool
 	IgnoreInlineComment         bool
@@ -229,12 +226,12 @@ func hasSurroundedQuote(in string, quote byte) bool {
 		strings.IndexByte(in[1:], quote) == len(in)-2
 }
 
-func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
+func (p *parser) readValue(in []byte) (string, error) {
 
 	line := strings.TrimLeftFunc(string(in), unicode.IsSpace)
 	if len(line) == 0 {
 		if p.options.AllowPythonMultilineValues && len(in) > 0 && in[len(in)-1] == '\n' {
-			return p.readPythonMultilines(line, bufferSize)
+			return p.readPythonMultilines(line)
 		}
 		return "", nil
 	}
@@ -300,45 +297,35 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 		line = strings.ReplaceAll(line, `\;`, ";")
 		line = strings.ReplaceAll(line, `\#`, "#")
 	} else if p.options.AllowPythonMultilineValues && lastChar == '\n' {
-		return p.readPythonMultilines(line, bufferSize)
+		return p.readPythonMultilines(line)
 	}
 
 	return line, nil
 }
 
-func (p *parser) readPythonMultilines(line string, bufferSize int) (string, error) {
-	parserBufferPeekResult, _ := p.buf.Peek(bufferSize)
-	peekBuffer := bytes.NewBuffer(parserBufferPeekResult)
-
+func (p *parser) readPythonMultilines(line string) (string, error) {
 	for {
-		peekData, peekErr := peekBuffer.ReadBytes('\n')
+		// The first byte tells whether the next line belongs to the value.
+		peekData, peekErr := p.buf.Peek(1)
 		if peekErr != nil && peekErr != io.EOF {
 			p.debug("readPythonMultilines: failed to peek with error: %v", peekErr)
 			return "", peekErr
 		}
 
-		p.debug("readPythonMultilines: parsing %q", string(peekData))
-
-		peekMatches := pythonMultiline.FindStringSubmatch(string(peekData))
-		p.debug("readPythonMultilines: matched %d parts", len(peekMatches))
-		for n, v := range peekMatches {
-			p.debug("   %d: %q", n, v)
-		}
-
 		// Return if not a Python multiline value.
-		if len(peekMatches) != 3 {
+		if len(peekData) == 0 || (peekData[0] != ' ' && peekData[0] != '\t' && peekData[0] != '\f') {
 			p.debug("readPythonMultilines: end of value, got: %q", line)
 			return line, nil
 		}
 
-		// Advance the parser reader (buffer) in-sync with the peek buffer.
-		_, err := p.buf.Discard(len(peekData))
+		data, err := p.readUntil('\n')
 		if err != nil {
-			p.debug("readPythonMultilines: failed to skip to the end, returning error")
+			p.debug("readPythonMultilines: failed to read with error: %v", err)
 			return "", err
 		}
+		p.debug("readPythonMultilines: parsing %q", string(data))
 
-		line += "\n" + peekMatches[0]
+		line += "\n" + strings.TrimSuffix(string(data), "\n")
 	}
 }
 
@@ -373,27 +360,6 @@ func (f *File) parse(reader io.Reader) (err error) {
 	var line []byte
 	var inUnparseableSection bool
 
-	// NOTE: Iterate and increase `currentPeekSize` until
-	// the size of the parser buffer is found.
-	// TODO(unknwon): When Golang 1.10 is the lowest version supported, replace with `parserBufferSize := p.buf.Size()`.
-	parserBufferSize := 0
-	// NOTE: Peek 4kb at a time.
-	currentPeekSize := minReaderBufferSize
-
-	if f.options.AllowPythonMultilineValues {
-		for {
-			peekBytes, _ := p.buf.Peek(currentPeekSize)
-			peekBytesLength := len(peekBytes)
-
-			if parserBufferSize >= peekBytesLength {
-				break
-			}
-
-			currentPeekSize *= 2
-			parserBufferSize = peekBytesLength
-		}
-	}
-
 	for !p.isEOF {
 		line, err = p.readUntil('\n')
 		if err != nil {
@@ -476,7 +442,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			case IsErrDelimiterNotFound(err):
 				switch {
 				case f.options.AllowBooleanKeys:
-					kname, err := p.readValue(line, parserBufferSize)
+					kname, err := p.readValue(line)
 					if err != nil {
 						return err
 					}
@@ -505,7 +471,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			p.count++
 		}
 
-		value, err := p.readValue(line[offset:], parserBufferSize)
+		value, err := p.readValue(line[offset:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6209368d7a081d95c4cf9e822d1283c2927f8b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:03 +0000
Subject: [PATCH 15/37] fix: UnescapeValueCommentSymbols no longer turns off
 Python-style multi-line values

---
 parser.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/parser.go b/parser.go
index 8704e11..f45e0e3 100644
--- a/parser.go
+++ b/parser.go
@@ -293,11 +293,14 @@ func (p *parser) readValue(in []byte) (string, error) {
 	if (hasSurroundedQuote(line, '\'') ||
 		hasSurroundedQuote(line, '"')) && !p.options.PreserveSurroundedQuote {
 		line = line[1 : len(line)-1]
-	} else if len(valQuote) == 0 && p.options.UnescapeValueCommentSymbols {
-		line = strings.ReplaceAll(line, `\;`, ";")
-		line = strings.ReplaceAll(line, `\#`, "#")
-	} else if p.options.AllowPythonMultilineValues && lastChar == '\n' {
-		return p.readPythonMultilines(line)
+	} else {
+		if p.options.UnescapeValueCommentSymbols {
+			line = strings.ReplaceAll(line, `\;`, ";")
+			line = strings.ReplaceAll(line, `\#`, "#")
+		}
+		if p.options.AllowPythonMultilineValues && lastChar == '\n' {
+			return p.readPythonMultilines(line)
+		}
 	}
 
 	return line, nil
-- 
2.43.0


From 3ed38138a483b129c45e5222f85e01793e6edd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 16/37] fix: loose loading no longer swallows a not-exist error
 of a reader

Only a source that cannot be opened because it does not exist counts as
empty; an error a reader returns while it is parsed is returned.
---
 file.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/file.go b/file.go
index ecb7867..dea0f6c 100644
--- a/file.go
+++ b/file.go
@@ -294,22 +294,24 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 	return nil
 }
 
-func (f *File) reload(s dataSource) error {
+// reload parses the data source, and reports whether it could be opened.
+func (f *File) reload(s dataSource) (opened bool, err error) {
 	r, err := s.ReadCloser()
 	if err != nil {
-		return err
+		return false, err
 	}
 	defer r.Close()
 
-	return f.parse(r)
+	return true, f.parse(r)
 }
 
 // Reload reloads and parses all data sources.
-func (f *File) Reload() (err error) {
+func (f *File) Reload() error {
 	for _, s := range f.dataSources {
-		if err = f.reload(s); err != nil {
+		opened, err := f.reload(s)
+		if err != nil {
 			// In loose mode, we create an empty default section for nonexistent files.
-			if os.IsNotExist(err) && f.options.Loose {
+			if !opened && os.IsNotExist(err) && f.options.Loose {
 				_ = f.parse(bytes.NewBuffer(nil))
 				continue
 			}
-- 
2.43.0


From b3734df06a2d0a6c99dbc6132c71c7aa8d84b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 17/37] fix: write the header of a raw default section and of a
 section only spelled like the default one

---
 file.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index dea0f6c..d9c5255 100644
--- a/file.go
+++ b/file.go
@@ -341,6 +341,14 @@ func (f *File) Append(source interface{}, others ...interface{}) error {
 	return f.Reload()
 }
 
+// isDefaultSection reports whether the section is the default section.
+func (f *File) isDefaultSection(sec *Section) bool {
+	if f.options.Insensitive || f.options.InsensitiveSections {
+		return sec.name == strings.ToLower(DefaultSection)
+	}
+	return sec.name == DefaultSection
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -369,7 +377,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			}
 		}
 
-		if i > 0 || DefaultHeader || (i == 0 && strings.ToUpper(sec.name) != DefaultSection) {
+		if i > 0 || DefaultHeader || sec.isRawSection || !f.isDefaultSection(sec) {
 			if _, err := buf.WriteString("[" + sname + "]" + LineBreak); err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 14646050c45459cfddc0e1137af481d9407f1df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 18/37] fix: deleting a section no longer shifts a slice that
 other goroutines read without the lock

---
 file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index d9c5255..4949097 100644
--- a/file.go
+++ b/file.go
@@ -276,7 +276,11 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 			if len(f.sections[name]) <= 1 {
 				delete(f.sections, name) // The last one in the map
 			} else {
-				f.sections[name] = append(f.sections[name][:index], f.sections[name][index+1:]...)
+				// Sections obtained by name may still be in use without the lock, so
+				// build a new slice rather than shifting the existing one in place.
+				secs := make([]*Section, 0, len(f.sections[name])-1)
+				secs = append(secs, f.sections[name][:index]...)
+				f.sections[name] = append(secs, f.sections[name][index+1:]...)
 			}
 
 			// Fix section lists
-- 
2.43.0


From 9b693439835abc9b0f3d237a8c8d2a9fd6362b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 19/37] fix: all options of a struct tag take effect

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index a486b2f..fa7dccb 100644
--- a/struct.go
+++ b/struct.go
@@ -264,7 +264,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 }
 
 func parseTagOptions(tag string) (rawName string, omitEmpty bool, allowShadow bool, allowNonUnique bool, extends bool) {
-	opts := strings.SplitN(tag, ",", 5)
+	opts := strings.Split(tag, ",")
 	rawName = opts[0]
 	for _, opt := range opts[1:] {
 		omitEmpty = omitEmpty || (opt == "omitempty")
-- 
2.43.0


From 55b126fe22333a2f00e7b0d4eff2f646795eb61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 20/37] fix: mapping a duration to an unsigned field no longer
 panics

---
 struct.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/struct.go b/struct.go
index fa7dccb..c2a68f3 100644
--- a/struct.go
+++ b/struct.go
@@ -212,11 +212,13 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		durationVal, err := key.Duration()
 		// Skip zero value
-		if err == nil && uint64(durationVal) > 0 {
+		if err == nil && durationVal > 0 {
 			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
+				pv := reflect.New(t.Elem())
+				pv.Elem().SetUint(uint64(durationVal))
+				field.Set(pv)
 			} else {
-				field.Set(reflect.ValueOf(durationVal))
+				field.SetUint(uint64(durationVal))
 			}
 			return nil
 		}
-- 
2.43.0


From 8ac9a1179739a1b33418efb9ab9c7c5c1b260bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 21/37] fix: mapping to pointers to named types and to pointers
 to durations no longer panics

---
 struct.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index c2a68f3..4b02f3d 100644
--- a/struct.go
+++ b/struct.go
@@ -164,7 +164,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	case reflect.String:
 		stringVal := key.String()
 		if isPtr {
-			field.Set(reflect.ValueOf(&stringVal))
+			pv := reflect.New(t.Elem())
+			pv.Elem().SetString(stringVal)
+			field.Set(pv)
 		} else if len(stringVal) > 0 {
 			field.SetString(key.String())
 		}
@@ -174,7 +176,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 			return wrapStrictError(err, isStrict)
 		}
 		if isPtr {
-			field.Set(reflect.ValueOf(&boolVal))
+			pv := reflect.New(t.Elem())
+			pv.Elem().SetBool(boolVal)
+			field.Set(pv)
 		} else {
 			field.SetBool(boolVal)
 		}
@@ -183,16 +187,25 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		if vt.Name() == "Duration" {
 			durationVal, err := key.Duration()
 			if err != nil {
-				if intVal, err := key.Int64(); err == nil {
+				intVal, intErr := key.Int64()
+				if intErr != nil {
+					return wrapStrictError(err, isStrict)
+				}
+				if isPtr {
+					pv := reflect.New(t.Elem())
+					pv.Elem().SetInt(intVal)
+					field.Set(pv)
+				} else {
 					field.SetInt(intVal)
-					return nil
 				}
-				return wrapStrictError(err, isStrict)
+				return nil
 			}
 			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
+				pv := reflect.New(t.Elem())
+				pv.Elem().SetInt(int64(durationVal))
+				field.Set(pv)
 			} else if int64(durationVal) > 0 {
-				field.Set(reflect.ValueOf(durationVal))
+				field.SetInt(int64(durationVal))
 			}
 			return nil
 		}
-- 
2.43.0


From 7549ba99c9ae96218cda6f2d77486ff6a0ff631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 22/37] fix: mapping a negative duration sets the field

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 4b02f3d..f45a340 100644
--- a/struct.go
+++ b/struct.go
@@ -204,7 +204,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 				pv := reflect.New(t.Elem())
 				pv.Elem().SetInt(int64(durationVal))
 				field.Set(pv)
-			} else if int64(durationVal) > 0 {
+			} else if durationVal != 0 {
 				field.SetInt(int64(durationVal))
 			}
 			return nil
-- 
2.43.0


From 750895b986bc5dcf69ffbbe9fad696ce720d3e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 23/37] fix: mapping to slices of named element types no longer
 panics

---
 struct.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index f45a340..18fa776 100644
--- a/struct.go
+++ b/struct.go
@@ -123,19 +123,19 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	for i := 0; i < numVals; i++ {
 		switch sliceOf {
 		case reflect.String:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]string)[i]))
+			slice.Index(i).SetString(vals.([]string)[i])
 		case reflect.Int:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int)[i]))
+			slice.Index(i).SetInt(int64(vals.([]int)[i]))
 		case reflect.Int64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int64)[i]))
+			slice.Index(i).SetInt(vals.([]int64)[i])
 		case reflect.Uint:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint)[i]))
+			slice.Index(i).SetUint(uint64(vals.([]uint)[i]))
 		case reflect.Uint64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint64)[i]))
+			slice.Index(i).SetUint(vals.([]uint64)[i])
 		case reflect.Float64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]float64)[i]))
+			slice.Index(i).SetFloat(vals.([]float64)[i])
 		case reflect.Bool:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]bool)[i]))
+			slice.Index(i).SetBool(vals.([]bool)[i])
 		case reflectTime:
 			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]))
 		}
-- 
2.43.0


From 5065a536f67345fa05f99833140a64d9260397da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:24 +0000
Subject: [PATCH 24/37] fix: strict mapping reports elements of a list that do
 not convert

---
 struct.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/struct.go b/struct.go
index 18fa776..0224a74 100644
--- a/struct.go
+++ b/struct.go
@@ -99,19 +99,19 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.String:
 		vals = strs
 	case reflect.Int:
-		vals, err = key.parseInts(strs, true, false)
+		vals, err = key.parseInts(strs, true, isStrict)
 	case reflect.Int64:
-		vals, err = key.parseInt64s(strs, true, false)
+		vals, err = key.parseInt64s(strs, true, isStrict)
 	case reflect.Uint:
-		vals, err = key.parseUints(strs, true, false)
+		vals, err = key.parseUints(strs, true, isStrict)
 	case reflect.Uint64:
-		vals, err = key.parseUint64s(strs, true, false)
+		vals, err = key.parseUint64s(strs, true, isStrict)
 	case reflect.Float64:
-		vals, err = key.parseFloat64s(strs, true, false)
+		vals, err = key.parseFloat64s(strs, true, isStrict)
 	case reflect.Bool:
-		vals, err = key.parseBools(strs, true, false)
+		vals, err = key.parseBools(strs, true, isStrict)
 	case reflectTime:
-		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
+		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, isStrict)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 	}
-- 
2.43.0


From 2554b838c9d1756c6a209f6be39b0c56a24f7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:47 +0000
Subject: [PATCH 25/37] fix: mapping numbers too large for the field is a
 failed conversion

---
 struct.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/struct.go b/struct.go
index 0224a74..8ce055d 100644
--- a/struct.go
+++ b/struct.go
@@ -19,6 +19,7 @@ import (
 	"errors"
 	"fmt"
 	"reflect"
+	"strconv"
 	"strings"
 	"time"
 	"unicode"
@@ -184,7 +185,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		// ParseDuration will not return err for `0`, so check the type name
-		if vt.Name() == "Duration" {
+		if vt.Name() == "Duration" && vt.Kind() == reflect.Int64 {
 			durationVal, err := key.Duration()
 			if err != nil {
 				intVal, intErr := key.Int64()
@@ -210,7 +211,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 			return nil
 		}
 
-		intVal, err := key.Int64()
+		intVal, err := strconv.ParseInt(key.String(), 0, vt.Bits())
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
@@ -225,7 +226,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		durationVal, err := key.Duration()
 		// Skip zero value
-		if err == nil && durationVal > 0 {
+		if err == nil && durationVal > 0 && !reflect.Zero(vt).OverflowUint(uint64(durationVal)) {
 			if isPtr {
 				pv := reflect.New(t.Elem())
 				pv.Elem().SetUint(uint64(durationVal))
@@ -236,7 +237,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 			return nil
 		}
 
-		uintVal, err := key.Uint64()
+		uintVal, err := strconv.ParseUint(key.String(), 0, vt.Bits())
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
@@ -249,7 +250,7 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 
 	case reflect.Float32, reflect.Float64:
-		floatVal, err := key.Float64()
+		floatVal, err := strconv.ParseFloat(key.String(), vt.Bits())
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-- 
2.43.0


From 1bebb7a8d819a3b301284ad332769f43625a6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:49 +0000
Subject: [PATCH 26/37] fix: only time.Time is treated as a time when mapping
 and reflecting

---
 struct.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/struct.go b/struct.go
index 8ce055d..4a3f62d 100644
--- a/struct.go
+++ b/struct.go
@@ -76,7 +76,10 @@ func parseDelim(actual string) string {
 	return ","
 }
 
-var reflectTime = reflect.TypeOf(time.Now()).Kind()
+var (
+	timeType    = reflect.TypeOf(time.Time{})
+	reflectTime = timeType.Kind()
+)
 
 // setSliceWithProperType sets proper values to slice based on its type.
 func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow, isStrict bool) error {
@@ -112,6 +115,9 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.Bool:
 		vals, err = key.parseBools(strs, true, isStrict)
 	case reflectTime:
+		if field.Type().Elem() != timeType {
+			return fmt.Errorf("unsupported type '[]%s'", sliceOf)
+		}
 		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, isStrict)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
@@ -262,12 +268,17 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 			field.SetFloat(floatVal)
 		}
 	case reflectTime:
+		if vt != timeType {
+			return fmt.Errorf("unsupported type %q", t)
+		}
 		timeVal, err := key.Time()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
 		if isPtr {
-			field.Set(reflect.ValueOf(&timeVal))
+			pv := reflect.New(timeType)
+			pv.Elem().Set(reflect.ValueOf(timeVal))
+			field.Set(pv)
 		} else {
 			field.Set(reflect.ValueOf(timeVal))
 		}
@@ -314,8 +325,8 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			continue
 		}
 
-		isStruct := tpField.Type.Kind() == reflect.Struct
-		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
+		isStruct := tpField.Type.Kind() == reflect.Struct && tpField.Type != timeType
+		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem() != timeType
 		isAnonymousPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Anonymous
 		if isAnonymousPtr {
 			field.Set(reflect.New(tpField.Type.Elem()))
@@ -478,6 +489,9 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
+	if sliceOf == reflectTime && field.Type().Elem() != timeType {
+		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
+	}
 
 	if allowShadow {
 		var keyWithShadows *Key
@@ -548,6 +562,9 @@ func reflectWithProperType(t reflect.Type, key *Key, field reflect.Value, delim
 	case reflect.Float32, reflect.Float64:
 		key.SetValue(fmt.Sprint(field.Float()))
 	case reflectTime:
+		if t != timeType {
+			return fmt.Errorf("unsupported type %q", t)
+		}
 		key.SetValue(fmt.Sprint(field.Interface().(time.Time).Format(time.RFC3339)))
 	case reflect.Slice:
 		return reflectSliceWithProperType(key, field, delim, allowShadow)
@@ -629,8 +646,8 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
-			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
+		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem() != timeType) ||
+			(tpField.Type.Kind() == reflect.Struct && tpField.Type != timeType) {
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
 			if err != nil {
-- 
2.43.0


From 182b0e24eea0eca6de58c9d101cb67f2d60ea7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 27/37] fix: mapping to and reflecting from nil or something
 that is no struct is an error, not a panic

---
 struct.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/struct.go b/struct.go
index 4a3f62d..025d3e0 100644
--- a/struct.go
+++ b/struct.go
@@ -308,6 +308,9 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
+	if val.Kind() != reflect.Struct {
+		return fmt.Errorf("cannot map to %s, not a struct", val.Kind())
+	}
 	typ := val.Type()
 
 	for i := 0; i < typ.NumField(); i++ {
@@ -406,16 +409,13 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 
 // mapTo maps a section to object v.
 func (s *Section) mapTo(v interface{}, isStrict bool) error {
-	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
-	if typ.Kind() == reflect.Ptr {
-		typ = typ.Elem()
-		val = val.Elem()
-	} else {
+	if val.Kind() != reflect.Ptr || val.IsNil() {
 		return errors.New("not a pointer to a struct")
 	}
+	val = val.Elem()
 
-	if typ.Kind() == reflect.Slice {
+	if val.Kind() == reflect.Slice {
 		newField, err := s.mapToSlice(s.name, val, isStrict)
 		if err != nil {
 			return err
@@ -610,6 +610,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	}
+	if val.Kind() != reflect.Struct {
+		return fmt.Errorf("cannot reflect from %s, not a struct", val.Kind())
+	}
 	typ := val.Type()
 
 	for i := 0; i < typ.NumField(); i++ {
@@ -717,15 +720,17 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 
 // ReflectFrom reflects section from given struct. It overwrites existing ones.
 func (s *Section) ReflectFrom(v interface{}) error {
-	typ := reflect.TypeOf(v)
 	val := reflect.ValueOf(v)
+	if val.Kind() == reflect.Ptr && val.IsNil() {
+		return errors.New("not a pointer to a struct")
+	}
 
 	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
-		(typ.Kind() == reflect.Slice || typ.Kind() == reflect.Ptr) {
+		(val.Kind() == reflect.Slice || val.Kind() == reflect.Ptr) {
 		// Clear sections to make sure none exists before adding the new ones
 		s.f.DeleteSection(s.name)
 
-		if typ.Kind() == reflect.Ptr {
+		if val.Kind() == reflect.Ptr {
 			sec, err := s.f.NewSection(s.name)
 			if err != nil {
 				return err
@@ -754,7 +759,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return nil
 	}
 
-	if typ.Kind() == reflect.Ptr {
+	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
 	} else {
 		return errors.New("not a pointer to a struct")
-- 
2.43.0


From 48832ec59392796b344a29a862cbf6aacf44b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:53 +0000
Subject: [PATCH 28/37] fix: mapping non-unique sections to a slice of pointers
 no longer panics

---
 struct.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 025d3e0..9fba2b9 100644
--- a/struct.go
+++ b/struct.go
@@ -396,13 +396,20 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 	}
 
 	typ := val.Type().Elem()
+	isPtr := typ.Kind() == reflect.Ptr
+	if isPtr {
+		typ = typ.Elem()
+	}
 	for i, sec := range secs {
 		elem := reflect.New(typ)
 		if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {
 			return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
 		}
 
-		val = reflect.Append(val, elem.Elem())
+		if !isPtr {
+			elem = elem.Elem()
+		}
+		val = reflect.Append(val, elem)
 	}
 	return val, nil
 }
-- 
2.43.0


From 46ad53b605850c8cafa48c6330644d16d9396dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:54 +0000
Subject: [PATCH 29/37] fix: mapping keeps what an embedded pointer already
 points to

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 9fba2b9..ec5b4d9 100644
--- a/struct.go
+++ b/struct.go
@@ -331,7 +331,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 		isStruct := tpField.Type.Kind() == reflect.Struct && tpField.Type != timeType
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem() != timeType
 		isAnonymousPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Anonymous
-		if isAnonymousPtr {
+		if isAnonymousPtr && field.IsNil() {
 			field.Set(reflect.New(tpField.Type.Elem()))
 		}
 
-- 
2.43.0


From 1b36c400e6075b420b9cbb5da21bcd73859fa5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:55 +0000
Subject: [PATCH 30/37] fix: reflecting nil pointers to structs no longer
 panics

---
 struct.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/struct.go b/struct.go
index ec5b4d9..8e531d5 100644
--- a/struct.go
+++ b/struct.go
@@ -650,6 +650,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if extends && tpField.Anonymous && (tpField.Type.Kind() == reflect.Ptr || tpField.Type.Kind() == reflect.Struct) {
+			if field.Kind() == reflect.Ptr && field.IsNil() {
+				continue
+			}
 			if err := s.reflectFrom(field); err != nil {
 				return fmt.Errorf("reflect from field %q: %v", fieldName, err)
 			}
@@ -658,6 +661,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 
 		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem() != timeType) ||
 			(tpField.Type.Kind() == reflect.Struct && tpField.Type != timeType) {
+			if field.Kind() == reflect.Ptr && field.IsNil() {
+				continue
+			}
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
 			if err != nil {
-- 
2.43.0


From 613c0f33c7528bf56093d0a3dce959034e5f6d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 31/37] fix: reflecting goes on after an empty slice of
 sections and after a struct reflector

---
 struct.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/struct.go b/struct.go
index 8e531d5..c3f3066 100644
--- a/struct.go
+++ b/struct.go
@@ -641,7 +641,10 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if r, ok := field.Interface().(StructReflector); ok {
-			return r.ReflectINIStruct(s.f)
+			if err := r.ReflectINIStruct(s.f); err != nil {
+				return err
+			}
+			continue
 		}
 
 		fieldName := s.parseFieldName(tpField.Name, rawName)
@@ -684,9 +687,6 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
 			slice := field.Slice(0, field.Len())
-			if field.Len() == 0 {
-				return nil
-			}
 			sliceOf := field.Type().Elem().Kind()
 
 			for i := 0; i < field.Len(); i++ {
-- 
2.43.0


From 437bbd32f06012b4b55409d84fdea64498725294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 32/37] fix: reflecting into a child section no longer
 overwrites the key of its parent

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index c3f3066..056e4ed 100644
--- a/struct.go
+++ b/struct.go
@@ -713,7 +713,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 
 		// Note: Same reason as section.
 		key, err := s.GetKey(fieldName)
-		if err != nil {
+		if err != nil || key.s != s {
 			key, _ = s.NewKey(fieldName, "")
 		}
 
-- 
2.43.0


From 45ccf4e8eaec1ecbf59d812058b0fb9f34b05afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 33/37] fix: reflecting a list with shadows keeps the comment,
 the hash and all values

---
 struct.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 056e4ed..f08eb91 100644
--- a/struct.go
+++ b/struct.go
@@ -500,7 +500,7 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 	}
 
-	if allowShadow {
+	if allowShadow && key.s.f.options.AllowShadows {
 		var keyWithShadows *Key
 		for i := 0; i < field.Len(); i++ {
 			var val string
@@ -527,7 +527,9 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 				_ = keyWithShadows.AddShadow(val)
 			}
 		}
+		keyWithShadows.Comment = key.Comment
 		*key = *keyWithShadows
+		key.SetValue(key.value)
 		return nil
 	}
 
-- 
2.43.0


From f1d7111572253800583b7bada52040e467d9c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:05 +0000
Subject: [PATCH 34/37] fix: mapping leaves a slice of sections alone when
 there is no such section

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index f08eb91..fad29ff 100644
--- a/struct.go
+++ b/struct.go
@@ -368,6 +368,9 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 		// Map non-unique sections
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
+			if _, err := s.f.SectionsByName(fieldName); err != nil {
+				continue
+			}
 			newField, err := s.mapToSlice(fieldName, field, isStrict)
 			if err != nil {
 				return fmt.Errorf("map to slice %q: %v", fieldName, err)
-- 
2.43.0


From a2ce09280f51d323c5ed33f64c4530f9128ca153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:01 +0000
Subject: [PATCH 35/37] fix: reflecting into the default section of a
 case-insensitive file no longer moves it to the end

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index fad29ff..2a4fb7a 100644
--- a/struct.go
+++ b/struct.go
@@ -743,7 +743,7 @@ func (s *Section) ReflectFrom(v interface{}) error {
 		return errors.New("not a pointer to a struct")
 	}
 
-	if s.name != DefaultSection && s.f.options.AllowNonUniqueSections &&
+	if !s.f.isDefaultSection(s) && s.f.options.AllowNonUniqueSections &&
 		(val.Kind() == reflect.Slice || val.Kind() == reflect.Ptr) {
 		// Clear sections to make sure none exists before adding the new ones
 		s.f.DeleteSection(s.name)
-- 
2.43.0


From e0796e0308d88515c2bc1701ec652104bbbfe048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 36/37] fix: compare times in full, not in whole seconds, in
 RangeTimeFormat

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index a8affd4..8184e10 100644
--- a/key.go
+++ b/key.go
@@ -499,7 +499,7 @@ func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
 // and returns default value if it's not.
 func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) time.Time {
 	val := k.MustTimeFormat(format)
-	if val.Unix() < min.Unix() || val.Unix() > max.Unix() {
+	if val.Before(min) || val.After(max) {
 		return defaultVal
 	}
 	return val
-- 
2.43.0


From 0c7317a05403ea8ef9bbae1f5bf9d4f27d8899eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 37/37] fix: compare times with Equal in InTimeFormat

---
 key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/key.go b/key.go
index 8184e10..1f2c9a4 100644
--- a/key.go
+++ b/key.go
@@ -452,7 +452,7 @@ func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []tim
 		return defaultVal
 	}
 	for _, cand := range candidates {
-		if val == cand {
+		if val.Equal(cand) {
 			return val
 		}
 	}
-- 
2.43.0


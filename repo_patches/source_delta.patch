From be491c4035be0306e2b9ce16cf69415ad439baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:26 +0000
Subject: [PATCH 01/56] fix: jsonfmt.WriteUint32 dropped the low six digits of
 values >= 1e9

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 654cc16..22ff9a8 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -140,7 +140,7 @@ func WriteUint32(space []byte, val uint32) []byte {
 	} else {
 		r3 := q2 - q3*1000
 		space = append(space, byte(q3 + '0'))
-		return writeBuf(space, digits[r3])
+		space = writeBuf(space, digits[r3])
 	}
 	space = writeBuf(space, digits[r2])
 	return writeBuf(space, digits[r1])
-- 
2.43.0


From 1b3b85455023b2b13449e78332807c1f6086f4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:26 +0000
Subject: [PATCH 02/56] fix: jsonfmt.WriteUint64 wrote a non-digit for values
 >= 1e19

---
 msgfmt/jsonfmt/encoder_int.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder_int.go b/msgfmt/jsonfmt/encoder_int.go
index 22ff9a8..816400f 100644
--- a/msgfmt/jsonfmt/encoder_int.go
+++ b/msgfmt/jsonfmt/encoder_int.go
@@ -201,7 +201,7 @@ func WriteUint64(space []byte, val uint64) []byte {
 	if q6 == 0 {
 		space = writeFirstBuf(space, digits[q5])
 	} else {
-		space = append(space, byte(q6 + '0'))
+		space = writeFirstBuf(space, digits[q6])
 		r6 := q5 - q6*1000
 		space = writeBuf(space, digits[r6])
 	}
-- 
2.43.0


From fe995202d1a840d1622c2c043441650c94cade9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:32 +0000
Subject: [PATCH 03/56] fix: string and byte slice writers dropped a last
 character that needs escaping

---
 msgfmt/formatter_bytes.go       | 9 +++++----
 msgfmt/jsonfmt/encoder_bytes.go | 9 +++++----
 msgfmt/jsonfmt/encoder_str.go   | 9 +++++----
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 646e5c8..5d5fa6a 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -117,16 +117,17 @@ var hex = "0123456789abcdef"
 
 func writeBytes(space []byte, s []byte) []byte {
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range s {
+	i := 0
+	for i < len(s) {
+		c := s[i]
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
+			i++
 		} else {
 			break
 		}
 	}
-	if i == len(s)-1 {
+	if i == len(s) {
 		return space
 	}
 	return writeBytesSlowPath(space, s[i:])
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 4c81ece..289d369 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -16,16 +16,17 @@ func (encoder *bytesEncoder) Encode(ctx context.Context, space []byte, ptr unsaf
 func WriteBytes(space []byte, s []byte) []byte {
 	space = append(space, '"')
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range s {
+	i := 0
+	for i < len(s) {
+		c := s[i]
 		if c < utf8.RuneSelf && safeSet[c] {
 			space = append(space, c)
+			i++
 		} else {
 			break
 		}
 	}
-	if i == len(s)-1 {
+	if i == len(s) {
 		space = append(space, '"')
 		return space
 	}
diff --git a/msgfmt/jsonfmt/encoder_str.go b/msgfmt/jsonfmt/encoder_str.go
index effd7cc..ea4219b 100644
--- a/msgfmt/jsonfmt/encoder_str.go
+++ b/msgfmt/jsonfmt/encoder_str.go
@@ -123,16 +123,17 @@ func (encoder *stringEncoder) Encode(ctx context.Context, space []byte, ptr unsa
 func WriteString(space []byte, str string) []byte {
 	space = append(space, '"')
 	// write string, the fast path, without utf8 and escape support
-	var i int
-	var c byte
-	for i, c = range []byte(str) {
+	i := 0
+	for i < len(str) {
+		c := str[i]
 		if c > 31 && c != '"' && c != '\\' {
 			space = append(space, c)
+			i++
 		} else {
 			break
 		}
 	}
-	if i == len(str)-1 {
+	if i == len(str) {
 		space = append(space, '"')
 		return space
 	}
-- 
2.43.0


From 84441d623d15b8824443bcea4a5c822066235b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:32 +0000
Subject: [PATCH 04/56] fix: byte slice writers dropped the plain text before a
 non-ASCII byte

---
 msgfmt/formatter_bytes.go       | 3 +++
 msgfmt/jsonfmt/encoder_bytes.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/msgfmt/formatter_bytes.go b/msgfmt/formatter_bytes.go
index 5d5fa6a..fc5e9c0 100644
--- a/msgfmt/formatter_bytes.go
+++ b/msgfmt/formatter_bytes.go
@@ -140,6 +140,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
diff --git a/msgfmt/jsonfmt/encoder_bytes.go b/msgfmt/jsonfmt/encoder_bytes.go
index 289d369..88785b9 100644
--- a/msgfmt/jsonfmt/encoder_bytes.go
+++ b/msgfmt/jsonfmt/encoder_bytes.go
@@ -40,6 +40,9 @@ func writeBytesSlowPath(space []byte, s []byte) []byte {
 	var b byte
 	for i, b = range s {
 		if b >= utf8.RuneSelf {
+			if start < i {
+				space = append(space, s[start:i]...)
+			}
 			space = append(space, '\\', '\\', 'x', hex[b>>4], hex[b&0xF])
 			start = i + 1
 			continue
-- 
2.43.0


From ec4625de02638c752bbb6a9e7da8d52d495a3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:22 +0000
Subject: [PATCH 05/56] fix: parse.Source.ConsumeN looped forever when asked
 for more than the remaining input

---
 parse/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/parse.go b/parse/parse.go
index fc60f5d..1f864cb 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -120,6 +120,9 @@ func (src *Source) ConsumeN(n int) {
 	for n != 0 && n >= len(src.current) {
 		n -= len(src.current)
 		src.Consume()
+		if len(src.current) == 0 && src.err != nil {
+			return
+		}
 	}
 	src.current = src.current[n:]
 }
-- 
2.43.0


From 8badda92f471f20b8ff7ede1fbe4053117c8fb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:22 +0000
Subject: [PATCH 06/56] fix: parse.Source lost the data that a reader returns
 together with an error

---
 parse/parse.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 1f864cb..8cbe4aa 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -53,6 +53,7 @@ type Source struct {
 	reader     io.Reader
 	current    []byte
 	nextList   [][]byte
+	readErr    error // returned by reader together with data, to be reported after that data
 	buf        []byte
 	Attachment interface{}
 }
@@ -65,6 +66,7 @@ func NewSource(reader io.Reader, buf []byte) (*Source, error) {
 	return &Source{
 		reader:  reader,
 		current: buf[:n],
+		readErr: err,
 		buf:     buf,
 	}, nil
 }
@@ -101,19 +103,21 @@ func (src *Source) PeekN(n int) ([]byte, error) {
 			return peeked[:n], nil
 		}
 	}
-	for {
+	for src.readErr == nil {
 		buf := make([]byte, len(src.buf))
 		read, err := src.reader.Read(buf)
+		src.readErr = err
+		if read == 0 {
+			continue
+		}
 		next := buf[:read]
 		peeked = append(peeked, next...)
 		src.nextList = append(src.nextList, next)
 		if len(peeked) >= n {
 			return peeked[:n], nil
 		}
-		if err != nil {
-			return peeked, err
-		}
 	}
+	return peeked, src.readErr
 }
 
 func (src *Source) ConsumeN(n int) {
@@ -147,10 +151,16 @@ func (src *Source) Consume() {
 		src.nextList = src.nextList[1:]
 		return
 	}
+	if src.readErr != nil {
+		src.current = nil
+		src.ReportError(src.readErr)
+		return
+	}
 	n, err := src.reader.Read(src.buf)
-	if err != nil {
+	if n == 0 && err != nil {
 		src.ReportError(err)
 	}
+	src.readErr = err
 	src.current = src.buf[:n]
 }
 
-- 
2.43.0


From 0d35a86c2613a4c94727468c97ab8e9179373833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:22 +0000
Subject: [PATCH 07/56] fix: peeking one byte or reading an integer at end of
 input panicked instead of reporting an error

---
 parse/parse.go    | 8 ++++++++
 parse/read/int.go | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 8cbe4aa..cfefd4a 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -86,6 +86,10 @@ func (src *Source) Peek() []byte {
 }
 
 func (src *Source) Peek1() byte {
+	if len(src.current) == 0 {
+		src.ReportError(io.EOF)
+		return 0
+	}
 	return src.current[0]
 }
 
@@ -132,6 +136,10 @@ func (src *Source) ConsumeN(n int) {
 }
 
 func (src *Source) Consume1(b1 byte) {
+	if len(src.current) == 0 {
+		src.ReportError(errors.New("expect " + string([]byte{b1}) + " but found end of input"))
+		return
+	}
 	if b1 != src.current[0] {
 		src.ReportError(errors.New(
 			"expect " + string([]byte{b1}) +
diff --git a/parse/read/int.go b/parse/read/int.go
index 2d88c84..5216b80 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -30,7 +30,7 @@ func Int(src *parse.Source) int {
 }
 
 func Int32(src *parse.Source) int32 {
-	c := src.Peek()[0]
+	c := src.Peek1()
 	if c == '-' {
 		src.ConsumeN(1)
 		val := Uint64(src)
@@ -49,7 +49,7 @@ func Int32(src *parse.Source) int32 {
 }
 
 func Int64(src *parse.Source) int64 {
-	c := src.Peek()[0]
+	c := src.Peek1()
 	if c == '-' {
 		src.ConsumeN(1)
 		val := Uint64(src)
-- 
2.43.0


From a4410efe6925e526bb88a5a769c6a86a2fbacfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:45 +0000
Subject: [PATCH 08/56] fix: read.Uint64 returned a wrapped value for most
 texts beyond the uint64 range

---
 parse/read/int.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/parse/read/int.go b/parse/read/int.go
index 5216b80..6fcc020 100644
--- a/parse/read/int.go
+++ b/parse/read/int.go
@@ -10,7 +10,7 @@ import (
 var intDigits []int8
 
 const invalidCharForNumber = int8(-1)
-const uint64SafeToMultiple10 = uint64(0xffffffffffffffff)/10 - 1
+const uint64SafeToMultiple10 = uint64(0xffffffffffffffff) / 10
 
 func init() {
 	intDigits = make([]int8, 256)
@@ -78,15 +78,15 @@ func Uint64(src *parse.Source) uint64 {
 				return value
 			}
 			if value > uint64SafeToMultiple10 {
-				value2 := (value << 3) + (value << 1) + uint64(ind)
-				if value2 < value {
-					src.ReportError(errors.New("uint64: overflow"))
-					return 0
-				}
-				value = value2
-				continue
+				src.ReportError(errors.New("uint64: overflow"))
+				return 0
+			}
+			value10 := (value << 3) + (value << 1)
+			value = value10 + uint64(ind)
+			if value < value10 {
+				src.ReportError(errors.New("uint64: overflow"))
+				return 0
 			}
-			value = (value << 3) + (value << 1) + uint64(ind)
 		}
 		src.Consume()
 	}
-- 
2.43.0


From 86ef8aa7d6774113fe07356bb0fb620053d15546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:45 +0000
Subject: [PATCH 09/56] fix: unicode range readers and skippers did not stop at
 end of input

---
 parse/read/range.go | 14 ++++++++++++--
 parse/skip/range.go | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/parse/read/range.go b/parse/read/range.go
index be83a0e..b8a5794 100644
--- a/parse/read/range.go
+++ b/parse/read/range.go
@@ -6,7 +6,11 @@ import (
 )
 
 func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
+		if len(src.Peek()) == 0 {
+			src.Consume()
+			continue
+		}
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -15,10 +19,15 @@ func UnicodeRange(src *parse.Source, space []rune, table *unicode.RangeTable) []
 		}
 		return space
 	}
+	return space
 }
 
 func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) []rune {
-	for {
+	for src.Error() == nil {
+		if len(src.Peek()) == 0 {
+			src.Consume()
+			continue
+		}
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -39,4 +48,5 @@ func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTab
 		}
 		return space
 	}
+	return space
 }
diff --git a/parse/skip/range.go b/parse/skip/range.go
index d2286c5..7eff4bd 100644
--- a/parse/skip/range.go
+++ b/parse/skip/range.go
@@ -7,7 +7,11 @@ import (
 
 func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
+		if len(src.Peek()) == 0 {
+			src.Consume()
+			continue
+		}
 		r, n := src.PeekRune()
 		if unicode.Is(table, r) {
 			src.ConsumeN(n)
@@ -16,11 +20,16 @@ func UnicodeRange(src *parse.Source, table *unicode.RangeTable) int {
 		}
 		return count
 	}
+	return count
 }
 
 func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes []*unicode.RangeTable) int {
 	count := 0
-	for {
+	for src.Error() == nil {
+		if len(src.Peek()) == 0 {
+			src.Consume()
+			continue
+		}
 		r, n := src.PeekRune()
 		for _, exclude := range excludes {
 			if unicode.Is(exclude, r) {
@@ -36,4 +45,5 @@ func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes [
 		}
 		return count
 	}
+	return count
 }
-- 
2.43.0


From 789340be07bcc7f05e676e4a267687407b93c2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:45 +0000
Subject: [PATCH 10/56] fix: reading or skipping unicode ranges stopped after
 one included rune and could consume it twice

---
 parse/read/range.go | 11 ++++-------
 parse/skip/range.go | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/parse/read/range.go b/parse/read/range.go
index b8a5794..86b379a 100644
--- a/parse/read/range.go
+++ b/parse/read/range.go
@@ -39,14 +39,11 @@ func UnicodeRanges(src *parse.Source, space []rune, includes []*unicode.RangeTab
 			space = append(space, r)
 			continue
 		}
-		for _, include := range includes {
-			if unicode.Is(include, r) {
-				src.ConsumeN(n)
-				space = append(space, r)
-				continue
-			}
+		if !unicode.In(r, includes...) {
+			return space
 		}
-		return space
+		src.ConsumeN(n)
+		space = append(space, r)
 	}
 	return space
 }
diff --git a/parse/skip/range.go b/parse/skip/range.go
index 7eff4bd..d5c667a 100644
--- a/parse/skip/range.go
+++ b/parse/skip/range.go
@@ -36,14 +36,11 @@ func UnicodeRanges(src *parse.Source, includes []*unicode.RangeTable, excludes [
 				return count
 			}
 		}
-		for _, include := range includes {
-			if unicode.Is(include, r) {
-				src.ConsumeN(n)
-				count += n
-				continue
-			}
+		if !unicode.In(r, includes...) {
+			return count
 		}
-		return count
+		src.ConsumeN(n)
+		count += n
 	}
 	return count
 }
-- 
2.43.0


From a33765a40a3a5093f722aa2f1ce10504012ea8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:12 +0000
Subject: [PATCH 11/56] fix: parse.Source dropped every error reported after
 the end of input was reached

---
 parse/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index cfefd4a..de59e79 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -188,7 +188,8 @@ func (src *Source) PeekRune() (rune, int) {
 }
 
 func (src *Source) ReportError(err error) {
-	if src.err == nil {
+	// reaching the end of input must not hide what is wrong with the input
+	if src.err == nil || src.err == io.EOF {
 		src.err = err
 	}
 }
-- 
2.43.0


From a981452ef3934ff545fc02e3ecd890a98c7336cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:22 +0000
Subject: [PATCH 12/56] fix: message templates that end inside braces, are
 empty or name an unknown property made formatting panic

---
 msgfmt/formatter.go |  7 +++++--
 msgfmt/parse.go     | 43 ++++++++++++++++++++++++++-----------------
 2 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 6819826..255747a 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -88,10 +88,13 @@ func findValueIndex(sample []interface{}, target string) int {
 func compile(format string, sample []interface{}) Formatter {
 	src := parse.NewSourceString(format)
 	src.Attachment = sample
-	formatter := toFormatter.Parse(src, 0)
+	formatter, _ := toFormatter.Parse(src, 0).(Formatter)
 	if src.Error() != nil {
 		if src.Error() == io.EOF {
-			return formatter.(Formatter)
+			if formatter == nil {
+				return fixedFormatter("")
+			}
+			return formatter
 		}
 		return invalidFormatter(src.Error().Error())
 	}
diff --git a/msgfmt/parse.go b/msgfmt/parse.go
index 4099f66..f3f9048 100644
--- a/msgfmt/parse.go
+++ b/msgfmt/parse.go
@@ -36,17 +36,21 @@ func newLexer(initLexer func(l *lexer)) *lexer {
 func (lexer *lexer) Parse(src *parse.Source, precedence int) interface{} {
 	var left interface{}
 	for src.Error() == nil {
+		right := parse.Parse(src, lexer, precedence)
+		if right == nil {
+			return nil
+		}
 		if left == nil {
-			left = parse.Parse(src, lexer, precedence)
+			left = right
 		} else {
-			left = lexer.merge(left, parse.Parse(src, lexer, precedence))
+			left = lexer.merge(left, right)
 		}
 	}
 	return left
 }
 
 func (lexer *lexer) PrefixToken(src *parse.Source) parse.PrefixToken {
-	switch src.Peek()[0] {
+	switch src.Peek1() {
 	case '{':
 		return lexer.leftCurly
 	default:
@@ -66,13 +70,18 @@ func (token *leftCurlyToken) PrefixParse(src *parse.Source) interface{} {
 	src.Consume1('{')
 	obj := parse.Parse(src, token.lexer.variable, 0)
 	if src.Error() != nil {
+		src.ReportError(errors.New("expect }, but found end of input"))
 		return nil
 	}
 	id, isId := obj.(string)
 	if isId {
 		obj = token.lexer.parseVariable(src, id)
 	}
-	rightFormatter := obj.(Formatter)
+	rightFormatter, isFormatter := obj.(Formatter)
+	if !isFormatter {
+		src.ReportError(errors.New("can not format " + id))
+		return nil
+	}
 	src.Consume1('}')
 	return rightFormatter
 }
@@ -106,17 +115,25 @@ func (lexer *variableLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 
 func (lexer *variableLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
 	skip.UnicodeSpace(src)
-	switch src.Peek()[0] {
+	switch src.Peek1() {
 	case ',':
 		return lexer.comma, parse.DefaultPrecedence
 	case '}':
 		return nil, 0
 	default:
-		src.ReportError(errors.New("expect , or }, but found " + string([]byte{src.Peek()[0]})))
+		reportUnexpected(src)
 		return nil, 0
 	}
 }
 
+func reportUnexpected(src *parse.Source) {
+	if len(src.Peek()) == 0 {
+		src.ReportError(errors.New("expect , or }, but found end of input"))
+		return
+	}
+	src.ReportError(errors.New("expect , or }, but found " + string([]byte{src.Peek1()})))
+}
+
 type idToken struct {
 }
 
@@ -153,16 +170,8 @@ func newFormatterLexer() *formatterLexer {
 
 func (lexer *formatterLexer) PrefixToken(src *parse.Source) parse.PrefixToken {
 	skip.UnicodeSpace(src)
-	buf, _ := src.PeekN(6)
-	str := string(buf)
-	switch str {
-	case "select":
-		panic("not implemented")
-	case "plural":
-		panic("not implemented")
-	default:
-		return lexer.funcName
-	}
+	// select and plural are not implemented, they are reported as not supported
+	return lexer.funcName
 }
 
 func (lexer *formatterLexer) InfixToken(src *parse.Source) (parse.InfixToken, int) {
@@ -190,7 +199,7 @@ func (token *funcNameToken) PrefixParse(src *parse.Source) interface{} {
 		case '}':
 			return funcInvocation{name, args}
 		default:
-			src.ReportError(errors.New("expect , or }, but found " + string([]byte{src.Peek()[0]})))
+			reportUnexpected(src)
 			return funcInvocation{name, args}
 		}
 	}
-- 
2.43.0


From 3d329d70e50b29a0d45f8f20aa22855aff6fc109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:22 +0000
Subject: [PATCH 13/56] fix: formatting panicked on property lists with a key
 that is not a string, without a last value, or with a nil value

---
 msgfmt/custom.go    | 6 +++---
 msgfmt/formatter.go | 9 ++++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/msgfmt/custom.go b/msgfmt/custom.go
index 282eb66..f209833 100644
--- a/msgfmt/custom.go
+++ b/msgfmt/custom.go
@@ -35,9 +35,9 @@ func (format *GoTimeFormat) FormatterOf(targetKey string, formatArgs []string, s
 	if len(formatArgs) == 0 {
 		formatArgs = append(formatArgs, time.RFC3339)
 	}
-	for i := 0; i < len(sample); i+= 2{
-		key := sample[i].(string)
-		if key == targetKey {
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isString := sample[i].(string)
+		if isString && key == targetKey {
 			_, isTime := sample[i+1].(time.Time)
 			if !isTime {
 				return nil, fmt.Errorf("%s is not time.Time", targetKey)
diff --git a/msgfmt/formatter.go b/msgfmt/formatter.go
index 255747a..d7bd772 100644
--- a/msgfmt/formatter.go
+++ b/msgfmt/formatter.go
@@ -38,6 +38,9 @@ var toFormatter = newLexer(func(l *lexer) {
 			return nil
 		}
 		sampleValue := sample[idx]
+		if sampleValue == nil {
+			return fixedFormatter("null")
+		}
 		stringer, _ := sampleValue.(fmt.Stringer)
 		if stringer != nil {
 			return stringerFormatter(idx)
@@ -76,9 +79,9 @@ var toFormatter = newLexer(func(l *lexer) {
 })
 
 func findValueIndex(sample []interface{}, target string) int {
-	for i := 0; i < len(sample); i += 2 {
-		key := sample[i].(string)
-		if key == target {
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isString := sample[i].(string)
+		if isString && key == target {
 			return i + 1
 		}
 	}
-- 
2.43.0


From 8b6e6cb5fd2f8a145f93049b1c77f848ce9fefed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:22 +0000
Subject: [PATCH 14/56] fix: msgfmt.Fprintln without values wrote to stdout
 instead of the given writer

---
 msgfmt/msgfmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index e08557b..7b8485a 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -38,7 +38,7 @@ func Fprintln(writer io.Writer, valuesObj ...interface{}) (int, error) {
 func fprintln(writer io.Writer, values []interface{}) (int, error) {
 	switch len(values) {
 	case 0:
-		return fmt.Println()
+		return fmt.Fprintln(writer)
 	case 1:
 		return Fprintf(writer,"{single_value}\n", "single_value", values[0])
 	default:
-- 
2.43.0


From 16567145aa7dae1e9394d0f592d1de346a9fe93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:45 +0000
Subject: [PATCH 15/56] fix: a cached formatter was applied to properties of
 other keys, types, order or number than it was compiled for

---
 msgfmt/formatter_sampled.go | 59 +++++++++++++++++++++++++++++++++++++
 msgfmt/msgfmt.go            | 26 ++++++++++++----
 2 files changed, 79 insertions(+), 6 deletions(-)
 create mode 100644 msgfmt/formatter_sampled.go

diff --git a/msgfmt/formatter_sampled.go b/msgfmt/formatter_sampled.go
new file mode 100644
index 0000000..8c4a092
--- /dev/null
+++ b/msgfmt/formatter_sampled.go
@@ -0,0 +1,59 @@
+package msgfmt
+
+import "github.com/v2pro/plz/reflect2"
+
+// sampledFormatter is compiled for the keys and types of the sample properties.
+// What is compiled holds the position and the encoder of each property,
+// so it must not be used with properties of other keys or types.
+type sampledFormatter struct {
+	format    string
+	keys      []interface{}
+	types     []uintptr
+	formatter Formatter
+}
+
+func newSampledFormatter(format string, sample []interface{}) *sampledFormatter {
+	formatter := &sampledFormatter{
+		format:    format,
+		keys:      make([]interface{}, len(sample)),
+		types:     make([]uintptr, len(sample)),
+		formatter: compile(format, sample),
+	}
+	for i, obj := range sample {
+		if i%2 == 0 {
+			if key, isString := obj.(string); isString {
+				formatter.keys[i] = key
+			}
+		} else {
+			formatter.types[i] = reflect2.RTypeOf(obj)
+		}
+	}
+	return formatter
+}
+
+func (formatter *sampledFormatter) isFor(kv []interface{}) bool {
+	if len(kv) != len(formatter.keys) {
+		return false
+	}
+	for i, obj := range kv {
+		if i%2 == 1 {
+			if reflect2.RTypeOf(obj) != formatter.types[i] {
+				return false
+			}
+			continue
+		}
+		key, isString := obj.(string)
+		sampleKey, isSampleString := formatter.keys[i].(string)
+		if isString != isSampleString || key != sampleKey {
+			return false
+		}
+	}
+	return true
+}
+
+func (formatter *sampledFormatter) Format(space []byte, kv []interface{}) []byte {
+	if formatter.isFor(kv) {
+		return formatter.formatter.Format(space, kv)
+	}
+	return sampledFormatterOf(formatter.format, kv).formatter.Format(space, kv)
+}
diff --git a/msgfmt/msgfmt.go b/msgfmt/msgfmt.go
index 7b8485a..a60f475 100644
--- a/msgfmt/msgfmt.go
+++ b/msgfmt/msgfmt.go
@@ -69,12 +69,26 @@ func fprintf(writer io.Writer, format string, kv []interface{}) (int, error) {
 
 var formatterCache = concurrent.NewMap()
 
+// a format used with more different property lists than this is compiled again each time
+const maxFormattersOfOneFormat = 16
+
+// FormatterOf returns the formatter compiled for the keys and types of sample.
+// It can be used to format any other properties, but is fast for the properties like the sample only.
 func FormatterOf(format string, sample []interface{}) Formatter {
-	formatterObj, found := formatterCache.Load(format)
-	if found {
-		return formatterObj.(Formatter)
+	return sampledFormatterOf(format, sample)
+}
+
+func sampledFormatterOf(format string, sample []interface{}) *sampledFormatter {
+	formattersObj, _ := formatterCache.Load(format)
+	formatters, _ := formattersObj.([]*sampledFormatter)
+	for _, formatter := range formatters {
+		if formatter.isFor(sample) {
+			return formatter
+		}
+	}
+	formatter := newSampledFormatter(format, sample)
+	if len(formatters) < maxFormattersOfOneFormat {
+		formatterCache.Store(format, append(formatters[:len(formatters):len(formatters)], formatter))
 	}
-	formatter := compile(format, sample)
-	formatterCache.Store(format, formatter)
 	return formatter
-}
\ No newline at end of file
+}
-- 
2.43.0


From e450fdb670b3b9b074ebe993792b2d28fe48fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:45 +0000
Subject: [PATCH 16/56] fix: invalid format marker used the output of
 json.Marshal only when it had failed

---
 msgfmt/formatter_invalid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/formatter_invalid.go b/msgfmt/formatter_invalid.go
index 813c846..688c4b8 100644
--- a/msgfmt/formatter_invalid.go
+++ b/msgfmt/formatter_invalid.go
@@ -9,7 +9,7 @@ type invalidFormatter string
 
 func (formatter invalidFormatter) Format(space []byte, kv []interface{}) []byte {
 	output, err := json.Marshal(kv)
-	if err != nil {
+	if err == nil {
 		space = append(space, "%! (INVALID FORMAT) "...)
 		space = append(space, formatter...)
 		space = append(space, "%! (FORMAT ARGS) "...)
-- 
2.43.0


From 33982c0c9be4054c9cd1cb8a264447d4c0e35a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:18 +0000
Subject: [PATCH 17/56] fix: iterating maps through reflect2 crashed since go
 1.18 changed reflect.mapiterinit

---
 reflect2/go_above_118.go | 16 ++++++++++++++++
 reflect2/go_below_118.go | 16 ++++++++++++++++
 reflect2/unsafe_link.go  | 21 ++++++++++++++-------
 reflect2/unsafe_map.go   |  2 +-
 4 files changed, 47 insertions(+), 8 deletions(-)
 create mode 100644 reflect2/go_above_118.go
 create mode 100644 reflect2/go_below_118.go

diff --git a/reflect2/go_above_118.go b/reflect2/go_above_118.go
new file mode 100644
index 0000000..79d798e
--- /dev/null
+++ b/reflect2/go_above_118.go
@@ -0,0 +1,16 @@
+//go:build go1.18
+// +build go1.18
+
+package reflect2
+
+import "unsafe"
+
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer, it *hiter)
+
+func newMapIter(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	it := &hiter{}
+	mapiterinit(rtype, m, it)
+	return it
+}
diff --git a/reflect2/go_below_118.go b/reflect2/go_below_118.go
new file mode 100644
index 0000000..0da3d43
--- /dev/null
+++ b/reflect2/go_below_118.go
@@ -0,0 +1,16 @@
+//go:build !go1.18
+// +build !go1.18
+
+package reflect2
+
+import "unsafe"
+
+// m escapes into the return value, but the caller of mapiterinit
+// doesn't let the return value escape.
+//go:noescape
+//go:linkname mapiterinit reflect.mapiterinit
+func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
+
+func newMapIter(rtype unsafe.Pointer, m unsafe.Pointer) *hiter {
+	return mapiterinit(rtype, m)
+}
diff --git a/reflect2/unsafe_link.go b/reflect2/unsafe_link.go
index a25a5f4..b6e5789 100644
--- a/reflect2/unsafe_link.go
+++ b/reflect2/unsafe_link.go
@@ -25,12 +25,6 @@ func mapassign(rtype unsafe.Pointer, m unsafe.Pointer, key, val unsafe.Pointer)
 //go:noescape
 func mapaccess(rtype unsafe.Pointer, m unsafe.Pointer, key unsafe.Pointer) (val unsafe.Pointer)
 
-// m escapes into the return value, but the caller of mapiterinit
-// doesn't let the return value escape.
-//go:noescape
-//go:linkname mapiterinit reflect.mapiterinit
-func mapiterinit(rtype unsafe.Pointer, m unsafe.Pointer) *hiter
-
 //go:noescape
 //go:linkname mapiternext reflect.mapiternext
 func mapiternext(it *hiter)
@@ -44,7 +38,20 @@ func ifaceE2I(rtype unsafe.Pointer, src interface{}, dst unsafe.Pointer)
 type hiter struct {
 	key   unsafe.Pointer // Must be in first position.  Write nil to indicate iteration end (see cmd/internal/gc/range.go).
 	value unsafe.Pointer // Must be in second position (see cmd/internal/gc/range.go).
-	// rest fields are ignored
+	// rest fields are not accessed, but since go 1.18 the memory is allocated by the caller of mapiterinit
+	t           unsafe.Pointer
+	h           unsafe.Pointer
+	buckets     unsafe.Pointer
+	bptr        unsafe.Pointer
+	overflow    *[]unsafe.Pointer
+	oldoverflow *[]unsafe.Pointer
+	startBucket uintptr
+	offset      uint8
+	wrapped     bool
+	B           uint8
+	i           uint8
+	bucket      uintptr
+	checkBucket uintptr
 }
 
 // add returns p+x.
diff --git a/reflect2/unsafe_map.go b/reflect2/unsafe_map.go
index f2e76e6..449c304 100644
--- a/reflect2/unsafe_map.go
+++ b/reflect2/unsafe_map.go
@@ -109,7 +109,7 @@ func (type2 *UnsafeMapType) Iterate(obj interface{}) MapIterator {
 
 func (type2 *UnsafeMapType) UnsafeIterate(obj unsafe.Pointer) MapIterator {
 	return &UnsafeMapIterator{
-		hiter:      mapiterinit(type2.rtype, *(*unsafe.Pointer)(obj)),
+		hiter:      newMapIter(type2.rtype, *(*unsafe.Pointer)(obj)),
 		pKeyRType:  type2.pKeyRType,
 		pElemRType: type2.pElemRType,
 	}
-- 
2.43.0


From 85578cd41ebd782df243977e4aeae0862d1afae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:18 +0000
Subject: [PATCH 18/56] fix: error messages were not escaped in json, and nil
 errors and marshalers panicked

---
 msgfmt/jsonfmt/encoder_error.go          | 8 ++++----
 msgfmt/jsonfmt/encoder_json_marshaler.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index 8cd46c2..9e40842 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -12,8 +12,8 @@ type errorEncoder struct {
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	space = append(space, '"')
-	space = append(space, obj.(error).Error()...)
-	space = append(space, '"')
-	return space
+	if reflect2.IsNil(obj) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
+	return WriteString(space, obj.(error).Error())
 }
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index fc0cd76..6a24078 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -13,12 +13,12 @@ type jsonMarshalerEncoder struct {
 
 func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
+	if reflect2.IsNil(obj) {
+		return append(space, 'n', 'u', 'l', 'l')
+	}
 	buf, err := obj.(json.Marshaler).MarshalJSON()
 	if err != nil {
-		space = append(space, '"')
-		space = append(space, err.Error()...)
-		space = append(space, '"')
-		return space
+		return WriteString(space, err.Error())
 	}
 	space = append(space, buf...)
 	return space
-- 
2.43.0


From 91119d4baa4bcb2b3a9ef730cf2b0a9cacfa92e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:18 +0000
Subject: [PATCH 19/56] fix: NaN and infinity were written as an arbitrary
 number or invalid json

---
 msgfmt/jsonfmt/encoder_float.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/msgfmt/jsonfmt/encoder_float.go b/msgfmt/jsonfmt/encoder_float.go
index 572953c..b248a38 100644
--- a/msgfmt/jsonfmt/encoder_float.go
+++ b/msgfmt/jsonfmt/encoder_float.go
@@ -27,8 +27,22 @@ func (encoder *lossyFloat32Encoder) Encode(ctx context.Context, space []byte, pt
 	return WriteFloat32Lossy(space, *(*float32)(ptr))
 }
 
+// writeNonFinite writes NaN and infinity, which are not numbers in json, as a string
+func writeNonFinite(space []byte, val float64) []byte {
+	space = append(space, '"')
+	space = strconv.AppendFloat(space, val, 'f', -1, 64)
+	return append(space, '"')
+}
+
+func isNonFinite(val float64) bool {
+	return math.IsNaN(val) || math.IsInf(val, 0)
+}
+
 // WriteFloat64 write float64 to stream
 func WriteFloat64(space []byte, val float64) []byte {
+	if isNonFinite(val) {
+		return writeNonFinite(space, val)
+	}
 	abs := math.Abs(val)
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -41,6 +55,9 @@ func WriteFloat64(space []byte, val float64) []byte {
 }
 // WriteFloat64Lossy write float64 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat64Lossy(space []byte, val float64) []byte {
+	if isNonFinite(val) {
+		return writeNonFinite(space, val)
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
@@ -69,6 +86,9 @@ func WriteFloat64Lossy(space []byte, val float64) []byte {
 
 // WriteFloat32 write float32 to stream
 func WriteFloat32(space []byte, val float32) []byte {
+	if isNonFinite(float64(val)) {
+		return writeNonFinite(space, float64(val))
+	}
 	abs := math.Abs(float64(val))
 	fmt := byte('f')
 	// Note: Must use float32 comparisons for underlying float32 value to get precise cutoffs right.
@@ -82,6 +102,9 @@ func WriteFloat32(space []byte, val float32) []byte {
 
 // WriteFloat32Lossy write float32 to stream with ONLY 6 digits precision although much much faster
 func WriteFloat32Lossy(space []byte, val float32) []byte {
+	if isNonFinite(float64(val)) {
+		return writeNonFinite(space, float64(val))
+	}
 	if val < 0 {
 		space = append(space, '-')
 		val = -val
-- 
2.43.0


From 2368f3f2d081f8308e09dfdfe69c9c9958fb6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:18 +0000
Subject: [PATCH 20/56] fix: message for a field that can not be encoded
 contained unescaped quotes, which made the json invalid

---
 msgfmt/jsonfmt/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index f3a8cc2..1e7e817 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -172,7 +172,7 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 	case reflect.Interface:
 		return &dynamicEncoder{valType:valType}
 	}
-	return &unsupportedEncoder{fmt.Sprintf(`"can not encode %s %s to json"`, valType.String(), prefix)}
+	return &unsupportedEncoder{string(WriteString(nil, fmt.Sprintf(`can not encode %s %s to json`, valType.String(), prefix)))}
 }
 
 type unsupportedEncoder struct {
-- 
2.43.0


From 77a7c6f83d0efd043ac433cdbd770b0f730e190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:18 +0000
Subject: [PATCH 21/56] fix: whether a struct field is exported was decided by
 the first byte of its name instead of its first character

---
 msgfmt/jsonfmt/encoder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 1e7e817..e774763 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 	"fmt"
 	"encoding/json"
 	"context"
@@ -239,8 +240,13 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 	}
 }
 
+func isExported(name string) bool {
+	first, _ := utf8.DecodeRuneInString(name)
+	return unicode.IsUpper(first)
+}
+
 func getFieldName(cfg *frozenConfig, field reflect2.StructField) string {
-	if !cfg.includesUnexported && !unicode.IsUpper(rune(field.Name()[0])) {
+	if !cfg.includesUnexported && !isExported(field.Name()) {
 		return ""
 	}
 	if field.Type().Kind() == reflect.Func {
-- 
2.43.0


From a6abe22edb00b0206273acbd2150c838d82b87ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:57 +0000
Subject: [PATCH 22/56] fix: map keys that are neither strings nor numbers, and
 keys held in interfaces, were encoded to invalid json or read as another type

---
 msgfmt/jsonfmt/encoder.go     |  9 +++++----
 msgfmt/jsonfmt/encoder_map.go | 32 ++++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index e774763..55e3e9e 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -197,11 +197,12 @@ func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *m
 
 func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) Encoder {
 	keyEncoder := encoderOf(cfg, prefix+" [mapKey]", keyType)
-	if keyType.Kind() == reflect.String || keyType == bytesType {
-		return &mapStringKeyEncoder{keyEncoder}
-	}
 	if keyType.Kind() == reflect.Interface {
-		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix}
+		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
+	}
+	switch keyEncoder.(type) {
+	case *stringEncoder:
+		return &mapStringKeyEncoder{keyEncoder}
 	}
 	return &mapNumberKeyEncoder{keyEncoder}
 }
diff --git a/msgfmt/jsonfmt/encoder_map.go b/msgfmt/jsonfmt/encoder_map.go
index 58a49a2..1a59d8a 100644
--- a/msgfmt/jsonfmt/encoder_map.go
+++ b/msgfmt/jsonfmt/encoder_map.go
@@ -35,10 +35,22 @@ type mapNumberKeyEncoder struct {
 }
 
 func (encoder *mapNumberKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	start := len(space)
 	space = append(space, '"')
 	space = encoder.valEncoder.Encode(ctx, space, ptr)
-	space = append(space, '"', ':')
-	return space
+	key := space[start+1:]
+	if len(key) != 0 && key[0] >= '-' && key[0] <= '9' {
+		return append(space, '"', ':')
+	}
+	key = append([]byte(nil), key...)
+	space = space[:start]
+	if len(key) != 0 && key[0] == '"' {
+		// already a string
+		space = append(space, key...)
+	} else {
+		space = WriteString(space, string(key))
+	}
+	return append(space, ':')
 }
 
 type mapStringKeyEncoder struct {
@@ -52,12 +64,20 @@ func (encoder *mapStringKeyEncoder) Encode(ctx context.Context, space []byte, pt
 }
 
 type mapInterfaceKeyEncoder struct {
-	cfg    *frozenConfig
-	prefix string
+	cfg     *frozenConfig
+	prefix  string
+	keyType reflect2.Type
 }
 
 func (encoder *mapInterfaceKeyEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
-	keyObj := *(*interface{})(ptr)
-	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, reflect2.TypeOf(keyObj))
+	keyObj := encoder.keyType.UnsafeIndirect(ptr)
+	if keyObj == nil {
+		return append(space, `"null":`...)
+	}
+	keyType := reflect2.TypeOf(keyObj)
+	keyEncoder := encoderOfMapKey(encoder.cfg, encoder.prefix, keyType)
+	if keyType.LikePtr() {
+		keyEncoder = &onePtrInterfaceEncoder{keyEncoder}
+	}
 	return keyEncoder.Encode(ctx, space, reflect2.PtrOf(keyObj))
 }
-- 
2.43.0


From b5f5d529ad666ee107897750967859d8909cd70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:23 +0000
Subject: [PATCH 23/56] fix: encoding a type that contains itself overflowed
 the stack

---
 msgfmt/jsonfmt/encoder.go | 48 +++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 55e3e9e..3e178cb 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -69,7 +69,7 @@ func (cfg *frozenConfig) EncoderOf(valType reflect2.Type) Encoder {
 	if found {
 		return encoderObj.(Encoder)
 	}
-	encoder := encoderOf(cfg, "", valType)
+	encoder := encoderOf(cfg, encodersInProgress{}, "", valType)
 	if valType.LikePtr() {
 		encoder = &onePtrInterfaceEncoder{encoder}
 	}
@@ -77,6 +77,18 @@ func (cfg *frozenConfig) EncoderOf(valType reflect2.Type) Encoder {
 	return encoder
 }
 
+// encodersInProgress are the types of which the encoder is being created, by rtype.
+// The encoder of a type that contains itself refers to the entry in here.
+type encodersInProgress map[uintptr]*recursiveEncoder
+
+type recursiveEncoder struct {
+	encoder Encoder
+}
+
+func (encoder *recursiveEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
+	return encoder.encoder.Encode(ctx, space, ptr)
+}
+
 func encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) Encoder {
 	cacheKey := keyType.RType()
 	encoderObj, found := cfg.mapKeyEncoderCache.Load(cacheKey)
@@ -101,7 +113,19 @@ func MarshalToString(obj interface{}) string {
 	return string(encoder.Encode(nil, nil, reflect2.PtrOf(obj)))
 }
 
-func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder {
+func encoderOf(cfg *frozenConfig, inProgress encodersInProgress, prefix string, valType reflect2.Type) Encoder {
+	cacheKey := valType.RType()
+	if encoder, found := inProgress[cacheKey]; found {
+		return encoder
+	}
+	recursive := &recursiveEncoder{}
+	inProgress[cacheKey] = recursive
+	recursive.encoder = _encoderOf(cfg, inProgress, prefix, valType)
+	delete(inProgress, cacheKey)
+	return recursive.encoder
+}
+
+func _encoderOf(cfg *frozenConfig, inProgress encodersInProgress, prefix string, valType reflect2.Type) Encoder {
 	for _, extension := range cfg.extensions {
 		encoder := extension.EncoderOf(prefix, valType.Type1())
 		if encoder != nil {
@@ -148,28 +172,28 @@ func encoderOf(cfg *frozenConfig, prefix string, valType reflect2.Type) Encoder
 		return &stringEncoder{}
 	case reflect.Ptr:
 		pointerType := valType.(reflect2.PtrType)
-		elemEncoder := encoderOf(cfg, prefix+" [ptrElem]", pointerType.Elem())
+		elemEncoder := encoderOf(cfg, inProgress, prefix+" [ptrElem]", pointerType.Elem())
 		return &pointerEncoder{elemEncoder: elemEncoder}
 	case reflect.Slice:
 		sliceType := valType.(reflect2.SliceType)
-		elemEncoder := encoderOf(cfg, prefix+" [sliceElem]", sliceType.Elem())
+		elemEncoder := encoderOf(cfg, inProgress, prefix+" [sliceElem]", sliceType.Elem())
 		return &sliceEncoder{
 			elemEncoder: elemEncoder,
 			sliceType:   sliceType.(*reflect2.UnsafeSliceType),
 		}
 	case reflect.Array:
 		arrayType := valType.(reflect2.ArrayType)
-		elemEncoder := encoderOf(cfg, prefix+" [sliceElem]", arrayType.Elem())
+		elemEncoder := encoderOf(cfg, inProgress, prefix+" [sliceElem]", arrayType.Elem())
 		return &arrayEncoder{
 			elemEncoder: elemEncoder,
 			arrayType:   arrayType.(*reflect2.UnsafeArrayType),
 		}
 	case reflect.Struct:
 		structType := valType.(reflect2.StructType)
-		return encoderOfStruct(cfg, prefix, structType)
+		return encoderOfStruct(cfg, inProgress, prefix, structType)
 	case reflect.Map:
 		mapType := valType.(reflect2.MapType)
-		return encoderOfMap(cfg, prefix, mapType)
+		return encoderOfMap(cfg, inProgress, prefix, mapType)
 	case reflect.Interface:
 		return &dynamicEncoder{valType:valType}
 	}
@@ -184,10 +208,10 @@ func (encoder *unsupportedEncoder) Encode(ctx context.Context, space []byte, ptr
 	return append(space, encoder.msg...)
 }
 
-func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *mapEncoder {
+func encoderOfMap(cfg *frozenConfig, inProgress encodersInProgress, prefix string, valType reflect2.MapType) *mapEncoder {
 	keyEncoder := encoderOfMapKey(cfg, prefix, valType.Key())
 	elemType := valType.Elem()
-	elemEncoder := encoderOf(cfg, prefix+" [mapElem]", elemType)
+	elemEncoder := encoderOf(cfg, inProgress, prefix+" [mapElem]", elemType)
 	return &mapEncoder{
 		keyEncoder:  keyEncoder,
 		elemEncoder: elemEncoder,
@@ -196,7 +220,7 @@ func encoderOfMap(cfg *frozenConfig, prefix string, valType reflect2.MapType) *m
 }
 
 func _encoderOfMapKey(cfg *frozenConfig, prefix string, keyType reflect2.Type) Encoder {
-	keyEncoder := encoderOf(cfg, prefix+" [mapKey]", keyType)
+	keyEncoder := encoderOf(cfg, encodersInProgress{}, prefix+" [mapKey]", keyType)
 	if keyType.Kind() == reflect.Interface {
 		return &mapInterfaceKeyEncoder{cfg: cfg, prefix: prefix, keyType: keyType}
 	}
@@ -215,7 +239,7 @@ func (encoder *onePtrInterfaceEncoder) Encode(ctx context.Context, space []byte,
 	return encoder.valEncoder.Encode(ctx, space, unsafe.Pointer(&ptr))
 }
 
-func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructType) *structEncoder {
+func encoderOfStruct(cfg *frozenConfig, inProgress encodersInProgress, prefix string, valType reflect2.StructType) *structEncoder {
 	var fields []structEncoderField
 	for i := 0; i < valType.NumField(); i++ {
 		field := valType.Field(i)
@@ -233,7 +257,7 @@ func encoderOfStruct(cfg *frozenConfig, prefix string, valType reflect2.StructTy
 		fields = append(fields, structEncoderField{
 			structField: field.(*reflect2.UnsafeStructField),
 			prefix:      prefix,
-			encoder:     encoderOf(cfg, prefix+" ."+name, field.Type()),
+			encoder:     encoderOf(cfg, inProgress, prefix+" ."+name, field.Type()),
 		})
 	}
 	return &structEncoder{
-- 
2.43.0


From 373d8b654d0ab1d36ec3b459c894e2be478264aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:51 +0000
Subject: [PATCH 24/56] fix: an error that is a struct of one nil pointer is
 not nil

---
 msgfmt/jsonfmt/encoder_error.go          | 9 ++++++++-
 msgfmt/jsonfmt/encoder_json_marshaler.go | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder_error.go b/msgfmt/jsonfmt/encoder_error.go
index 9e40842..421eaaf 100644
--- a/msgfmt/jsonfmt/encoder_error.go
+++ b/msgfmt/jsonfmt/encoder_error.go
@@ -3,16 +3,23 @@ package jsonfmt
 import (
 	"unsafe"
 	"context"
+	"reflect"
 	"github.com/v2pro/plz/reflect2"
 )
 
+// isNilPtr tells if there is no value to call methods of.
+// A struct or array that consists of one nil pointer only is a value.
+func isNilPtr(obj interface{}) bool {
+	return obj == nil || reflect.TypeOf(obj).Kind() == reflect.Ptr && reflect2.IsNil(obj)
+}
+
 type errorEncoder struct {
 	valType reflect2.Type
 }
 
 func (encoder *errorEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	if reflect2.IsNil(obj) {
+	if isNilPtr(obj) {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
 	return WriteString(space, obj.(error).Error())
diff --git a/msgfmt/jsonfmt/encoder_json_marshaler.go b/msgfmt/jsonfmt/encoder_json_marshaler.go
index 6a24078..5332b8d 100644
--- a/msgfmt/jsonfmt/encoder_json_marshaler.go
+++ b/msgfmt/jsonfmt/encoder_json_marshaler.go
@@ -13,7 +13,7 @@ type jsonMarshalerEncoder struct {
 
 func (encoder *jsonMarshalerEncoder) Encode(ctx context.Context, space []byte, ptr unsafe.Pointer) []byte {
 	obj := encoder.valType.UnsafeIndirect(ptr)
-	if reflect2.IsNil(obj) {
+	if isNilPtr(obj) {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
 	buf, err := obj.(json.Marshaler).MarshalJSON()
-- 
2.43.0


From 55487fdfc8d5bb609ea123e0487bbca22c5436f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:32 +0000
Subject: [PATCH 25/56] fix: a function wrapped by gls.WithGls shared one
 storage between its runs and wiped the storage of the goroutine calling it

---
 gls/gls.go | 49 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/gls/gls.go b/gls/gls.go
index a8613ec..6a6ebea 100644
--- a/gls/gls.go
+++ b/gls/gls.go
@@ -55,31 +55,46 @@ func WithGls(f func()) func() {
 	parentGls := GetGls(GoID())
 	// parentGls can not be used in other goroutine, otherwise not thread safe
 	// make a deep for child goroutine
-	childGls := map[interface{}]interface{}{}
-	for k, v := range parentGls {
-		asCopiable, ok := v.(copiable)
-		if ok {
-			childGls[k] = asCopiable.Copy()
-		} else {
-			childGls[k] = v
-		}
-	}
+	snapshot := copyGls(parentGls)
 	return func() {
-		goid := GoID()
-		ResetGls(goid, childGls)
-		defer DeleteGls(goid)
-		f()
+		// the returned func might be called many times, every call has its own copy
+		runWithGls(copyGls(snapshot), f)
 	}
 }
 
 func WithEmptyGls(f func()) func() {
 	// do not inherit from parent gls
 	return func() {
-		goid := GoID()
-		ResetGls(goid, make(map[interface{}]interface{}))
-		defer DeleteGls(goid)
-		f()
+		runWithGls(make(map[interface{}]interface{}), f)
+	}
+}
+
+func copyGls(gls map[interface{}]interface{}) map[interface{}]interface{} {
+	copied := map[interface{}]interface{}{}
+	for k, v := range gls {
+		asCopiable, ok := v.(copiable)
+		if ok {
+			copied[k] = asCopiable.Copy()
+		} else {
+			copied[k] = v
+		}
 	}
+	return copied
+}
+
+func runWithGls(gls map[interface{}]interface{}, f func()) {
+	goid := GoID()
+	outerGls := GetGls(goid)
+	ResetGls(goid, gls)
+	defer func() {
+		if outerGls == nil {
+			DeleteGls(goid)
+		} else {
+			// called by a goroutine which has gls on its own
+			ResetGls(goid, outerGls)
+		}
+	}()
+	f()
 }
 
 func Get(key interface{}) interface{} {
-- 
2.43.0


From e99322943be7664b962bf0b27dfcc662802eec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:50 +0000
Subject: [PATCH 26/56] fix: the stack trace logged by LogPanic was padded with
 zero bytes to 64K

---
 countlog/countlog.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/countlog.go b/countlog/countlog.go
index 05abc1f..84103b6 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -131,7 +131,7 @@ func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
 		return nil
 	}
 	buf := make([]byte, 1<<16)
-	runtime.Stack(buf, false)
+	buf = buf[:runtime.Stack(buf, false)]
 	if len(properties) > 0 {
 		properties = append(properties, "err", recovered, "stacktrace", string(buf))
 		Fatal("event!panic", properties...)
-- 
2.43.0


From f258fa8f0d242c7f8adf9782f361fd012b470aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:14 +0000
Subject: [PATCH 27/56] fix: a handler cached by event name was used for
 properties of other keys, types or number, and panics caused by properties
 reached the caller or delivered the event twice

---
 countlog/context.go  |  3 +-
 countlog/countlog.go | 57 ++++++++++++++--------------
 countlog/handlers.go | 82 +++++++++++++++++++++++++++++++++++++++++
 countlog/root.go     | 88 +++++++++++++-------------------------------
 4 files changed, 137 insertions(+), 93 deletions(-)
 create mode 100644 countlog/handlers.go

diff --git a/countlog/context.go b/countlog/context.go
index 3a2e8b0..9bef3af 100644
--- a/countlog/context.go
+++ b/countlog/context.go
@@ -38,11 +38,10 @@ func (ctx *Context) Trace(event string, properties ...interface{}) {
 	if LevelTrace < spi.MinLevel {
 		return
 	}
-	ptr := unsafe.Pointer(&properties)
 	if LevelTrace < ctx.suppressedMinLevel {
-		addMemo(LevelTrace, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
 		return
 	}
+	ptr := unsafe.Pointer(&properties)
 	log(LevelTrace, event, "", ctx, nil, castEmptyInterfaces(uintptr(ptr)))
 }
 
diff --git a/countlog/countlog.go b/countlog/countlog.go
index 84103b6..eaf3ef4 100644
--- a/countlog/countlog.go
+++ b/countlog/countlog.go
@@ -141,8 +141,6 @@ func LogPanic(recovered interface{}, properties ...interface{}) interface{} {
 	return recovered
 }
 
-var handlerCache = concurrent.NewMap()
-
 func log(level int, eventName string, agg string, ctx *Context, err error, properties []interface{}) error {
 	handler := getHandler(eventName, agg, ctx, properties)
 	event := &spi.Event{
@@ -156,32 +154,31 @@ func log(level int, eventName string, agg string, ctx *Context, err error, prope
 	castedEvent := castEvent(uintptr(ptr))
 	handler.Handle(castedEvent)
 	if castedEvent.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
-		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
+		castedEvent.Error = errors.New(formatMessage(eventName, properties) + ": " + errorText(castedEvent.Error))
 	}
 	return castedEvent.Error
 }
 
-func addMemo(level int, eventName string, agg string, ctx *Context, err error, properties []interface{}) {
-	event := &spi.Event{
-		Level:      level,
-		Context:    ctx,
-		Error:      err,
-		Timestamp:  time.Now(),
-		Properties: properties,
-	}
-	ptr := unsafe.Pointer(event)
-	castedEvent := castEvent(uintptr(ptr))
-	if castedEvent.Error != nil {
-		formatter := msgfmt.FormatterOf(eventName, properties)
-		errMsg := formatter.Format(nil, properties)
-		errMsg = append(errMsg, ": "...)
-		errMsg = append(errMsg, castedEvent.Error.Error()...)
-		castedEvent.Error = errors.New(string(errMsg))
-	}
+func formatMessage(eventName string, properties []interface{}) (message string) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			onPanic(recovered)
+			message = eventName
+		}
+	}()
+	return string(msgfmt.FormatterOf(eventName, properties).Format(nil, properties))
+}
+
+func errorText(err error) (text string) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			onPanic(recovered)
+			text = "unknown error"
+		}
+	}()
+	return err.Error()
 }
 
 func castEmptyInterfaces(ptr uintptr) []interface{} {
@@ -196,9 +193,9 @@ func castString(ptr uintptr) string {
 }
 
 func getHandler(event string, agg string, ctx *Context, properties []interface{}) spi.EventHandler {
-	handler, found := handlerCache.Load(event)
-	if found {
-		return handler.(spi.EventHandler)
+	handler := cachedHandler(event, agg, properties)
+	if handler != nil {
+		return handler
 	}
 	return newHandler(event, agg, ctx, properties)
 }
@@ -214,7 +211,9 @@ func newHandler(eventName string, agg string, ctx *Context, properties []interfa
 		Line:   callerLine,
 		Sample: properties,
 	}
-	handler := newRootHandler(site, nomalModeOnPanic)
-	handlerCache.Store(eventName, handler)
+	handler := newRootHandler(site)
+	// the properties belong to the caller, they must not be kept
+	site.Sample = nil
+	cacheHandler(eventName, agg, properties, handler)
 	return handler
 }
diff --git a/countlog/handlers.go b/countlog/handlers.go
new file mode 100644
index 0000000..658c965
--- /dev/null
+++ b/countlog/handlers.go
@@ -0,0 +1,82 @@
+package countlog
+
+import (
+	"github.com/v2pro/plz/concurrent"
+	"github.com/v2pro/plz/countlog/spi"
+	"github.com/v2pro/plz/reflect2"
+)
+
+// handlerCache holds the handlers of each event name as []*shapedHandler
+var handlerCache = concurrent.NewMap()
+
+// maxHandlersOfOneEvent limits the memory used by events logged with ever changing property keys
+const maxHandlersOfOneEvent = 64
+
+// shapedHandler is only good for the properties it has been created for:
+// the same keys in the same order, values of the same types,
+// and the same value of the properties which control the aggregation.
+type shapedHandler struct {
+	agg        string
+	properties []propertyShape
+	handler    spi.EventHandler
+}
+
+type propertyShape struct {
+	key         string
+	isStringKey bool
+	valueType   uintptr
+	control     string // value of agg and dim
+}
+
+func shapeOf(properties []interface{}, i int) propertyShape {
+	var shape propertyShape
+	shape.key, shape.isStringKey = properties[i].(string)
+	if i+1 == len(properties) {
+		return shape
+	}
+	shape.valueType = reflect2.RTypeOf(properties[i+1])
+	if shape.key == "agg" || shape.key == "dim" {
+		shape.control, _ = properties[i+1].(string)
+	}
+	return shape
+}
+
+func (handler *shapedHandler) isFor(agg string, properties []interface{}) bool {
+	if agg != handler.agg || (len(properties)+1)/2 != len(handler.properties) {
+		return false
+	}
+	for i, shape := range handler.properties {
+		if shapeOf(properties, i*2) != shape {
+			return false
+		}
+	}
+	return true
+}
+
+func cachedHandler(event string, agg string, properties []interface{}) spi.EventHandler {
+	handlersObj, _ := handlerCache.Load(event)
+	handlers, _ := handlersObj.([]*shapedHandler)
+	for _, handler := range handlers {
+		if handler.isFor(agg, properties) {
+			return handler.handler
+		}
+	}
+	return nil
+}
+
+func cacheHandler(event string, agg string, properties []interface{}, handler spi.EventHandler) {
+	handlersObj, _ := handlerCache.Load(event)
+	handlers, _ := handlersObj.([]*shapedHandler)
+	if _, hasStats := handler.(*statsAndOutput); !hasStats && len(handlers) >= maxHandlersOfOneEvent {
+		return
+	}
+	shaped := &shapedHandler{agg: agg, handler: handler}
+	for i := 0; i < len(properties); i += 2 {
+		shape := shapeOf(properties, i)
+		// memory of the key belongs to the caller
+		shape.key = string(append([]byte(nil), shape.key...))
+		shape.control = string(append([]byte(nil), shape.control...))
+		shaped.properties = append(shaped.properties, shape)
+	}
+	handlerCache.Store(event, append(handlers[:len(handlers):len(handlers)], shaped))
+}
diff --git a/countlog/root.go b/countlog/root.go
index 1f46859..c9e10aa 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -2,42 +2,52 @@ package countlog
 
 import (
 	"github.com/v2pro/plz/countlog/spi"
-	"runtime"
 	"fmt"
 	"runtime/debug"
 	"github.com/v2pro/plz/countlog/loglog"
 )
 
-type panicHandler func(recovered interface{}, event *spi.Event, site *spi.LogSite)
-
-func newRootHandler(site *spi.LogSite, onPanic panicHandler) spi.EventHandler {
-	statsHandler := EventAggregator.HandlerOf(site)
+func newRootHandler(site *spi.LogSite) spi.EventHandler {
+	outputHandler := &oneHandler{
+		site:    site,
+		handler: handlerOf(EventWriter, site),
+	}
+	statsHandler := handlerOf(EventAggregator, site)
 	if statsHandler == nil {
-		return &oneHandler{
-			site:    site,
-			handler: EventWriter.HandlerOf(site),
-			onPanic: onPanic,
-		}
+		return outputHandler
 	}
 	return &statsAndOutput{
 		site:          site,
-		statsHandler:  statsHandler,
-		outputHandler: EventWriter.HandlerOf(site),
-		onPanic:       onPanic,
+		statsHandler:  &oneHandler{site: site, handler: statsHandler},
+		outputHandler: outputHandler,
 	}
 }
 
+func handlerOf(sink spi.EventSink, site *spi.LogSite) (handler spi.EventHandler) {
+	defer func() {
+		recovered := recover()
+		if recovered != nil {
+			onPanic(recovered)
+			handler = nil
+		}
+	}()
+	return sink.HandlerOf(site)
+}
+
+// oneHandler contains the panics of the handler
 type oneHandler struct {
 	site    *spi.LogSite
 	handler spi.EventHandler
-	onPanic panicHandler
 }
 
 func (handler *oneHandler) Handle(event *spi.Event) {
+	if handler.handler == nil {
+		return
+	}
 	defer func() {
 		recovered := recover()
 		if recovered != nil {
-			handler.onPanic(recovered, event, handler.site)
+			onPanic(recovered)
 		}
 	}()
 	handler.handler.Handle(event)
@@ -51,16 +61,9 @@ type statsAndOutput struct {
 	site          *spi.LogSite
 	statsHandler  spi.EventHandler
 	outputHandler spi.EventHandler
-	onPanic       panicHandler
 }
 
 func (handler *statsAndOutput) Handle(event *spi.Event) {
-	defer func() {
-		recovered := recover()
-		if recovered != nil {
-			handler.onPanic(recovered, event, handler.site)
-		}
-	}()
 	if event.Level >= spi.MinCallLevel {
 		handler.outputHandler.Handle(event)
 	}
@@ -71,48 +74,9 @@ func (handler *statsAndOutput) LogSite() *spi.LogSite {
 	return handler.site
 }
 
-func nomalModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
-	redirector := &redirector{
-		site:            *site,
-	}
-	handlerCache.Store(site.Event, redirector)
-	newSite := *site
-	newSite.File = "unknown"
-	newSite.Line = 0
-	newSite.Sample = event.Properties
-	newRootHandler(&newSite, fallbackModeOnPanic).Handle(event)
-}
-
-func fallbackModeOnPanic(recovered interface{}, event *spi.Event, site *spi.LogSite) {
+func onPanic(recovered interface{}) {
 	loglog.Error(fmt.Errorf("%v", recovered))
 	if spi.MinLevel <= spi.LevelDebug {
 		debug.PrintStack()
 	}
 }
-
-type redirector struct {
-	site spi.LogSite
-}
-
-func (redirector *redirector) Handle(event *spi.Event) {
-	_, callerFile, callerLine, _ := runtime.Caller(3)
-	key := accurateHandlerKey{callerFile, callerLine}
-	handlerObj, found := handlerCache.Load(key)
-	if found {
-		handlerObj.(spi.EventHandler).Handle(event)
-		return
-	}
-	site := redirector.site
-	site.File = callerFile
-	site.Line = callerLine
-	site.Sample = event.Properties
-	handler := newRootHandler(&site, fallbackModeOnPanic)
-	handlerCache.Store(key, handler)
-	handler.Handle(event)
-	return
-}
-
-type accurateHandlerKey struct {
-	File string
-	Line int
-}
-- 
2.43.0


From a5b3167b8a69383ac689d490305c22decdd5a883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:14 +0000
Subject: [PATCH 28/56] fix: failing calls were not logged when the minimum
 level is WARN or above

---
 countlog/root.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/countlog/root.go b/countlog/root.go
index c9e10aa..2831723 100644
--- a/countlog/root.go
+++ b/countlog/root.go
@@ -64,7 +64,7 @@ type statsAndOutput struct {
 }
 
 func (handler *statsAndOutput) Handle(event *spi.Event) {
-	if event.Level >= spi.MinCallLevel {
+	if event.Level >= spi.MinCallLevel || event.Level >= spi.LevelWarn {
 		handler.outputHandler.Handle(event)
 	}
 	handler.statsHandler.Handle(event)
-- 
2.43.0


From c4f999a898e1f5aef3807fe7e812aa4ce53f2217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 29/56] fix: levels suppressed in a context were suppressed for
 Trace only

---
 countlog/context.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/countlog/context.go b/countlog/context.go
index 9bef3af..ef6a611 100644
--- a/countlog/context.go
+++ b/countlog/context.go
@@ -24,6 +24,10 @@ func (ctx *Context) SuppressLevelsBelow(level int) {
 	ctx.suppressedMinLevel = level
 }
 
+func (ctx *Context) isSuppressed(level int) bool {
+	return ctx != nil && level < ctx.suppressedMinLevel
+}
+
 func (ctx *Context) Value(key interface{}) interface{} {
 	if ctx == nil {
 		return nil
@@ -35,10 +39,7 @@ func (ctx *Context) Value(key interface{}) interface{} {
 }
 
 func (ctx *Context) Trace(event string, properties ...interface{}) {
-	if LevelTrace < spi.MinLevel {
-		return
-	}
-	if LevelTrace < ctx.suppressedMinLevel {
+	if LevelTrace < spi.MinLevel || ctx.isSuppressed(LevelTrace) {
 		return
 	}
 	ptr := unsafe.Pointer(&properties)
@@ -50,7 +51,7 @@ func (ctx *Context) TraceCall(event string, err error, properties ...interface{}
 		ptr := unsafe.Pointer(&properties)
 		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
 	}
-	if LevelTrace < spi.MinLevel {
+	if LevelTrace < spi.MinLevel || ctx.isSuppressed(LevelTrace) {
 		return nil
 	}
 	ptr := unsafe.Pointer(&properties)
@@ -59,7 +60,7 @@ func (ctx *Context) TraceCall(event string, err error, properties ...interface{}
 }
 
 func (ctx *Context) Debug(event string, properties ...interface{}) {
-	if LevelDebug < spi.MinLevel {
+	if LevelDebug < spi.MinLevel || ctx.isSuppressed(LevelDebug) {
 		return
 	}
 	ptr := unsafe.Pointer(&properties)
@@ -71,7 +72,7 @@ func (ctx *Context) DebugCall(event string, err error, properties ...interface{}
 		ptr := unsafe.Pointer(&properties)
 		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
 	}
-	if LevelDebug < spi.MinLevel {
+	if LevelDebug < spi.MinLevel || ctx.isSuppressed(LevelDebug) {
 		return nil
 	}
 	ptr := unsafe.Pointer(&properties)
@@ -80,7 +81,7 @@ func (ctx *Context) DebugCall(event string, err error, properties ...interface{}
 }
 
 func (ctx *Context) Info(event string, properties ...interface{}) {
-	if LevelInfo < spi.MinLevel {
+	if LevelInfo < spi.MinLevel || ctx.isSuppressed(LevelInfo) {
 		return
 	}
 	ptr := unsafe.Pointer(&properties)
@@ -92,7 +93,7 @@ func (ctx *Context) InfoCall(event string, err error, properties ...interface{})
 		ptr := unsafe.Pointer(&properties)
 		return log(LevelWarn, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
 	}
-	if LevelInfo < spi.MinLevel {
+	if LevelInfo < spi.MinLevel || ctx.isSuppressed(LevelInfo) {
 		return nil
 	}
 	ptr := unsafe.Pointer(&properties)
@@ -105,7 +106,7 @@ func (ctx *Context) LogAccess(event string, err error, properties ...interface{}
 		ptr := unsafe.Pointer(&properties)
 		return log(LevelError, event, "call", ctx, err, castEmptyInterfaces(uintptr(ptr)))
 	}
-	if LevelInfo < spi.MinLevel {
+	if LevelInfo < spi.MinLevel || ctx.isSuppressed(LevelInfo) {
 		return nil
 	}
 	ptr := unsafe.Pointer(&properties)
-- 
2.43.0


From dbfa287ca660bb94e18d4772086e7e913f63b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 30/56] fix: msgfmt kept the keys of the sample, which may be
 memory of the caller's stack

---
 msgfmt/formatter_sampled.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msgfmt/formatter_sampled.go b/msgfmt/formatter_sampled.go
index 8c4a092..99eec9c 100644
--- a/msgfmt/formatter_sampled.go
+++ b/msgfmt/formatter_sampled.go
@@ -22,7 +22,8 @@ func newSampledFormatter(format string, sample []interface{}) *sampledFormatter
 	for i, obj := range sample {
 		if i%2 == 0 {
 			if key, isString := obj.(string); isString {
-				formatter.keys[i] = key
+				// memory of the sample belongs to the caller
+				formatter.keys[i] = string(append([]byte(nil), key...))
 			}
 		} else {
 			formatter.types[i] = reflect2.RTypeOf(obj)
-- 
2.43.0


From 7d2bd47fca9a58cbbc4afae9d198ecd51a8941dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 31/56] fix: one handler of spi.EventHandlers that panics kept
 the event from the others

---
 countlog/spi/spi.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/countlog/spi/spi.go b/countlog/spi/spi.go
index d87c43a..da3fa6f 100644
--- a/countlog/spi/spi.go
+++ b/countlog/spi/spi.go
@@ -97,12 +97,18 @@ type EventHandler interface {
 type EventHandlers []EventHandler
 
 func (handlers EventHandlers) Handle(event *Event) {
-	for _, handler := range handlers {
-		handler.Handle(event)
+	if len(handlers) == 0 {
+		return
 	}
+	// the others handle the event even if this one panics
+	defer handlers[1:].Handle(event)
+	handlers[0].Handle(event)
 }
 
 func (handlers EventHandlers) LogSite() *LogSite {
+	if len(handlers) == 0 {
+		return nil
+	}
 	return handlers[0].LogSite()
 }
 
-- 
2.43.0


From 425f6ff3c20682e67199e22033b177a63cfedd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 32/56] fix: the human readable format never showed the level

---
 countlog/spi/color.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/countlog/spi/color.go b/countlog/spi/color.go
index 9fed7f8..a655051 100644
--- a/countlog/spi/color.go
+++ b/countlog/spi/color.go
@@ -1,5 +1,7 @@
 package spi
 
+import "fmt"
+
 var coloredNames = map[int]string{}
 
 func init() {
@@ -15,9 +17,7 @@ func init() {
 		LevelFatal,
 	}
 	for _, level := range levels {
-		coloredNames[level] = ColoredLevelName(level)
-		//coloredNames[level] = msgfmt.Sprintf("\x1b[{color};1m[{level}]\x1b[0m ",
-		//	"color", getColor(level), "level", LevelName(level))
+		coloredNames[level] = fmt.Sprintf("\x1b[%d;1m[%s]\x1b[0m ", getColor(level), LevelName(level))
 	}
 }
 
-- 
2.43.0


From 4bd63c73bbc602243f38853035df5c25a03242a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:20 +0000
Subject: [PATCH 33/56] fix: stats were exported once and never again

---
 countlog/stats/window.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index e1b43b9..f9abc8e 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -39,10 +39,11 @@ func newWindow(executor Executor, collector Collector, dimensionElemCount int) *
 }
 
 func (window *Window) exportEverySecond(ctx context.Context) {
-	timer := time.NewTimer(time.Second)
+	ticker := time.NewTicker(time.Second)
+	defer ticker.Stop()
 	for {
 		select {
-		case <-timer.C:
+		case <-ticker.C:
 			window.Export(time.Now())
 		case <-ctx.Done():
 			return
-- 
2.43.0


From 661c22a6369ad66cd09b1d729dc60f33f5056919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:20 +0000
Subject: [PATCH 34/56] fix: points given to the stats collector had no event
 name

---
 countlog/stats/stats.go  | 2 +-
 countlog/stats/window.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index f357b30..a86e35a 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -44,7 +44,7 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		return &spi.DummyEventHandler{Site: site}
 	}
 	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, dimensionElemCount)
+	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 	switch agg {
 	case "counter":
 		return &countEvent{
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index f9abc8e..3fd1d43 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -23,9 +23,10 @@ type windowShard struct {
 	lock *sync.Mutex
 }
 
-func newWindow(executor Executor, collector Collector, dimensionElemCount int) *Window {
+func newWindow(executor Executor, collector Collector, event string, dimensionElemCount int) *Window {
 	window := &Window{
 		collector:          collector,
+		event:              event,
 		dimensionElemCount: dimensionElemCount,
 	}
 	for i := 0; i < 16; i++ {
-- 
2.43.0


From 3537cbb2772a4d3b842e2ed62dd9b902981a3108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:20 +0000
Subject: [PATCH 35/56] fix: setting a stats collector made every successful
 call be logged and left a window behind for each event

---
 countlog/stats/stats.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index a86e35a..fe2044a 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -43,17 +43,17 @@ func (aggregator *EventAggregator) createHandler(agg string, site *spi.LogSite)
 		// disable aggregation if collector not set
 		return &spi.DummyEventHandler{Site: site}
 	}
-	extractor, dimensionElemCount := newDimensionExtractor(site)
-	window := newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount)
 	switch agg {
 	case "counter":
+		extractor, dimensionElemCount := newDimensionExtractor(site)
 		return &countEvent{
-			Window:    window,
+			Window:    newWindow(aggregator.executor, aggregator.collector, site.Event, dimensionElemCount),
 			extractor: extractor,
 			site:      site,
 		}
 	default:
 		// TODO: log unknown agg
 	}
-	return nil
+	// output is the same as without collector
+	return &spi.DummyEventHandler{Site: site}
 }
-- 
2.43.0


From 6fc3ca2f670df063987bf06502aa7e86b3e4295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:20 +0000
Subject: [PATCH 36/56] fix: events with dimensions or properties that are not
 strings were not counted, and left the stats locked forever

---
 countlog/stats/counter.go |  2 +-
 countlog/stats/stats.go   |  9 ++++++---
 countlog/stats/window.go  | 25 ++++++++++++++++++-------
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/countlog/stats/counter.go b/countlog/stats/counter.go
index 9da8dc3..a2de0a5 100644
--- a/countlog/stats/counter.go
+++ b/countlog/stats/counter.go
@@ -11,9 +11,9 @@ type countEvent struct {
 func (state *countEvent) Handle(event *spi.Event) {
 	lock, dimensions := state.Window.Mutate()
 	lock.Lock()
+	defer lock.Unlock()
 	counter := state.extractor.Extract(event, dimensions, NewCounterMonoid)
 	*(counter.(*CounterMonoid)) += CounterMonoid(1)
-	lock.Unlock()
 }
 
 func (state *countEvent) GetWindow() *Window {
diff --git a/countlog/stats/stats.go b/countlog/stats/stats.go
index fe2044a..fcb1a90 100644
--- a/countlog/stats/stats.go
+++ b/countlog/stats/stats.go
@@ -30,9 +30,12 @@ func (aggregator *EventAggregator) HandlerOf(site *spi.LogSite) spi.EventHandler
 		return aggregator.createHandler(site.Agg, site)
 	}
 	sample := site.Sample
-	for i := 0; i < len(sample); i += 2 {
-		if sample[i].(string) == "agg" {
-			return aggregator.createHandler(sample[i+1].(string), site)
+	for i := 0; i+1 < len(sample); i += 2 {
+		if sample[i] == "agg" {
+			agg, isString := sample[i+1].(string)
+			if isString {
+				return aggregator.createHandler(agg, site)
+			}
 		}
 	}
 	return nil
diff --git a/countlog/stats/window.go b/countlog/stats/window.go
index 3fd1d43..85b3d9c 100644
--- a/countlog/stats/window.go
+++ b/countlog/stats/window.go
@@ -9,6 +9,7 @@ import (
 	"github.com/v2pro/plz/gls"
 	"time"
 	"context"
+	"fmt"
 )
 
 type Window struct {
@@ -95,15 +96,20 @@ type dimensionExtractor interface {
 
 func newDimensionExtractor(site *spi.LogSite) (dimensionExtractor, int) {
 	var dimensionElems []string
-	for i := 0; i < len(site.Sample); i += 2 {
-		key := site.Sample[i].(string)
-		if key == "dim" {
-			dimensionElems = strings.Split(site.Sample[i+1].(string), ",")
+	for i := 0; i+1 < len(site.Sample); i += 2 {
+		if site.Sample[i] == "dim" {
+			dim, isString := site.Sample[i+1].(string)
+			if isString {
+				dimensionElems = strings.Split(dim, ",")
+			}
 		}
 	}
 	indices := make([]propIdx, 0, len(dimensionElems))
-	for i := 0; i < len(site.Sample); i += 2 {
-		key := site.Sample[i].(string)
+	for i := 0; i+1 < len(site.Sample); i += 2 {
+		key, isString := site.Sample[i].(string)
+		if !isString {
+			continue
+		}
 		for _, dimension := range dimensionElems {
 			if key == dimension {
 				indices = append(indices, propIdx(i))
@@ -204,7 +210,12 @@ func extractDimension(
 	sampleInterface emptyInterface, dimension []string, indices []propIdx,
 	event *spi.Event, monoid MapMonoid, createElem func() Monoid) Monoid {
 	for i, idx := range indices {
-		dimension[i] = event.Properties[idx].(string)
+		value := event.Properties[idx]
+		text, isString := value.(string)
+		if !isString {
+			text = fmt.Sprint(value)
+		}
+		dimension[i] = text
 	}
 	dimensionInterface := sampleInterface
 	dimensionInterface.word = unsafe.Pointer(&dimension[0])
-- 
2.43.0


From f724fa9ec0a6543812f20f02213db8e5ea14c25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:40 +0000
Subject: [PATCH 37/56] fix: json log lines were not valid json: names of
 timestamp and location, event names and keys were not quoted

---
 countlog/output/json/json.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/countlog/output/json/json.go b/countlog/output/json/json.go
index 413a0df..62cab83 100644
--- a/countlog/output/json/json.go
+++ b/countlog/output/json/json.go
@@ -12,21 +12,27 @@ type JsonFormat struct {
 
 func (format *JsonFormat) FormatterOf(site *spi.LogSite) output.Formatter {
 	formatter := &jsonFormatter{
-		prefix:           `{"event":"` + site.Event + `"`,
-		suffix:           `,location:"` + site.Location() + `"}` + "\n",
+		prefix:           `{"event":` + quote(site.Event),
+		suffix:           `,"location":` + quote(site.Location()) + "}\n",
 		timestampEncoder: jsonfmt.EncoderOf(reflect2.TypeOf(int64(0))),
 	}
-	for i := 0; i < len(site.Sample); i += 2 {
-		prefix := `"` + site.Sample[i].(string) + `":`
+	for i := 0; i+1 < len(site.Sample); i += 2 {
+		key, isString := site.Sample[i].(string)
+		if !isString {
+			continue
+		}
 		formatter.props = append(formatter.props, jsonFormatterProp{
-			prefix:  prefix,
-			idx:     i + 1,
-			encoder: jsonfmt.EncoderOf(reflect2.TypeOf(site.Sample[i+1])),
+			prefix: quote(key) + ":",
+			idx:    i + 1,
 		})
 	}
 	return formatter
 }
 
+func quote(str string) string {
+	return string(jsonfmt.WriteString(nil, str))
+}
+
 type jsonFormatter struct {
 	prefix           string
 	suffix           string
@@ -35,9 +41,8 @@ type jsonFormatter struct {
 }
 
 type jsonFormatterProp struct {
-	prefix  string
-	idx     int
-	encoder jsonfmt.Encoder
+	prefix string
+	idx    int
 }
 
 func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
@@ -45,9 +50,14 @@ func (formatter *jsonFormatter) Format(space []byte, event *spi.Event) []byte {
 	for _, prop := range formatter.props {
 		space = append(space, ',')
 		space = append(space, prop.prefix...)
-		space = prop.encoder.Encode(nil, space, reflect2.PtrOf(event.Properties[prop.idx]))
+		value := event.Properties[prop.idx]
+		if value == nil {
+			space = append(space, "null"...)
+			continue
+		}
+		space = jsonfmt.EncoderOfObject(value).Encode(nil, space, reflect2.PtrOf(value))
 	}
-	space = append(space, ",timestamp:"...)
+	space = append(space, `,"timestamp":`...)
 	space = formatter.timestampEncoder.Encode(nil, space, reflect2.PtrOf(event.Timestamp.UnixNano()))
 	space = append(space, formatter.suffix...)
 	return space
-- 
2.43.0


From aacd9eec790b487b79797ebfd780a84a7e846e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:40 +0000
Subject: [PATCH 38/56] fix: printf format escaped the non-ASCII characters of
 the message

---
 countlog/output/printf/printf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/countlog/output/printf/printf.go b/countlog/output/printf/printf.go
index 43e7257..1ad8f5f 100644
--- a/countlog/output/printf/printf.go
+++ b/countlog/output/printf/printf.go
@@ -19,7 +19,7 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		line:     site.Line,
 		logFmt: msgfmt.FormatterOf(format.Layout + "\n",
 			[]interface{}{
-				"message", []byte{},
+				"message", "",
 				"timestamp", time.Time{},
 				"level", "",
 				"event", "",
@@ -43,7 +43,7 @@ type formatter struct {
 func (formatter *formatter) Format(space []byte, event *spi.Event) []byte {
 	return formatter.logFmt.Format(space,
 		[]interface{}{
-			"message", formatter.messageFmt.Format(nil, event.Properties),
+			"message", string(formatter.messageFmt.Format(nil, event.Properties)),
 			"timestamp", event.Timestamp,
 			"level", spi.LevelName(event.Level),
 			"event", formatter.event,
-- 
2.43.0


From 547f7180e439da412728e1baeef254fadd289cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:02 +0000
Subject: [PATCH 39/56] fix: human readable format showed the context of the
 first event for all events, and crashed on keys or values of unexpected types

---
 countlog/output/hrf/ctx.go   | 29 ++++++++++++++++++++++++-----
 countlog/output/hrf/hrf.go   | 27 +++++++++++----------------
 countlog/output/hrf/value.go | 17 +++++++++++++++++
 3 files changed, 52 insertions(+), 21 deletions(-)
 create mode 100644 countlog/output/hrf/value.go

diff --git a/countlog/output/hrf/ctx.go b/countlog/output/hrf/ctx.go
index 9e53325..ebf48ca 100644
--- a/countlog/output/hrf/ctx.go
+++ b/countlog/output/hrf/ctx.go
@@ -1,14 +1,33 @@
 package hrf
 
 import (
-	"github.com/v2pro/plz/msgfmt"
 	"github.com/v2pro/plz/countlog/spi"
+	"github.com/v2pro/plz/msgfmt"
 )
 
+// ctxFormatter formats what is in the context when the event is logged
 type ctxFormatter struct {
-	fmt msgfmt.Formatter
 }
 
-func (formatter *ctxFormatter) Format(space []byte, event *spi.Event) []byte {
-	return formatter.fmt.Format(space, spi.GetLogContext(event.Context).Properties)
-}
\ No newline at end of file
+func (formatter ctxFormatter) Format(space []byte, event *spi.Event) []byte {
+	if event.Context == nil {
+		return space
+	}
+	ctx := spi.GetLogContext(event.Context)
+	if ctx == nil {
+		return space
+	}
+	for i := 0; i+1 < len(ctx.Properties); i += 2 {
+		key, isString := ctx.Properties[i].(string)
+		if !isString {
+			continue
+		}
+		space = append(space, "\x1b[90;1m\n"...)
+		space = append(space, key...)
+		space = append(space, ": "...)
+		kv := []interface{}{"value", ctx.Properties[i+1]}
+		space = msgfmt.FormatterOf("{value}", kv).Format(space, kv)
+		space = append(space, "\x1b[0m"...)
+	}
+	return space
+}
diff --git a/countlog/output/hrf/hrf.go b/countlog/output/hrf/hrf.go
index a617dd7..c9a4220 100644
--- a/countlog/output/hrf/hrf.go
+++ b/countlog/output/hrf/hrf.go
@@ -29,25 +29,20 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 		formatters = append(formatters, fixedFormatter("\x1b[0m"))
 	}
 	formatters = append(formatters, &errorFormatter{})
-	ctx := site.LogContext()
-	if ctx != nil {
-		for i := 0; i < len(ctx.Properties); i += 2 {
-			key := ctx.Properties[i].(string)
-			formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-			formatters = append(formatters, &ctxFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", ctx.Properties),
-			})
-			formatters = append(formatters, fixedFormatter("\x1b[0m"))
+	formatters = append(formatters, ctxFormatter{})
+	for i := 0; i+1 < len(site.Sample); i += 2 {
+		key, isString := site.Sample[i].(string)
+		if !isString {
+			continue
 		}
-	}
-	for i := 0; i < len(site.Sample); i += 2 {
-		key := site.Sample[i].(string)
 		formatters = append(formatters, fixedFormatter("\x1b[90;1m"))
-		if key == "timer" {
-			formatters = append(formatters, &timerFormatter{idx: i+1})
+		if _, isNano := site.Sample[i+1].(int64); isNano && key == "timer" {
+			formatters = append(formatters, &timerFormatter{idx: i + 1})
 		} else {
-			formatters = append(formatters, &propFormatter{
-				msgfmt.FormatterOf("\n"+key+": {"+key+"}", site.Sample),
+			formatters = append(formatters, fixedFormatter("\n"+key+": "))
+			formatters = append(formatters, &valueFormatter{
+				idx: i + 1,
+				fmt: msgfmt.FormatterOf("{value}", []interface{}{"value", site.Sample[i+1]}),
 			})
 		}
 		formatters = append(formatters, fixedFormatter("\x1b[0m"))
diff --git a/countlog/output/hrf/value.go b/countlog/output/hrf/value.go
new file mode 100644
index 0000000..4758b1c
--- /dev/null
+++ b/countlog/output/hrf/value.go
@@ -0,0 +1,17 @@
+package hrf
+
+import (
+	"github.com/v2pro/plz/countlog/spi"
+	"github.com/v2pro/plz/msgfmt"
+)
+
+// valueFormatter does not refer to the property by its key,
+// as the key can contain anything and there can be more than one with same key
+type valueFormatter struct {
+	idx int
+	fmt msgfmt.Formatter
+}
+
+func (formatter *valueFormatter) Format(space []byte, event *spi.Event) []byte {
+	return formatter.fmt.Format(space, []interface{}{"value", event.Properties[formatter.idx]})
+}
-- 
2.43.0


From 96e87921e43e5f962efdf230ddffcb8973cf0d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:02 +0000
Subject: [PATCH 40/56] fix: compact format lost properties with repeated keys
 or braces in the key, and crashed on keys that are not strings

---
 countlog/output/compact/compact.go | 13 ++++++++-----
 countlog/output/compact/value.go   | 17 +++++++++++++++++
 2 files changed, 25 insertions(+), 5 deletions(-)
 create mode 100644 countlog/output/compact/value.go

diff --git a/countlog/output/compact/compact.go b/countlog/output/compact/compact.go
index 4532bb4..3131536 100644
--- a/countlog/output/compact/compact.go
+++ b/countlog/output/compact/compact.go
@@ -30,11 +30,14 @@ func (format *Format) FormatterOf(site *spi.LogSite) output.Formatter {
 	}
 
 	formatters = append(formatters, &errorFormatter{})
-	for i := 0; i < len(sample); i += 2 {
-		key := sample[i].(string)
-		pattern := "||" + key + "={" + key + "}"
-		formatters = append(formatters, &defaultFormatter{
-			msgfmt.FormatterOf(pattern, sample),
+	for i := 0; i+1 < len(sample); i += 2 {
+		key, isString := sample[i].(string)
+		if !isString {
+			continue
+		}
+		formatters = append(formatters, fixedFormatter("||"+key+"="), &valueFormatter{
+			idx: i + 1,
+			fmt: msgfmt.FormatterOf("{value}", []interface{}{"value", sample[i+1]}),
 		})
 	}
 
diff --git a/countlog/output/compact/value.go b/countlog/output/compact/value.go
new file mode 100644
index 0000000..d498c39
--- /dev/null
+++ b/countlog/output/compact/value.go
@@ -0,0 +1,17 @@
+package compact
+
+import (
+	"github.com/v2pro/plz/countlog/spi"
+	"github.com/v2pro/plz/msgfmt"
+)
+
+// valueFormatter does not refer to the property by its key,
+// as the key can contain anything and there can be more than one with same key
+type valueFormatter struct {
+	idx int
+	fmt msgfmt.Formatter
+}
+
+func (formatter *valueFormatter) Format(space []byte, event *spi.Event) []byte {
+	return formatter.fmt.Format(space, []interface{}{"value", event.Properties[formatter.idx]})
+}
-- 
2.43.0


From 0d28b5b6a1c914293f70dcbd4f5dccceb40bd1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:42 +0000
Subject: [PATCH 41/56] fix: handler for a key with nil value was used for a
 key without value

---
 countlog/handlers.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/countlog/handlers.go b/countlog/handlers.go
index 658c965..6b6cb62 100644
--- a/countlog/handlers.go
+++ b/countlog/handlers.go
@@ -17,6 +17,7 @@ const maxHandlersOfOneEvent = 64
 // and the same value of the properties which control the aggregation.
 type shapedHandler struct {
 	agg        string
+	count      int // of keys and values
 	properties []propertyShape
 	handler    spi.EventHandler
 }
@@ -42,7 +43,7 @@ func shapeOf(properties []interface{}, i int) propertyShape {
 }
 
 func (handler *shapedHandler) isFor(agg string, properties []interface{}) bool {
-	if agg != handler.agg || (len(properties)+1)/2 != len(handler.properties) {
+	if agg != handler.agg || len(properties) != handler.count {
 		return false
 	}
 	for i, shape := range handler.properties {
@@ -70,7 +71,7 @@ func cacheHandler(event string, agg string, properties []interface{}, handler sp
 	if _, hasStats := handler.(*statsAndOutput); !hasStats && len(handlers) >= maxHandlersOfOneEvent {
 		return
 	}
-	shaped := &shapedHandler{agg: agg, handler: handler}
+	shaped := &shapedHandler{agg: agg, count: len(properties), handler: handler}
 	for i := 0; i < len(properties); i += 2 {
 		shape := shapeOf(properties, i)
 		// memory of the key belongs to the caller
-- 
2.43.0


From 12a76ca28c46e8d00f6328e3d2a87f6e69ae0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:05 +0000
Subject: [PATCH 42/56] fix: async writer accepted writes while closing that
 were never written

---
 countlog/output/async/async.go | 41 +++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/countlog/output/async/async.go b/countlog/output/async/async.go
index 7a30e2a..efb45fe 100644
--- a/countlog/output/async/async.go
+++ b/countlog/output/async/async.go
@@ -4,6 +4,9 @@ import (
 	"context"
 	"fmt"
 	"io"
+	"os"
+	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/v2pro/plz/concurrent"
@@ -14,6 +17,8 @@ type blockingQueueWriter struct {
 	queue    chan []byte
 	writer   io.Writer
 	executor *concurrent.UnboundedExecutor
+	lock     sync.RWMutex // held by writes, so that none is accepted after the queue is drained
+	closed   bool
 }
 
 type nonBlockingQueueWriter struct {
@@ -40,11 +45,11 @@ func NewAsyncWriter(cfg AsyncWriterConfig) ClosableWriter {
 	}
 	onMessageDropped := cfg.OnMessageDropped
 	if onMessageDropped == nil {
-		droppedCount := 0
+		droppedCount := int64(0)
 		onMessageDropped = func(msg []byte) {
-			droppedCount++
-			if droppedCount%1000 == 1 {
-				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", droppedCount))
+			dropped := atomic.AddInt64(&droppedCount, 1)
+			if dropped%1000 == 1 {
+				loglog.Error(fmt.Errorf("countlog async writer congestion, dropped %v messages so far", dropped))
 			}
 		}
 	}
@@ -102,20 +107,44 @@ func (writer *blockingQueueWriter) asyncWrite(ctx context.Context) {
 }
 
 func (writer *blockingQueueWriter) Write(buf []byte) (int, error) {
+	writer.lock.RLock()
+	defer writer.lock.RUnlock()
+	if writer.closed {
+		return 0, os.ErrClosed
+	}
 	writer.queue <- append([]byte(nil), buf...)
 	return len(buf), nil
 }
 
 func (writer *nonBlockingQueueWriter) Write(buf []byte) (int, error) {
+	accepted, err := writer.offer(buf)
+	if err != nil {
+		return 0, err
+	}
+	if !accepted {
+		writer.onMessageDropped(buf)
+	}
+	return len(buf), nil
+}
+
+func (writer *nonBlockingQueueWriter) offer(buf []byte) (bool, error) {
+	writer.lock.RLock()
+	defer writer.lock.RUnlock()
+	if writer.closed {
+		return false, os.ErrClosed
+	}
 	select {
 	case writer.queue <- append([]byte(nil), buf...):
+		return true, nil
 	default:
-		writer.onMessageDropped(buf)
+		return false, nil
 	}
-	return len(buf), nil
 }
 
 func (writer *blockingQueueWriter) Close() error {
+	writer.lock.Lock()
+	writer.closed = true
+	writer.lock.Unlock()
 	writer.executor.StopAndWaitForever()
 	closer, _ := writer.writer.(io.Closer)
 	if closer == nil {
-- 
2.43.0


From 732a9807c7ca8d808c57d62f3e563e1413cedcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:25 +0000
Subject: [PATCH 43/56] fix: lumberjack truncated the log file when it could
 not be examined

---
 countlog/output/lumberjack/lumberjack.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 3a8623e..029b10a 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -232,6 +232,8 @@ func (l *Logger) openNew() error {
 		if err := chown(name, info); err != nil {
 			return err
 		}
+	} else if !os.IsNotExist(err) {
+		return fmt.Errorf("error getting log file info: %s", err)
 	}
 
 	// we use truncate here because this should only get called when we've moved
-- 
2.43.0


From ee1378c66e0ec82d805577a97abcfa4e018c4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:25 +0000
Subject: [PATCH 44/56] fix: lumberjack stored the default time format while
 its mill goroutine reads it

---
 countlog/output/lumberjack/lumberjack.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 029b10a..dad9d04 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -220,10 +220,7 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		if l.BackupTimeFormat == "" {
-			l.BackupTimeFormat = defaultBackupTimeFormat
-		}
-		newname := backupName(name, l.LocalTime, l.BackupTimeFormat)
+		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -445,10 +442,17 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	return time.Parse(l.backupTimeFormat(), ts)
+}
+
+// backupTimeFormat returns the format of the time in the names of backups.
+// The configuration is read by the mill goroutine as well, so that the default
+// is not stored in it.
+func (l *Logger) backupTimeFormat() string {
 	if l.BackupTimeFormat == "" {
-		l.BackupTimeFormat = defaultBackupTimeFormat
+		return defaultBackupTimeFormat
 	}
-	return time.Parse(l.BackupTimeFormat, ts)
+	return l.BackupTimeFormat
 }
 
 // max returns the maximum size in bytes of log files before rolling.
-- 
2.43.0


From 475ca7d254d703e7731aecbd61c5bdb5db5a7c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:25 +0000
Subject: [PATCH 45/56] fix: lumberjack took local times in the names of
 backups as UTC when removing old ones

---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index dad9d04..4a93f4f 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -442,6 +442,9 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
+	if l.LocalTime {
+		return time.ParseInLocation(l.backupTimeFormat(), ts, time.Local)
+	}
 	return time.Parse(l.backupTimeFormat(), ts)
 }
 
-- 
2.43.0


From 73f946b551f83597bfeb8edbc7db06b5d774cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:25 +0000
Subject: [PATCH 46/56] fix: lumberjack crashed on a file name in which prefix
 and extension overlap

---
 countlog/output/lumberjack/lumberjack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index 4a93f4f..e6590f0 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -441,6 +441,9 @@ func (l *Logger) timeFromName(filename, prefix, ext string) (time.Time, error) {
 	if !strings.HasSuffix(filename, ext) {
 		return time.Time{}, errors.New("mismatched extension")
 	}
+	if len(filename) < len(prefix)+len(ext) {
+		return time.Time{}, errors.New("no time")
+	}
 	ts := filename[len(prefix) : len(filename)-len(ext)]
 	if l.LocalTime {
 		return time.ParseInLocation(l.backupTimeFormat(), ts, time.Local)
-- 
2.43.0


From cad1ed8d198d0139d64a2f35bbd24b9ac0d39105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:26 +0000
Subject: [PATCH 47/56] fix: lumberjack overwrote a backup made at the same
 time as far as the name tells

---
 countlog/output/lumberjack/lumberjack.go | 39 ++++++++++++++++++------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index e6590f0..b7559f3 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -220,7 +220,7 @@ func (l *Logger) openNew() error {
 		// Copy the mode off the old logfile.
 		mode = info.Mode()
 		// move the existing file
-		newname := backupName(name, l.LocalTime, l.backupTimeFormat())
+		newname := backupName(name, l.nextBackupTime(), l.backupTimeFormat())
 		if err := os.Rename(name, newname); err != nil {
 			return fmt.Errorf("can't rename log file: %s", err)
 		}
@@ -245,19 +245,40 @@ func (l *Logger) openNew() error {
 	return nil
 }
 
+// nextBackupTime is the time to name the next backup with: the current time,
+// the local one if requested (otherwise UTC). If there is a backup that is not
+// older already, as far as the time format tells, the name must neither be the
+// same nor sort before it, and the next later time is used.
+func (l *Logger) nextBackupTime() time.Time {
+	t := currentTime()
+	if !l.LocalTime {
+		t = t.UTC()
+	}
+	files, err := l.oldLogFiles()
+	if err != nil || len(files) == 0 {
+		return t
+	}
+	newest := files[0].timestamp
+	format := l.backupTimeFormat()
+	if formatted, err := time.ParseInLocation(format, t.Format(format), t.Location()); err == nil && formatted.After(newest) {
+		return t
+	}
+	day := 24 * time.Hour
+	for _, step := range []time.Duration{time.Millisecond, time.Second, time.Minute, time.Hour, day, 31 * day, 366 * day} {
+		if next := newest.Add(step); next.Format(format) != newest.Format(format) {
+			return next
+		}
+	}
+	return t
+}
+
 // backupName creates a new filename from the given name, inserting a timestamp
-// between the filename and the extension, using the local time if requested
-// (otherwise UTC).
-func backupName(name string, local bool, backupTimeFormat string) string {
+// between the filename and the extension.
+func backupName(name string, t time.Time, backupTimeFormat string) string {
 	dir := filepath.Dir(name)
 	filename := filepath.Base(name)
 	ext := filepath.Ext(filename)
 	prefix := filename[:len(filename)-len(ext)]
-	t := currentTime()
-	if !local {
-		t = t.UTC()
-	}
-
 	timestamp := t.Format(backupTimeFormat)
 	return filepath.Join(dir, fmt.Sprintf("%s-%s%s", prefix, timestamp, ext))
 }
-- 
2.43.0


From 820ebed16233dd7217c2951cc4bc196c8243d8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:52 +0000
Subject: [PATCH 48/56] fix: reflect2 safe slice Grow panicked or made a wrong
 length

---
 reflect2/safe_slice.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/reflect2/safe_slice.go b/reflect2/safe_slice.go
index 7e348c1..6b1d079 100644
--- a/reflect2/safe_slice.go
+++ b/reflect2/safe_slice.go
@@ -43,12 +43,14 @@ func (type2 *safeSliceType) UnsafeMakeSlice(length int, cap int) unsafe.Pointer
 }
 
 func (type2 *safeSliceType) Grow(obj interface{}, newLength int) {
-	oldCap := type2.Cap(obj)
-	oldSlice := reflect.ValueOf(obj).Elem()
-	delta := newLength - oldCap
-	deltaVals := make([]reflect.Value, delta)
-	newSlice := reflect.Append(oldSlice, deltaVals...)
-	oldSlice.Set(newSlice)
+	slice := reflect.ValueOf(obj).Elem()
+	if newLength <= slice.Cap() {
+		slice.SetLen(newLength)
+		return
+	}
+	newSlice := reflect.MakeSlice(type2.Type, newLength, calcNewCap(slice.Cap(), newLength))
+	reflect.Copy(newSlice, slice)
+	slice.Set(newSlice)
 }
 
 func (type2 *safeSliceType) UnsafeGrow(ptr unsafe.Pointer, newLength int) {
-- 
2.43.0


From 6da2dca921e6e2533c27fe3666774e12bbb12bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:47 +0000
Subject: [PATCH 49/56] fix: reflect2 safe map TryGetIndex did not take
 pointers, as all other operations do

---
 reflect2/safe_map.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/reflect2/safe_map.go b/reflect2/safe_map.go
index 6a1ba23..8b55fa3 100644
--- a/reflect2/safe_map.go
+++ b/reflect2/safe_map.go
@@ -35,15 +35,13 @@ func (type2 *safeMapType) UnsafeSetIndex(obj unsafe.Pointer, key unsafe.Pointer,
 }
 
 func (type2 *safeMapType) TryGetIndex(obj interface{}, key interface{}) (interface{}, bool) {
-	keyVal := reflect.ValueOf(key)
-	if key == nil {
-		keyVal = reflect.New(type2.Type.Key()).Elem()
-	}
-	val := reflect.ValueOf(obj).MapIndex(keyVal)
+	val := reflect.ValueOf(obj).Elem().MapIndex(reflect.ValueOf(key).Elem())
 	if !val.IsValid() {
 		return nil, false
 	}
-	return val.Interface(), true
+	ptr := reflect.New(val.Type())
+	ptr.Elem().Set(val)
+	return ptr.Interface(), true
 }
 
 func (type2 *safeMapType) GetIndex(obj interface{}, key interface{}) interface{} {
-- 
2.43.0


From eb6373da57a4944153643280829d7e0ec3ab7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:03 +0000
Subject: [PATCH 50/56] fix: reflect2 read an unsafe.Pointer as the value it
 points to

---
 reflect2/reflect2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect2/reflect2.go b/reflect2/reflect2.go
index 7cf0365..dae8746 100644
--- a/reflect2/reflect2.go
+++ b/reflect2/reflect2.go
@@ -183,7 +183,7 @@ func (cfg *frozenConfig) wrapType(type1 reflect.Type) Type {
 			return &safeMapType{safeType}
 		}
 		return newUnsafeMapType(cfg, type1)
-	case reflect.Ptr, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		if cfg.useSafeImplementation {
 			return &safeMapType{safeType}
 		}
@@ -245,7 +245,7 @@ func IsNullable(kind reflect.Kind) bool {
 
 func likePtrKind(kind reflect.Kind) bool {
 	switch kind {
-	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	}
 	return false
-- 
2.43.0


From 9f8f2e38951e5f54171da1e72cab07d22bc8e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:04 +0000
Subject: [PATCH 51/56] fix: reflect2 fields of embedded structs were read and
 written at the wrong place

---
 reflect2/unsafe_field.go  | 31 +++++++++++++++++++++++++++----
 reflect2/unsafe_struct.go |  8 ++++----
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/reflect2/unsafe_field.go b/reflect2/unsafe_field.go
index 5eb5313..e0c8a1c 100644
--- a/reflect2/unsafe_field.go
+++ b/reflect2/unsafe_field.go
@@ -10,10 +10,28 @@ type UnsafeStructField struct {
 	structType *UnsafeStructType
 	rtype      unsafe.Pointer
 	ptrRType   unsafe.Pointer
+	indirects  []uintptr // offsets of the pointers to embedded structs to follow first
+	offset     uintptr   // from the last of these, or from the struct itself
 }
 
-func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField) *UnsafeStructField {
+// index is the path to the field, of more than one step when it is in an embedded struct
+func newUnsafeStructField(structType *UnsafeStructType, structField reflect.StructField, index []int) *UnsafeStructField {
+	var indirects []uintptr
+	offset := uintptr(0)
+	typ := structType.Type
+	for _, i := range index {
+		if typ.Kind() == reflect.Ptr {
+			indirects = append(indirects, offset)
+			offset = 0
+			typ = typ.Elem()
+		}
+		field := typ.Field(i)
+		offset += field.Offset
+		typ = field.Type
+	}
 	return &UnsafeStructField{
+		indirects:   indirects,
+		offset:      offset,
 		StructField: structField,
 		rtype:       unpackEFace(structField.Type).data,
 		ptrRType:    unpackEFace(reflect.PtrTo(structField.Type)).data,
@@ -58,8 +76,7 @@ func (field *UnsafeStructField) Set(obj interface{}, value interface{}) {
 }
 
 func (field *UnsafeStructField) UnsafeSet(obj unsafe.Pointer, value unsafe.Pointer) {
-	fieldPtr := add(obj, field.StructField.Offset, "same as non-reflect &v.field")
-	typedmemmove(field.rtype, fieldPtr, value)
+	typedmemmove(field.rtype, field.UnsafeGet(obj), value)
 }
 
 func (field *UnsafeStructField) Get(obj interface{}) interface{} {
@@ -70,5 +87,11 @@ func (field *UnsafeStructField) Get(obj interface{}) interface{} {
 }
 
 func (field *UnsafeStructField) UnsafeGet(obj unsafe.Pointer) unsafe.Pointer {
-	return add(obj, field.StructField.Offset, "same as non-reflect &v.field")
+	for _, offset := range field.indirects {
+		obj = *(*unsafe.Pointer)(add(obj, offset, "same as non-reflect &v.embedded"))
+		if obj == nil {
+			panic("StructField " + field.StructField.Name + ": pointer to embedded struct is nil")
+		}
+	}
+	return add(obj, field.offset, "same as non-reflect &v.field")
 }
diff --git a/reflect2/unsafe_struct.go b/reflect2/unsafe_struct.go
index f91ef17..07b23a3 100644
--- a/reflect2/unsafe_struct.go
+++ b/reflect2/unsafe_struct.go
@@ -39,15 +39,15 @@ func (type2 *UnsafeStructType) FieldByName(name string) StructField {
 	if !found {
 		return nil
 	}
-	return newUnsafeStructField(type2, structField)
+	return newUnsafeStructField(type2, structField, structField.Index)
 }
 
 func (type2 *UnsafeStructType) Field(i int) StructField {
-	return newUnsafeStructField(type2, type2.Type.Field(i))
+	return newUnsafeStructField(type2, type2.Type.Field(i), []int{i})
 }
 
 func (type2 *UnsafeStructType) FieldByIndex(index []int) StructField {
-	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index))
+	return newUnsafeStructField(type2, type2.Type.FieldByIndex(index), index)
 }
 
 func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructField {
@@ -55,5 +55,5 @@ func (type2 *UnsafeStructType) FieldByNameFunc(match func(string) bool) StructFi
 	if !found {
 		panic("field match condition not found in " + type2.Type.String())
 	}
-	return newUnsafeStructField(type2, structField)
+	return newUnsafeStructField(type2, structField, structField.Index)
 }
\ No newline at end of file
-- 
2.43.0


From 4f142899a3062c5ad63dc60388423883fac6666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:47 +0000
Subject: [PATCH 52/56] fix: a struct field tagged json:"-," was left out, the
 tag gives it the name "-"

---
 msgfmt/jsonfmt/encoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 3e178cb..9a63a2b 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -284,10 +284,10 @@ func getFieldName(cfg *frozenConfig, field reflect2.StructField) string {
 	if jsonTag == "" {
 		return field.Name()
 	}
-	parts := strings.Split(jsonTag, ",")
-	if parts[0] == "-" {
+	if jsonTag == "-" {
 		return ""
 	}
+	parts := strings.Split(jsonTag, ",")
 	if parts[0] == "" {
 		return field.Name()
 	}
-- 
2.43.0


From ee54a28bc0adc886e61b44495598906995dd4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:48 +0000
Subject: [PATCH 53/56] fix: values held in interfaces were encoded with the
 default configuration, without the extensions of the one in use

---
 msgfmt/jsonfmt/encoder.go         | 2 +-
 msgfmt/jsonfmt/encoder_dynamic.go | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index 9a63a2b..ce76daa 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -195,7 +195,7 @@ func _encoderOf(cfg *frozenConfig, inProgress encodersInProgress, prefix string,
 		mapType := valType.(reflect2.MapType)
 		return encoderOfMap(cfg, inProgress, prefix, mapType)
 	case reflect.Interface:
-		return &dynamicEncoder{valType:valType}
+		return &dynamicEncoder{cfg: cfg, valType: valType}
 	}
 	return &unsupportedEncoder{string(WriteString(nil, fmt.Sprintf(`can not encode %s %s to json`, valType.String(), prefix)))}
 }
diff --git a/msgfmt/jsonfmt/encoder_dynamic.go b/msgfmt/jsonfmt/encoder_dynamic.go
index 29106e1..19177e8 100644
--- a/msgfmt/jsonfmt/encoder_dynamic.go
+++ b/msgfmt/jsonfmt/encoder_dynamic.go
@@ -7,6 +7,7 @@ import (
 )
 
 type dynamicEncoder struct {
+	cfg     *frozenConfig
 	valType reflect2.Type
 }
 
@@ -15,5 +16,5 @@ func (encoder *dynamicEncoder) Encode(ctx context.Context, space []byte, ptr uns
 	if obj == nil {
 		return append(space, 'n', 'u', 'l', 'l')
 	}
-	return EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
+	return encoder.cfg.EncoderOf(reflect2.TypeOf(obj)).Encode(ctx, space, reflect2.PtrOf(obj))
 }
\ No newline at end of file
-- 
2.43.0


From 9c2aa6ec9d787a88613ef7afc45798d48b7c8b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:24 +0000
Subject: [PATCH 54/56] fix: quotes and backslashes in the name given to a
 field by its json tag made the json invalid

---
 msgfmt/jsonfmt/encoder.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/msgfmt/jsonfmt/encoder.go b/msgfmt/jsonfmt/encoder.go
index ce76daa..1bcfd10 100644
--- a/msgfmt/jsonfmt/encoder.go
+++ b/msgfmt/jsonfmt/encoder.go
@@ -251,9 +251,8 @@ func encoderOfStruct(cfg *frozenConfig, inProgress encodersInProgress, prefix st
 		if len(fields) != 0 {
 			prefix += ","
 		}
-		prefix += `"`
-		prefix += name
-		prefix += `":`
+		prefix += string(WriteString(nil, name))
+		prefix += `:`
 		fields = append(fields, structEncoderField{
 			structField: field.(*reflect2.UnsafeStructField),
 			prefix:      prefix,
-- 
2.43.0


From e1619d8ce505efa1fe779fdae320f185c4b88612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 55/56] fix: rotation: remove an unused import, the package did
 not compile

---
 countlog/output/rotation/rotation.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/countlog/output/rotation/rotation.go b/countlog/output/rotation/rotation.go
index 9bfdc7a..aad883d 100644
--- a/countlog/output/rotation/rotation.go
+++ b/countlog/output/rotation/rotation.go
@@ -8,7 +8,6 @@ import (
 	"context"
 	"unsafe"
 	"sync/atomic"
-	"github.com/v2pro/plz/countlog/spi"
 	"math/rand"
 	"github.com/v2pro/plz/countlog/loglog"
 )
-- 
2.43.0


From 45c8792d50cbc1f7e6764b901ec611410e969276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:30 +0000
Subject: [PATCH 56/56] fix: a backup being compressed at the time of a
 rotation was not seen when naming the next one, which overwrote it

---
 countlog/output/lumberjack/lumberjack.go | 31 +++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/countlog/output/lumberjack/lumberjack.go b/countlog/output/lumberjack/lumberjack.go
index b7559f3..8950ff7 100644
--- a/countlog/output/lumberjack/lumberjack.go
+++ b/countlog/output/lumberjack/lumberjack.go
@@ -254,11 +254,10 @@ func (l *Logger) nextBackupTime() time.Time {
 	if !l.LocalTime {
 		t = t.UTC()
 	}
-	files, err := l.oldLogFiles()
-	if err != nil || len(files) == 0 {
+	newest, found := l.newestBackup()
+	if !found {
 		return t
 	}
-	newest := files[0].timestamp
 	format := l.backupTimeFormat()
 	if formatted, err := time.ParseInLocation(format, t.Format(format), t.Location()); err == nil && formatted.After(newest) {
 		return t
@@ -272,6 +271,32 @@ func (l *Logger) nextBackupTime() time.Time {
 	return t
 }
 
+// newestBackup returns the time in the name of the newest backup. The names are
+// read without examining the files: a backup that is being compressed may be
+// replaced by its compressed form at any time.
+func (l *Logger) newestBackup() (newest time.Time, found bool) {
+	d, err := os.Open(l.dir())
+	if err != nil {
+		return newest, false
+	}
+	defer d.Close()
+	names, err := d.Readdirnames(-1)
+	if err != nil {
+		return newest, false
+	}
+	prefix, ext := l.prefixAndExt()
+	for _, name := range names {
+		t, err := l.timeFromName(name, prefix, ext)
+		if err != nil {
+			t, err = l.timeFromName(name, prefix, ext+compressSuffix)
+		}
+		if err == nil && (!found || t.After(newest)) {
+			newest, found = t, true
+		}
+	}
+	return newest, found
+}
+
 // backupName creates a new filename from the given name, inserting a timestamp
 // between the filename and the extension.
 func backupName(name string, t time.Time, backupTimeFormat string) string {
-- 
2.43.0


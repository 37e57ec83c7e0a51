From 38d84c31547674bc2c6a54a9c1462870e3045359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 01/34] fix: insert after the old position for fragments
 without old lines

Zero-context fragments such as '@@ -3,0 +4 @@' insert content after old line
3, but were applied before it, silently producing the wrong output.
---
 gitdiff/apply_text.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 0948178..d2fdc00 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -66,6 +66,11 @@ func (a *TextApplier) ApplyFragment(f *TextFragment) error {
 
 	// lines are 0-indexed, positions are 1-indexed (but new files have position = 0)
 	fragStart := f.OldPosition - 1
+	if f.OldLines == 0 {
+		// fragments without old lines only insert content and their position is
+		// the line the new content follows, not the first line of the fragment
+		fragStart = f.OldPosition
+	}
 	if fragStart < 0 {
 		fragStart = 0
 	}
-- 
2.43.0


From 78fe28bcceeeb899a4871a58938d94fa4f224fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:40 +0000
Subject: [PATCH 02/34] fix: accept io.EOF with full reads from the source

io.ReaderAt allows ReadAt to return io.EOF together with a full buffer at the
end of the input, but applying failed with sources that do.
---
 gitdiff/apply_binary.go | 3 ++-
 gitdiff/io.go           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 4864b69..953934e 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -211,7 +211,8 @@ func applyBinaryDeltaCopy(w io.Writer, op byte, delta []byte, src io.ReaderAt) (
 
 	// TODO(bkeyes): consider pooling these buffers
 	b := make([]byte, size)
-	if _, err := src.ReadAt(b, offset); err != nil {
+	// a reader may return io.EOF with a full read that ends at the end of the source
+	if nr, err := src.ReadAt(b, offset); err != nil && !(err == io.EOF && nr == len(b)) {
 		return 0, delta, err
 	}
 
diff --git a/gitdiff/io.go b/gitdiff/io.go
index 8143238..ef5bd07 100644
--- a/gitdiff/io.go
+++ b/gitdiff/io.go
@@ -129,7 +129,8 @@ func (r *lineReaderAt) readBytes(line, n int64) (b []byte, offset int64, err err
 	}
 
 	b = make([]byte, size)
-	if _, err := r.r.ReadAt(b, offset); err != nil {
+	// a reader may return io.EOF with a full read that ends at the end of the source
+	if nr, err := r.r.ReadAt(b, offset); err != nil && !(err == io.EOF && nr == len(b)) {
 		if err == io.EOF {
 			err = errors.New("ReadLinesAt: corrupt line index or changed source data")
 		}
-- 
2.43.0


From 8f61271ad6e91edd7e09d95be90beacbbf07b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:42 +0000
Subject: [PATCH 03/34] fix: return an *ApplyError from Apply if copying
 trailing data fails

---
 gitdiff/apply.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index e1c7209..2d21d52 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -117,7 +117,7 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		if err := applier.ApplyFragment(f.BinaryFragment); err != nil {
 			return err
 		}
-		return applier.Close()
+		return applyError(applier.Close())
 
 	case len(f.TextFragments) > 0:
 		frags := make([]*TextFragment, len(f.TextFragments))
@@ -137,11 +137,11 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 				return applyError(err, fragNum(i))
 			}
 		}
-		return applier.Close()
+		return applyError(applier.Close())
 
 	default:
 		// nothing to apply, just copy all the data
 		_, err := copyFrom(dst, src, 0)
-		return err
+		return applyError(err)
 	}
 }
-- 
2.43.0


From f8986446d4f1154d98cba0704a8c025efa137f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 04/34] fix: keep creation and deletion in the format of files
 without modes

Files parsed from traditional patches have no modes, so the formatted diff
lost the only marker that the file is created or deleted and parsed as a
change to /dev/null.
---
 gitdiff/format.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/gitdiff/format.go b/gitdiff/format.go
index 4999000..8aa25fa 100644
--- a/gitdiff/format.go
+++ b/gitdiff/format.go
@@ -104,20 +104,18 @@ func (fm *formatter) FormatFile(f *File) {
 	fm.WriteQuotedName("b/" + bName)
 	fm.WriteByte('\n')
 
-	if f.OldMode != 0 {
-		if f.IsDelete {
-			fmt.Fprintf(fm, "deleted file mode %o\n", f.OldMode)
-		} else if f.NewMode != 0 {
-			fmt.Fprintf(fm, "old mode %o\n", f.OldMode)
-		}
+	// The mode of a created or deleted file may be unknown (zero) if it is from
+	// a traditional patch, but the line is required to identify the operation
+	if f.IsDelete {
+		fmt.Fprintf(fm, "deleted file mode %o\n", f.OldMode)
+	} else if f.OldMode != 0 && f.NewMode != 0 {
+		fmt.Fprintf(fm, "old mode %o\n", f.OldMode)
 	}
 
-	if f.NewMode != 0 {
-		if f.IsNew {
-			fmt.Fprintf(fm, "new file mode %o\n", f.NewMode)
-		} else if f.OldMode != 0 {
-			fmt.Fprintf(fm, "new mode %o\n", f.NewMode)
-		}
+	if f.IsNew {
+		fmt.Fprintf(fm, "new file mode %o\n", f.NewMode)
+	} else if f.NewMode != 0 && f.OldMode != 0 {
+		fmt.Fprintf(fm, "new mode %o\n", f.NewMode)
 	}
 
 	if f.Score > 0 {
-- 
2.43.0


From 4a769df6c7f19c0be39da566a119ce10ccb48c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 05/34] fix: reject signed numbers in fragment headers

A header like '@@ --5,2 +1,2 @@' parsed as a fragment with a negative position
that was then applied to the start of the file.
---
 gitdiff/text.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index d9ddfb7..7739dab 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -167,13 +167,13 @@ func removeLastNewline(frag *TextFragment) {
 func parseRange(s string) (start int64, end int64, err error) {
 	parts := strings.SplitN(s, ",", 2)
 
-	if start, err = strconv.ParseInt(parts[0], 10, 64); err != nil {
+	if start, err = parseRangeInt(parts[0]); err != nil {
 		nerr := err.(*strconv.NumError)
 		return 0, 0, fmt.Errorf("bad start of range: %s: %v", parts[0], nerr.Err)
 	}
 
 	if len(parts) > 1 {
-		if end, err = strconv.ParseInt(parts[1], 10, 64); err != nil {
+		if end, err = parseRangeInt(parts[1]); err != nil {
 			nerr := err.(*strconv.NumError)
 			return 0, 0, fmt.Errorf("bad end of range: %s: %v", parts[1], nerr.Err)
 		}
@@ -183,3 +183,10 @@ func parseRange(s string) (start int64, end int64, err error) {
 
 	return
 }
+
+// parseRangeInt parses a non-negative number. Unlike strconv.ParseInt, it does
+// not accept signs, which are never part of a range.
+func parseRangeInt(s string) (int64, error) {
+	n, err := strconv.ParseUint(s, 10, 63)
+	return int64(n), err
+}
-- 
2.43.0


From 8d2fa6454ef2ab47f486c2d500e3a123d08e548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 06/34] fix: reject signed numbers in mode and similarity
 header lines

Negative values produced invalid modes and scores that could not be formatted
and parsed again.
---
 gitdiff/file_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 7ae4bc9..2ada0c0 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -370,7 +370,7 @@ func parseGitHeaderRenameTo(f *File, line, defaultName string) (err error) {
 }
 
 func parseGitHeaderScore(f *File, line, defaultName string) error {
-	score, err := strconv.ParseInt(strings.TrimSuffix(line, "%"), 10, 32)
+	score, err := strconv.ParseUint(strings.TrimSuffix(line, "%"), 10, 31)
 	if err != nil {
 		nerr := err.(*strconv.NumError)
 		return fmt.Errorf("invalid score line: %v", nerr.Err)
@@ -403,7 +403,7 @@ func parseGitHeaderIndex(f *File, line, defaultName string) error {
 }
 
 func parseMode(s string) (os.FileMode, error) {
-	mode, err := strconv.ParseInt(s, 8, 32)
+	mode, err := strconv.ParseUint(s, 8, 31)
 	if err != nil {
 		nerr := err.(*strconv.NumError)
 		return os.FileMode(0), fmt.Errorf("invalid mode line: %v", nerr.Err)
-- 
2.43.0


From 848019a178ee546e98d62046ceafbbea289e9823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:23 +0000
Subject: [PATCH 07/34] fix: reject base85 sequences that overflow four bytes

Sequences that encode values larger than 32 bits silently decoded to unrelated
data. Git reports them as errors.
---
 gitdiff/base85.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gitdiff/base85.go b/gitdiff/base85.go
index 86db117..e23e7ef 100644
--- a/gitdiff/base85.go
+++ b/gitdiff/base85.go
@@ -22,16 +22,19 @@ func init() {
 // alphabet defined by base85.c in the Git source tree. src must contain at
 // least len(dst) bytes of encoded data.
 func base85Decode(dst, src []byte) error {
-	var v uint32
+	var v uint64
 	var n, ndst int
 	for i, b := range src {
 		if b, ok := b85Table[b]; ok {
-			v = 85*v + uint32(b)
+			v = 85*v + uint64(b)
 			n++
 		} else {
 			return fmt.Errorf("invalid base85 byte at index %d: 0x%X", i, src[i])
 		}
 		if n == 5 {
+			if v > 0xFFFFFFFF {
+				return fmt.Errorf("invalid base85 sequence ending at index %d", i)
+			}
 			rem := len(dst) - ndst
 			for j := 0; j < 4 && j < rem; j++ {
 				dst[ndst] = byte(v >> 24)
-- 
2.43.0


From 594d7b6e76972e07cda28cb8834269090207e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:24 +0000
Subject: [PATCH 08/34] fix: reject negative positions when validating
 fragments

Fragments with negative positions passed validation and were applied to the
start of the file.
---
 gitdiff/gitdiff.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gitdiff/gitdiff.go b/gitdiff/gitdiff.go
index d7a3432..0ec131f 100644
--- a/gitdiff/gitdiff.go
+++ b/gitdiff/gitdiff.go
@@ -142,6 +142,11 @@ func (f *TextFragment) Validate() error {
 		return lineCountErr("deleted", deletedLines, f.LinesDeleted)
 	}
 
+	// positions are line numbers, zero is only used for empty content
+	if f.OldPosition < 0 || f.NewPosition < 0 {
+		return errors.New("fragment has a negative position")
+	}
+
 	// if a file is being created, it can only contain additions
 	if f.OldPosition == 0 && f.OldLines != 0 {
 		return errors.New("file creation fragment contains context or deletion lines")
-- 
2.43.0


From 5dc21ffa789fc2f0e060bee9c85e5af910e70a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:25 +0000
Subject: [PATCH 09/34] fix: reject binary deltas with incomplete or oversized
 sizes

A delta that ended inside of its size header or that reported sizes larger
than 63 bits was treated as a valid delta with an arbitrary size.
---
 gitdiff/apply_binary.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply_binary.go b/gitdiff/apply_binary.go
index 953934e..e692e31 100644
--- a/gitdiff/apply_binary.go
+++ b/gitdiff/apply_binary.go
@@ -94,6 +94,9 @@ func (a *BinaryApplier) Close() (err error) {
 
 func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit int64) error {
 	srcSize, delta := readBinaryDeltaSize(frag)
+	if delta == nil {
+		return errors.New("corrupt binary delta: invalid source size")
+	}
 	if err := checkBinarySrcSize(src, srcSize); err != nil {
 		return err
 	}
@@ -103,6 +106,9 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 	// size against the limit. Then, while executing instructions, stop as soon
 	// as a write exceeds the expected limit.
 	dstSize, delta := readBinaryDeltaSize(delta)
+	if delta == nil {
+		return errors.New("corrupt binary delta: invalid result size")
+	}
 	if limit >= 0 && dstSize > limit {
 		return fmt.Errorf("binary delta size of %d exceeds %d byte limit", dstSize, limit)
 	}
@@ -142,17 +148,21 @@ func applyBinaryDeltaFragment(dst io.Writer, src io.ReaderAt, frag []byte, limit
 //
 //	[[1xxxxxxx]...] [0xxxxxxx]
 //
-// in little-endian order, with 7 bits of the value per byte.
+// in little-endian order, with 7 bits of the value per byte. If the size is
+// incomplete or is too large, the returned unused data is nil.
 func readBinaryDeltaSize(d []byte) (size int64, rest []byte) {
 	shift := uint(0)
 	for i, b := range d {
+		if shift > 56 {
+			break
+		}
 		size |= int64(b&0x7F) << shift
 		shift += 7
 		if b <= 0x7F {
 			return size, d[i+1:]
 		}
 	}
-	return size, nil
+	return 0, nil
 }
 
 // applyBinaryDeltaAdd applies an add opcode in a delta-encoded binary
-- 
2.43.0


From b72f29948f52209e73c68f433dd244c079d587e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 10/34] fix: parse quoted names that end with a backslash

The closing quote follows an escaped backslash in these names, but was treated
as an escaped quote.
---
 gitdiff/file_header.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 2ada0c0..c2a82b3 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -436,8 +436,16 @@ func parseName(s string, term byte, dropPrefix int) (name string, n int, err err
 }
 
 func parseQuotedName(s string) (name string, n int, err error) {
+	escaped := false
 	for n = 1; n < len(s); n++ {
-		if s[n] == '"' && s[n-1] != '\\' {
+		if escaped {
+			escaped = false
+			continue
+		}
+		if s[n] == '\\' {
+			escaped = true
+		}
+		if s[n] == '"' {
 			n++
 			break
 		}
-- 
2.43.0


From be263f44218bc8ff7538216955b17087c5422fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 11/34] fix: preserve invalid UTF-8 in quoted names

With core.quotePath disabled, git does not escape non-ASCII bytes. Bytes that
are not valid UTF-8 were replaced with U+FFFD, changing the file name.
---
 gitdiff/file_header.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index c2a82b3..6d31d74 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -7,6 +7,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 const (
@@ -453,12 +454,31 @@ func parseQuotedName(s string) (name string, n int, err error) {
 	if n == 2 {
 		return "", 0, fmt.Errorf("missing name")
 	}
-	if name, err = strconv.Unquote(s[:n]); err != nil {
+	if name, err = strconv.Unquote(escapeInvalidUTF8(s[:n])); err != nil {
 		return "", 0, err
 	}
 	return name, n, err
 }
 
+// escapeInvalidUTF8 replaces the non-ASCII bytes of a quoted name that is not
+// valid UTF-8 with escape sequences. File names can contain arbitrary bytes,
+// but strconv.Unquote replaces invalid UTF-8 with the replacement character.
+func escapeInvalidUTF8(s string) string {
+	if utf8.ValidString(s) {
+		return s
+	}
+
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		if s[i] >= utf8.RuneSelf {
+			fmt.Fprintf(&b, `\x%02x`, s[i])
+		} else {
+			b.WriteByte(s[i])
+		}
+	}
+	return b.String()
+}
+
 func parseUnquotedName(s string, term byte) (name string, n int, err error) {
 	for n = 0; n < len(s); n++ {
 		if s[n] == '\n' {
-- 
2.43.0


From 2d0e7f1569e880c210febc726d57cad0eaa7bd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 12/34] fix: do not continue parsing after a failed read

An error while reading ahead of something that looks like a fragment header
was dropped and, if later reads succeeded, parsing reported success with
missing content.
---
 gitdiff/parser.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gitdiff/parser.go b/gitdiff/parser.go
index d5986e1..ad9c2a7 100644
--- a/gitdiff/parser.go
+++ b/gitdiff/parser.go
@@ -79,6 +79,7 @@ type parser struct {
 	r stringReader
 
 	eof    bool
+	err    error
 	lineno int64
 	lines  [3]string
 }
@@ -96,6 +97,9 @@ func (p *parser) Next() error {
 	if p.eof {
 		return io.EOF
 	}
+	if p.err != nil {
+		return p.err
+	}
 
 	if p.lineno == 0 {
 		// on first call to next, need to shift in all lines
@@ -124,6 +128,9 @@ func (p *parser) shiftLines() (err error) {
 		p.lines[i] = p.lines[i+1]
 	}
 	p.lines[len(p.lines)-1], err = p.r.ReadString('\n')
+	if err != nil && err != io.EOF {
+		p.err = err // never continue after a failed read
+	}
 	return
 }
 
-- 
2.43.0


From 548ce3990c043551a4205ed6236ae6bd07be4f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 13/34] fix: parse iso-strict dates that use Z for UTC

Git 2.45 and later use Z instead of +00:00 for this format.
---
 gitdiff/patch_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 9f42c90..d2fccf6 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -75,7 +75,7 @@ func (h *PatchHeader) Message() string {
 func ParsePatchDate(s string) (time.Time, error) {
 	const (
 		isoFormat          = "2006-01-02 15:04:05 -0700"
-		isoStrictFormat    = "2006-01-02T15:04:05-07:00"
+		isoStrictFormat    = "2006-01-02T15:04:05Z07:00"
 		rfc2822Format      = "Mon, 2 Jan 2006 15:04:05 -0700"
 		shortFormat        = "2006-01-02"
 		defaultFormat      = "Mon Jan 2 15:04:05 2006 -0700"
-- 
2.43.0


From f4b632b13fed15b57016eddd2e38263bedc2b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 14/34] fix: parse patch headers with long lines

Commit messages with lines longer than 64KiB failed with an error.
---
 gitdiff/patch_header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index d2fccf6..9bcef58 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"io/ioutil"
+	"math"
 	"mime/quotedprintable"
 	"net/mail"
 	"strconv"
@@ -229,6 +230,7 @@ func parseHeaderPretty(prettyLine string, r io.Reader) (*PatchHeader, error) {
 	}
 
 	s := bufio.NewScanner(r)
+	s.Buffer(nil, math.MaxInt) // content is in memory, do not limit lines
 	for s.Scan() {
 		line := s.Text()
 
@@ -391,6 +393,7 @@ func parseHeaderMail(mailLine string, r io.Reader, opts patchHeaderOptions) (*Pa
 	h.SubjectPrefix, h.Title = cleanSubject(subject, opts.subjectCleanMode)
 
 	s := bufio.NewScanner(msg.Body)
+	s.Buffer(nil, math.MaxInt) // content is in memory, do not limit lines
 	h.Body, h.BodyAppendix = scanMessageBody(s, "", true)
 	if s.Err() != nil {
 		return nil, s.Err()
-- 
2.43.0


From ecd26b4b4d7f622b08d843976c075a7fb7c81f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 15/34] fix: decode encoded author names in mail headers

git format-patch encodes author names that contain non-ASCII characters, but
the encoded form was returned as the name.
---
 gitdiff/patch_header.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 9bcef58..d48214c 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"io/ioutil"
 	"math"
+	"mime"
 	"mime/quotedprintable"
 	"net/mail"
 	"strconv"
@@ -373,6 +374,10 @@ func parseHeaderMail(mailLine string, r io.Reader, opts patchHeaderOptions) (*Pa
 
 	from := msg.Header.Get("From")
 	if from != "" {
+		// git encodes names that contain non-ASCII characters
+		if decoded, err := new(mime.WordDecoder).DecodeHeader(from); err == nil {
+			from = decoded
+		}
 		u, err := ParsePatchIdentity(from)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From e90165abc14acb45064031070acd4c79dbd7ef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:54 +0000
Subject: [PATCH 16/34] fix: decode encoded subjects that follow unencoded text

With SubjectCleanWhitespace, the "[PATCH]" prefix that precedes the encoded
part of a subject stopped the subject from being decoded.
---
 gitdiff/patch_header.go | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index d48214c..6fb5b35 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -5,10 +5,8 @@ import (
 	"errors"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"math"
 	"mime"
-	"mime/quotedprintable"
 	"net/mail"
 	"strconv"
 	"strings"
@@ -452,27 +450,15 @@ func cleanSubject(s string, mode SubjectCleanMode) (prefix string, subject strin
 	return
 }
 
-// Decodes a subject line. Currently only supports quoted-printable UTF-8. This format is the result
-// of a `git format-patch` when the commit title has a non-ASCII character (i.e. an emoji).
+// Decodes a subject line. If a commit title has a non-ASCII character (i.e. an
+// emoji), `git format-patch` produces one or more RFC 2047 encoded words. The
+// subject can also contain text that is not encoded, like a "[PATCH]" prefix.
 // See for reference: https://stackoverflow.com/questions/27695749/gmail-api-not-respecting-utf-encoding-in-subject
 func decodeSubject(encoded string) string {
-	if !strings.HasPrefix(encoded, "=?UTF-8?q?") {
-		// not UTF-8 encoded
-		return encoded
-	}
-
-	// If the subject is too long, `git format-patch` may produce a subject line across
-	// multiple lines. When parsed, this can look like the following:
-	// <UTF8-prefix><first-line> <UTF8-prefix><second-line>
-	payload := " " + encoded
-	payload = strings.ReplaceAll(payload, " =?UTF-8?q?", "")
-	payload = strings.ReplaceAll(payload, "?=", "")
-
-	decoded, err := ioutil.ReadAll(quotedprintable.NewReader(strings.NewReader(payload)))
+	decoded, err := new(mime.WordDecoder).DecodeHeader(encoded)
 	if err != nil {
 		// if err, abort decoding and return original subject
 		return encoded
 	}
-
-	return string(decoded)
+	return decoded
 }
-- 
2.43.0


From f5ac160a18ccdd835c8a24e4e0b819571a33fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:55 +0000
Subject: [PATCH 17/34] fix: keep special characters in encoded author names

Quotes, backslashes, and other special characters in the encoded form of a
name are part of the name and must not be parsed as RFC 5322 syntax.
---
 gitdiff/patch_header.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index 6fb5b35..a0d4ea0 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -372,14 +372,15 @@ func parseHeaderMail(mailLine string, r io.Reader, opts patchHeaderOptions) (*Pa
 
 	from := msg.Header.Get("From")
 	if from != "" {
-		// git encodes names that contain non-ASCII characters
-		if decoded, err := new(mime.WordDecoder).DecodeHeader(from); err == nil {
-			from = decoded
-		}
 		u, err := ParsePatchIdentity(from)
 		if err != nil {
 			return nil, err
 		}
+		// git encodes names that contain non-ASCII characters; special
+		// characters in the encoded text, like quotes, are part of the name
+		if name, err := new(mime.WordDecoder).DecodeHeader(u.Name); err == nil {
+			u.Name = name
+		}
 		h.Author = &u
 	}
 
-- 
2.43.0


From 3730680a7f79a6ffaf9c86ae94cf0a6b7dbad09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:55 +0000
Subject: [PATCH 18/34] fix: keep the zone offset of raw dates

If the offset was the one the local zone had at the start of year 0, the date
was converted to the local zone, with its offset at that time.
---
 gitdiff/patch_header.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index a0d4ea0..b7ec3ba 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -107,7 +107,9 @@ func ParsePatchDate(s string) (time.Time, error) {
 	// raw format
 	if space := strings.IndexByte(s, ' '); space > 0 {
 		unix, uerr := strconv.ParseInt(s[:space], 10, 64)
-		zone, zerr := time.Parse("-0700", s[space+1:])
+		// parse in UTC so the result is a fixed zone, never the local one, which
+		// may have a different offset at other times
+		zone, zerr := time.ParseInLocation("-0700", s[space+1:], time.UTC)
 		if uerr == nil && zerr == nil {
 			return time.Unix(unix, 0).In(zone.Location()), nil
 		}
-- 
2.43.0


From 1320f093adcdfc5a36e1f73d7e2b494c968ed974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:40 +0000
Subject: [PATCH 19/34] fix: name the fragment header in errors about its line
 counts

The line was computed from the larger of the old and new line counts,
which is less than the number of lines in the fragment if it mixes
deleted and added lines or has markers for missing newlines.
---
 gitdiff/text.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index 7739dab..75c8838 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -79,6 +79,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 		return p.Errorf(0, "no content following fragment header")
 	}
 
+	hdr := p.lineno - 1
 	oldLines, newLines := frag.OldLines, frag.NewLines
 	for oldLines > 0 || newLines > 0 {
 		line := p.Line(0)
@@ -132,8 +133,7 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 	}
 
 	if oldLines != 0 || newLines != 0 {
-		hdr := max(frag.OldLines-oldLines, frag.NewLines-newLines) + 1
-		return p.Errorf(-hdr, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
+		return p.Errorf(hdr-p.lineno, "fragment header miscounts lines: %+d old, %+d new", -oldLines, -newLines)
 	}
 	if frag.LinesAdded == 0 && frag.LinesDeleted == 0 {
 		return p.Errorf(0, "fragment contains no changes")
-- 
2.43.0


From 2a92409ca6f083257c7355f2147283f4bed70aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 20/34] fix: name the correct line in errors about traditional
 file headers

The parser is two lines further on when the errors are created.
---
 gitdiff/file_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index 6d31d74..ac733f2 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -136,12 +136,12 @@ func (p *parser) ParseTraditionalFileHeader() (*File, error) {
 
 	oldName, _, err := parseName(oldLine[len(oldPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(0, "file header: %v", err)
+		return nil, p.Errorf(-2, "file header: %v", err)
 	}
 
 	newName, _, err := parseName(newLine[len(newPrefix):], '\t', 0)
 	if err != nil {
-		return nil, p.Errorf(1, "file header: %v", err)
+		return nil, p.Errorf(-1, "file header: %v", err)
 	}
 
 	f := &File{}
-- 
2.43.0


From 0ff66e493dc919f158305bf82f0513d7a22a89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 21/34] fix: end unquoted file names at carriage returns

Patches with CRLF line endings had names that end with a carriage return,
and /dev/null was not recognised. git apply ends unquoted names there, and
git and GNU diff quote names that contain carriage returns.
---
 gitdiff/file_header.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index ac733f2..fb76264 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -481,7 +481,8 @@ func escapeInvalidUTF8(s string) string {
 
 func parseUnquotedName(s string, term byte) (name string, n int, err error) {
 	for n = 0; n < len(s); n++ {
-		if s[n] == '\n' {
+		// like git, stop at carriage returns, which are quoted if they are in names
+		if s[n] == '\n' || s[n] == '\r' {
 			break
 		}
 		if term > 0 && s[n] == term {
-- 
2.43.0


From 546b8c60eef221433a637c4b5c661bc4d872b267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:38 +0000
Subject: [PATCH 22/34] fix: find the default name of a file in linear time

The first name in a header line without quotes was compared at each space
with the rest of the line, and the prefix of the rest was searched again
each time. A header line of a few hundred kilobytes took minutes.
---
 gitdiff/file_header.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index fb76264..f7c4d86 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -245,12 +245,16 @@ func parseGitHeaderName(header string) (string, error) {
 	// since names may contain spaces, we can't use a known separator
 	// instead, look for a split that produces two equal names
 
+	start := 0 // start of the second name, after its prefix
 	for i := 0; i < len(first)-1; i++ {
 		if !isSpace(first[i]) {
 			continue
 		}
-		second = trimTreePrefix(first[i+1:], 1)
-		if name := first[:i]; name == second {
+		if start <= i+1 {
+			// splits share the prefix end, so only look for it when passing it
+			start = len(first) - len(trimTreePrefix(first[i+1:], 1))
+		}
+		if name := first[:i]; name == first[start:] {
 			return name, nil
 		}
 	}
-- 
2.43.0


From f488d9a9f51c9870c3932cef8118d3e477ecff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:27 +0000
Subject: [PATCH 23/34] fix: apply fragments at the same position in any given
 order

Sorting by position alone put an insertion after a line before a fragment
that changes this line, if the file listed them in that order (or, with an
unstable sort, at random), and the apply failed with a conflict.
---
 gitdiff/apply.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index 2d21d52..0860184 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -123,7 +123,12 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		frags := make([]*TextFragment, len(f.TextFragments))
 		copy(frags, f.TextFragments)
 
-		sort.Slice(frags, func(i, j int) bool {
+		// fragments without old lines insert content after the line at their
+		// position, so they follow fragments that start with this line
+		sort.SliceStable(frags, func(i, j int) bool {
+			if frags[i].OldPosition == frags[j].OldPosition {
+				return frags[i].OldLines > 0 && frags[j].OldLines == 0
+			}
 			return frags[i].OldPosition < frags[j].OldPosition
 		})
 
-- 
2.43.0


From 245a8c4f5a33d594f74b878849099cc0542f61e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 24/34] fix: report source errors that wrap io.EOF as they are

Errors of a source that wrap io.EOF, like those of net/http for connections
that are closed early, were reported as conflicts with a short source.
---
 gitdiff/apply_text.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index d2fdc00..1778f30 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -162,7 +162,7 @@ func readPreimage(r LineReaderAt, start int64, lines int64) ([][]byte, error) {
 		if err != nil {
 			// an EOF indicates that source file is shorter than the patch expects,
 			// which should be reported as a conflict rather than a generic error
-			if errors.Is(err, io.EOF) {
+			if err == io.EOF {
 				err = &Conflict{"src has fewer lines than required by fragment"}
 			}
 			return nil, applyError(err, lineNum(start+int64(n)))
-- 
2.43.0


From 7fa7fc0550bc7d65dca93dbe63e42e35c274dac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 25/34] fix: number fragments by their place in the file in
 apply errors

Apply sorts a copy of the fragments, but ApplyError.Fragment is documented
as the number of the fragment in the file.
---
 gitdiff/apply.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gitdiff/apply.go b/gitdiff/apply.go
index 0860184..ab2afcd 100644
--- a/gitdiff/apply.go
+++ b/gitdiff/apply.go
@@ -137,9 +137,14 @@ func Apply(dst io.Writer, src io.ReaderAt, f *File, opts ...ApplyOption) error {
 		// possible to precompute the result of applying them in order
 
 		applier := NewTextApplier(dst, src, opts...)
-		for i, frag := range frags {
+		for _, frag := range frags {
 			if err := applier.ApplyFragment(frag); err != nil {
-				return applyError(err, fragNum(i))
+				// report the number in the file, not in the sorted copy
+				num := 0
+				for f.TextFragments[num] != frag {
+					num++
+				}
+				return applyError(err, fragNum(num))
 			}
 		}
 		return applyError(applier.Close())
-- 
2.43.0


From 77849793d5f15b416ee3a513098e57c7111c0bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 26/34] fix: keep a mode that is given for only one side when
 formatting a file

The old mode line is only replaced by the mode on the index line, and a new
mode does not depend on the old one. Both were lost when the other mode or
the index line was missing, so the formatted file parsed to a different one.
---
 gitdiff/format.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gitdiff/format.go b/gitdiff/format.go
index 8aa25fa..81a3718 100644
--- a/gitdiff/format.go
+++ b/gitdiff/format.go
@@ -104,17 +104,19 @@ func (fm *formatter) FormatFile(f *File) {
 	fm.WriteQuotedName("b/" + bName)
 	fm.WriteByte('\n')
 
+	hasIndex := f.OldOIDPrefix != "" && f.NewOIDPrefix != ""
+
 	// The mode of a created or deleted file may be unknown (zero) if it is from
 	// a traditional patch, but the line is required to identify the operation
 	if f.IsDelete {
 		fmt.Fprintf(fm, "deleted file mode %o\n", f.OldMode)
-	} else if f.OldMode != 0 && f.NewMode != 0 {
+	} else if f.OldMode != 0 && (f.NewMode != 0 || !hasIndex) {
 		fmt.Fprintf(fm, "old mode %o\n", f.OldMode)
 	}
 
 	if f.IsNew {
 		fmt.Fprintf(fm, "new file mode %o\n", f.NewMode)
-	} else if f.NewMode != 0 && f.OldMode != 0 {
+	} else if f.NewMode != 0 {
 		fmt.Fprintf(fm, "new mode %o\n", f.NewMode)
 	}
 
@@ -152,7 +154,7 @@ func (fm *formatter) FormatFile(f *File) {
 		}
 	}
 
-	if f.OldOIDPrefix != "" && f.NewOIDPrefix != "" {
+	if hasIndex {
 		fmt.Fprintf(fm, "index %s..%s", f.OldOIDPrefix, f.NewOIDPrefix)
 
 		// Mode is only included on the index line when it is not changing
-- 
2.43.0


From 7677723b8fb38f6160a1f9ceb43329ad70f2e20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 27/34] fix: keep an object id that is given for only one side
 when formatting a file

An index line may have an empty id on one side, for example if it is cut
off, and the formatted file parsed to one without any id.
---
 gitdiff/format.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/format.go b/gitdiff/format.go
index 81a3718..2ce0283 100644
--- a/gitdiff/format.go
+++ b/gitdiff/format.go
@@ -104,7 +104,7 @@ func (fm *formatter) FormatFile(f *File) {
 	fm.WriteQuotedName("b/" + bName)
 	fm.WriteByte('\n')
 
-	hasIndex := f.OldOIDPrefix != "" && f.NewOIDPrefix != ""
+	hasIndex := f.OldOIDPrefix != "" || f.NewOIDPrefix != ""
 
 	// The mode of a created or deleted file may be unknown (zero) if it is from
 	// a traditional patch, but the line is required to identify the operation
-- 
2.43.0


From f36c9a1fa16d8c16187cd271f1bb8050e2c7b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 28/34] fix: write the null device as it was read when
 formatting a file

A git header with a null device but without the line that marks the file as
new or deleted gives a file with /dev/null as its name, and the prefix in
the formatted file made it a path below the root.
---
 gitdiff/format.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gitdiff/format.go b/gitdiff/format.go
index 2ce0283..8f55139 100644
--- a/gitdiff/format.go
+++ b/gitdiff/format.go
@@ -184,16 +184,16 @@ func (fm *formatter) FormatFile(f *File) {
 	// The "---" and "+++" lines only appear for text patches with fragments
 	if len(f.TextFragments) > 0 {
 		fm.WriteString("--- ")
-		if f.OldName == "" {
-			fm.WriteString("/dev/null")
+		if f.OldName == "" || f.OldName == devNull {
+			fm.WriteString(devNull)
 		} else {
 			fm.WriteQuotedName("a/" + f.OldName)
 		}
 		fm.WriteByte('\n')
 
 		fm.WriteString("+++ ")
-		if f.NewName == "" {
-			fm.WriteString("/dev/null")
+		if f.NewName == "" || f.NewName == devNull {
+			fm.WriteString(devNull)
 		} else {
 			fm.WriteQuotedName("b/" + f.NewName)
 		}
-- 
2.43.0


From 31072714f508586d1051f74267b0d70b67a75f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 29/34] fix: do not keep the null device as the name of a
 missing side

If the lines with the file names are in front of the line that marks a file
as new or deleted, the missing side was named /dev/null, not left empty as in
any other order.
---
 gitdiff/file_header.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gitdiff/file_header.go b/gitdiff/file_header.go
index f7c4d86..e5f9dc8 100644
--- a/gitdiff/file_header.go
+++ b/gitdiff/file_header.go
@@ -93,6 +93,15 @@ func (p *parser) ParseGitFileHeader() (*File, error) {
 		}
 	}
 
+	// the null device is not a name, but it is only known after all lines are
+	// read that the missing side is missing because the file is new or deleted
+	if f.IsNew && f.OldName == devNull {
+		f.OldName = ""
+	}
+	if f.IsDelete && f.NewName == devNull {
+		f.NewName = ""
+	}
+
 	if f.OldName == "" && f.NewName == "" {
 		if defaultName == "" {
 			return nil, p.Errorf(0, "git file header: missing filename information")
-- 
2.43.0


From a17608cd9bddb854f110b2d07a58dbb8ee741765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 30/34] fix: accept io.EOF with a full read of lines at the end
 of the source

---
 gitdiff/apply_text.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdiff/apply_text.go b/gitdiff/apply_text.go
index 1778f30..015d4cb 100644
--- a/gitdiff/apply_text.go
+++ b/gitdiff/apply_text.go
@@ -159,7 +159,8 @@ func readPreimage(r LineReaderAt, start int64, lines int64) ([][]byte, error) {
 		preimage = append(preimage, make([][]byte, readSize)...)
 
 		n, err := r.ReadLinesAt(preimage[i:i+readSize], start)
-		if err != nil {
+		// a reader may return io.EOF with a full read that ends at the end of the source
+		if err != nil && !(err == io.EOF && int64(n) == readSize) {
 			// an EOF indicates that source file is shorter than the patch expects,
 			// which should be reported as a conflict rather than a generic error
 			if err == io.EOF {
-- 
2.43.0


From 9456faa293f98adff93048bfbee1ccd614c6bf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 31/34] fix: strip a carriage return from the first line of a
 patch header

---
 gitdiff/patch_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdiff/patch_header.go b/gitdiff/patch_header.go
index b7ec3ba..13ae4b3 100644
--- a/gitdiff/patch_header.go
+++ b/gitdiff/patch_header.go
@@ -189,7 +189,7 @@ func ParsePatchHeader(header string, options ...PatchHeaderOption) (*PatchHeader
 
 	var firstLine, rest string
 	if before, after, ok := strings.Cut(header, "\n"); ok {
-		firstLine = before
+		firstLine = strings.TrimSuffix(before, "\r")
 		rest = after
 	} else {
 		firstLine = header
-- 
2.43.0


From 42eb3ef8bb9faaac7f3ee3705b713d02661e584e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:50 +0000
Subject: [PATCH 32/34] fix: reject text fragments that end in an incomplete
 line

All lines of a fragment end with a newline; a marker line follows lines of
files without one. A last line without a newline was taken for a line of a
file that ends without a newline, so that truncated or trimmed patches changed
the end of files. Like git, report an error.
---
 gitdiff/text.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdiff/text.go b/gitdiff/text.go
index 75c8838..a47f9d5 100644
--- a/gitdiff/text.go
+++ b/gitdiff/text.go
@@ -83,6 +83,10 @@ func (p *parser) ParseTextChunk(frag *TextFragment) error {
 	oldLines, newLines := frag.OldLines, frag.NewLines
 	for oldLines > 0 || newLines > 0 {
 		line := p.Line(0)
+		if line[len(line)-1] != '\n' {
+			// missing newlines are marked, so this line is probably truncated
+			return p.Errorf(0, "unexpected end of input in fragment line")
+		}
 		op, data := line[0], line[1:]
 
 		switch op {
-- 
2.43.0


From 12999b78cbbad0bdc167e0a2abeac56c3877cdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:05 +0000
Subject: [PATCH 33/34] fix: recognize binary markers at the end of the input
 without a newline

Like the other header lines, the marker may be the last line of a patch that
does not end with a newline. It was ignored, so that the file looked like an
unmodified text file, and a missing binary fragment was not reported.
---
 gitdiff/binary.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdiff/binary.go b/gitdiff/binary.go
index cb1e058..e2370e7 100644
--- a/gitdiff/binary.go
+++ b/gitdiff/binary.go
@@ -47,9 +47,9 @@ func (p *parser) ParseBinaryFragments(f *File) (n int, err error) {
 }
 
 func (p *parser) ParseBinaryMarker() (isBinary bool, hasData bool, err error) {
-	line := p.Line(0)
+	line := strings.TrimSuffix(p.Line(0), "\n")
 	switch {
-	case line == "GIT binary patch\n":
+	case line == "GIT binary patch":
 		hasData = true
 	case isBinaryNoDataMarker(line):
 	default:
@@ -63,7 +63,7 @@ func (p *parser) ParseBinaryMarker() (isBinary bool, hasData bool, err error) {
 }
 
 func isBinaryNoDataMarker(line string) bool {
-	if strings.HasSuffix(line, " differ\n") {
+	if strings.HasSuffix(line, " differ") {
 		return strings.HasPrefix(line, "Binary files ") || strings.HasPrefix(line, "Files ")
 	}
 	return false
-- 
2.43.0


From 2026368db59df71757eb8a7e777eb9a52fbf7c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:21 +0000
Subject: [PATCH 34/34] fix: report io.EOF again when reading binary data after
 its end

Closing the zlib reader resets its state, so that reads after the end of the
data failed with io.ErrUnexpectedEOF. Clients that read exactly Size bytes and
then check for the end, which io.Reader allows, failed for valid data.
---
 gitdiff/binary_reader.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gitdiff/binary_reader.go b/gitdiff/binary_reader.go
index b57df40..d7c2304 100644
--- a/gitdiff/binary_reader.go
+++ b/gitdiff/binary_reader.go
@@ -15,6 +15,7 @@ type binaryReader struct {
 	c    io.Closer
 	size int64
 	raw  []byte
+	eof  bool
 }
 
 func newBinaryReader(f *BinaryFragment) io.Reader {
@@ -25,6 +26,11 @@ func newBinaryReader(f *BinaryFragment) io.Reader {
 }
 
 func (r *binaryReader) Read(p []byte) (int, error) {
+	// a closed zlib reader does not report io.EOF again
+	if r.eof {
+		return 0, io.EOF
+	}
+
 	// Defer initialization of the zlib reader so that we report any header
 	// errors from Read() instead of when creating the binaryReader. This
 	// allows clients to use io.ReadAll() directly with BinaryFragment.Data().
@@ -51,6 +57,7 @@ func (r *binaryReader) Read(p []byte) (int, error) {
 		if err := r.c.Close(); err != nil {
 			return n, err
 		}
+		r.eof = true
 	}
 	return n, err
 }
-- 
2.43.0


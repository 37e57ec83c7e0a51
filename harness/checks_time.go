package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C31", Quick: 3000, Thorough: 60000,
		Run:  runC31,
		Rule: "A case repeats a random motif within a random context to make an input of 50 KB to 4 MB, and measures the processor time of the thread that parses, formats, validates and applies it (the smallest of three measurements, if the first is too long). Distinct by input.",
		Floors: map[string]int{
			"context: git header": 30, "context: names": 30, "context: fragment": 30, "context: lines": 30, "context: binary": 10, "context: preamble": 20, "context: log header": 20, "context: mail header": 30, "context: identity": 20, "context: date": 5,
			"patch: many fragments": 10, "patch: many files": 10, "patch: delta": 10, "parsed": 200, "applied": 50,
		},
		Assumptions: []string{"The bound is one second and one microsecond per byte, at least ten times what the library needs today; work that grows with the square of the input exceeds it at these sizes."},
	})
}

var timeTokens = []string{
	" ", " ", "\t", "a", "a", "b", "/", "/", "a/", "b/", "\"", "\\", "\\\\", "\\\"", "\\303\\244", "0", "1", "9", ",", "+", "-", ".", "..", "%", "\r", "\x00", "\xc3\xa4", "\xff", "@", "@@", " @@", "@@ -", " +", "<", ">", "(", ")", "[", "]", ":", "re:", "Re: ", "[PATCH]", "=?UTF-8?q?", "?=", "=?", "?q?", "=20", "=", "_", "---", "\"a\" ", "a/x b/x",
	"\n", "\n", "\n ", "\n\t", "\n\n", "-a\n", "+a\n", " a\n", " \n", "\\ No newline at end of file\n", "@@ -1 +1 @@\n", "@@ -1 +1 @@\n-a\n+b\n", "@@ -1,1 +1,1 @@ x\n", "diff --git a/x b/x\n", "--- a/x\n", "+++ b/x\n", "--- a/x\t1970-01-01 00:00:00 +0000\n", "old mode 100644\n", "new mode 100755\n", "new file mode 100644\n", "deleted file mode 100644\n", "index 1..2\n", "similarity index 5%\n", "rename from x\n", "rename to y\n", "copy from x\n", "copy to y\n", "GIT binary patch\n", "literal 5\n", "delta 5\n", "A00000\n", "Binary files a and b differ\n",
	"Author: a <a@b>\n", "Commit: a <a@b>\n", "Date: 1500000000\n", "AuthorDate: 2020-01-01\n", "From: a <a@b>\n", "Subject: x\n", "X: y\n", "    x\n", "    \n", "commit 1234\n", "From 1234 Mon\n", "Mon", "Jan", "2006", "00:", "Z",
}

// cpuTime is the processor time of the thread of the caller, who must have
// locked it.
func cpuTime() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(1 /* RUSAGE_THREAD */, &u); err != nil {
		panic(err)
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// timed judges the processor time of f.
func timed(c *Ctx, what string, size int, f func()) {
	timedOut(c, what, func() int { return size }, f)
}

// timedOut is timed for operations whose size is known afterwards.
func timedOut(c *Ctx, what string, sized func() int, f func()) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var size int
	var limit time.Duration
	best := time.Duration(math.MaxInt64)
	for i := 0; i == 0 || i < 3 && best > limit; i++ {
		start := cpuTime()
		f()
		size = sized()
		limit = time.Second + time.Duration(size)*time.Microsecond
		if d := cpuTime() - start; d < best {
			best = d
		}
		if best > 10*limit {
			break
		}
	}
	c.Eval()
	if best > limit {
		c.Fail("%s: %v of processor time for %d bytes", what, best, size)
	}
	if best > limit/10 {
		c.Note("more than a tenth of the limit")
	}
}

func timePatch(c *Ctx, text string, sources ...string) {
	var files []*gitdiff.File
	timed(c, "Parse", len(text), func() { files, _, _ = gitdiff.Parse(strings.NewReader(text)) })
	if len(files) > 0 {
		c.Note("parsed")
	}
	timed(c, "String", len(text), func() {
		for _, f := range files {
			_ = f.String()
		}
	})
	timed(c, "Validate", len(text), func() {
		for _, f := range files {
			for _, t := range f.TextFragments {
				if t.Validate() == nil {
					_ = t.Header()
				}
			}
		}
	})
	for i, f := range files {
		if i == 10 {
			break
		}
		for _, src := range append([]string{"", "a\n"}, sources...) {
			var d *dstMon
			timedOut(c, "Apply", func() int { return len(text) + len(src) + len(d.got) }, func() {
				d = newDst(1 << 24)
				if gitdiff.Apply(d, strings.NewReader(src), f) == nil {
					c.Note("applied")
				}
			})
		}
	}
}

func runC31(c *Ctx) {
	r := c.R
	size := r.PickInt(50_000, 150_000, 300_000, 300_000, 300_000, 300_000, 1_000_000)
	context := r.N(16)
	if context >= 8 && context <= 14 && r.P(30) {
		size = 4_000_000
	}
	// motif
	tokens := func(n int) string {
		var b strings.Builder
		for ; n > 0; n-- {
			b.WriteString(timeTokens[r.N(len(timeTokens))])
		}
		return b.String()
	}
	motif := tokens(r.PickInt(1, 1, 1, 2, 2, 3, 5))
	if r.P(10) {
		motif = strings.Repeat(tokens(1), r.PickInt(50, 1000)) + tokens(1)
	}
	fill := func(size int) string { return strings.Repeat(motif, 1+size/len(motif)) }
	head, tail := tokens(r.N(3)), tokens(r.N(3))
	if r.P(40) {
		head = r.Pick("a/", "x/y", "\"", "a", "(", "<", "[", "=?UTF-8?q?", "@", "a/ ", "/", "-")
	}
	if r.P(40) {
		tail = r.Pick("/x", "x", "\"", ")", ">", "]", "?=", "/", " <a@b>", "@", " b/x")
	}
	hole := head + fill(size) + tail
	line := strings.ReplaceAll(hole, "\n", " ")
	frag := "@@ -1 +1 @@\n-a\n+b\n"
	patch := func(text string, src ...string) {
		c.Input("motif", motif)
		c.Input("patch", clip(text, 2000))
		c.Nontrivial(fnv64(text), func() string { return clip(text, 300) })
		timePatch(c, text, src...)
	}
	header := func(text string) {
		c.Input("motif", motif)
		c.Input("header", clip(text, 2000))
		c.Nontrivial(fnv64(text), func() string { return clip(text, 300) })
		for _, m := range cleanModes {
			timed(c, "ParsePatchHeader", len(text), func() {
				h, err := gitdiff.ParsePatchHeader(text, gitdiff.WithSubjectCleanMode(m.mode))
				if err == nil {
					_ = h.Message()
					c.Note("parsed")
				}
			})
		}
	}
	dg := "diff --git a/x b/x\n"
	mail := "From 1234567 Mon Sep 17 00:00:00 2001\n"
	switch context {
	case 0, 1:
		c.Note("context: git header")
		patch(r.Pick(
			dg+hole+"\n"+frag,
			dg+"index "+line+"\n",
			dg+"old mode "+line+"\n",
			dg+"similarity index "+line+"\n",
			dg+"--- a/x\n+++ b/x\n"+hole+"\n"+frag,
			hole+dg+"new file mode 100644\n",
		))
	case 2, 3, 4:
		c.Note("context: names")
		patch(r.Pick(
			"diff --git "+line+"\nold mode 100644\nnew mode 100755\n",
			"diff --git "+line+"\nold mode 100644\nnew mode 100755\n",
			"diff --git a/"+line+" b/"+line+"\nold mode 100644\nnew mode 100755\n",
			"diff --git a/"+line+"/x b/"+line+"\nold mode 100644\nnew mode 100755\n",
			"diff --git x/y"+line+"\nnew file mode 100644\n",
			dg+"--- "+line+"\n+++ "+line+"\n"+frag,
			dg+"rename from "+line+"\nrename to "+line+"x\n",
			"--- "+line+"\n+++ "+line+"\n"+frag,
			"--- a\t"+line+"\n+++ b\t"+line+"\n"+frag,
			dg+"Binary files "+line+" differ\n",
		))
	case 5:
		c.Note("context: fragment")
		patch(dg+"--- a/x\n+++ b/x\n"+r.Pick(
			"@@ -"+line+" @@\n-a\n+b\n",
			"@@ -1 +1"+line+" @@\n-a\n+b\n",
			"@@ -1 +1 @@"+line+"\n-a\n+b\n",
			"@@ -1"+line+" +1 @@\n-a\n+b\n",
			frag+hole,
		), "a\n", hole)
	case 6, 7:
		c.Note("context: lines")
		n := strings.Count(hole, "\n") + 1
		body := "-" + strings.ReplaceAll(hole, "\n", "\n-") + "\n"
		old := hole + "\n"
		patch(dg+"--- a/x\n+++ b/x\n"+r.Pick(
			fmt.Sprintf("@@ -1,%d +0,0 @@\n%s", n, body),
			fmt.Sprintf("@@ -1,%d +1 @@\n%s+b\n", n, body),
			fmt.Sprintf("@@ -1,%d +1,%d @@\n%s", n, n, hole),
			"@@ -1 +1,2 @@\n-"+line+"\n"+fill(size),
			"@@ -1,1000000 +1,1000000 @@\n"+hole,
			fmt.Sprintf("@@ -%d +%d @@\n-a\n+b\n", n, n),
		), old, hole)
	case 8:
		c.Note("context: binary")
		patch(dg + "index 1..2 100644\nGIT binary patch\n" + r.Pick(
			"literal 5\n"+hole+"\n",
			"literal "+line+"\n",
			"delta 5\n"+strings.Repeat("zcmZ?wbhEHbRA5kGxLAAiC_DsTyp-ZtNjyQ1k|3Eqg<7Z6)TTUBkMa\n", size/60)+"\n"+hole,
			"literal 5\nA00000\n\n"+hole,
		))
	case 9:
		c.Note("context: preamble")
		patch(hole + r.Pick("", "\n"+dg+"--- a/x\n+++ b/x\n"+frag, "\n--- a\n+++ b\n"+frag, frag))
	case 10:
		c.Note("context: log header")
		header("commit 1234567" + r.Pick("", " "+line) + "\n" + r.Pick(
			"Author: "+line+"\nDate: 2020-01-02\n\n    title\n\n    body\n",
			"Author: a <a@b>\nDate: "+line+"\n\n    title\n",
			"Author: a <a@b>\n\n    "+strings.ReplaceAll(hole, "\n", "\n    ")+"\n",
			"Author: a <a@b>\n\n    title\n\n    "+strings.ReplaceAll(hole, "\n", "\n    ")+"\n",
			"Author: a <a@b>\n\n"+line+"x\n\n"+hole,
			hole,
			"Author: a <a@b>\n\n"+strings.Repeat("    "+clip(strings.TrimSpace(strings.ReplaceAll(motif, "\n", " ")), 30)+"x\n", 1+size*3/(len(motif)+5)),
		))
	case 11, 12, 13:
		c.Note("context: mail header")
		header(r.Pick("", mail) + r.Pick(
			"From: "+line+"\nDate: Thu, 1 Jan 2015 00:00:00 +0000\nSubject: x\n\nbody\n",
			"From: a <a@b>\nDate: "+line+"\nSubject: x\n\nbody\n",
			"From: a <a@b>\nSubject: "+line+"\n\nbody\n",
			"From: a <a@b>\nSubject: "+line+"\n\nbody\n",
			"From: a <a@b>\nSubject: "+strings.ReplaceAll(hole, "\n", "\n ")+"\n\nbody\n",
			"From: a <a@b>\nSubject: x\n\n"+hole,
			"From: a <a@b>\nSubject: x\n\nbody\n---\n"+hole,
			"From: a <a@b>\n"+hole,
			"From: a <a@b>\nSubject: x\n"+strings.Repeat("X-"+strings.Trim(strings.Map(func(ch rune) rune {
				if ch > ' ' && ch < 0x7f && ch != ':' {
					return ch
				}
				return -1
			}, clip(motif, 20)), " ")+": y\n", size/20)+"\nbody\n",
		))
	case 14:
		if r.P(70) {
			c.Note("context: identity")
			c.Input("motif", motif)
			c.Input("identity", clip(hole, 2000))
			c.Nontrivial(fnv64(hole), func() string { return clip(hole, 300) })
			timed(c, "ParsePatchIdentity", len(hole), func() {
				id, err := gitdiff.ParsePatchIdentity(hole)
				if err == nil {
					_ = id.String()
					c.Note("parsed")
				}
			})
		} else {
			c.Note("context: date")
			c.Input("motif", motif)
			c.Input("date", clip(hole, 2000))
			c.Nontrivial(fnv64(hole), func() string { return clip(hole, 300) })
			timed(c, "ParsePatchDate", len(hole), func() { gitdiff.ParsePatchDate(hole) })
		}
	case 15:
		switch r.N(3) {
		case 0:
			c.Note("patch: many fragments")
			n := size / r.PickInt(20, 60)
			gap := r.PickInt(1, 2, 5)
			var b, src strings.Builder
			b.WriteString("--- a/x\n+++ b/x\n")
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "@@ -%d +%d @@\n-a\n+b\n", i*gap+1, i*gap+1)
				src.WriteString("a\n" + strings.Repeat("c\n", gap-1))
			}
			patch(b.String(), src.String(), src.String()+strings.Repeat("d\n", n))
		case 1:
			c.Note("patch: many files")
			patch(strings.Repeat(r.Pick("--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n", dg+"old mode 100644\nnew mode 100755\n", dg+"index 1..2\nGIT binary patch\nliteral 0\nHcmV?d00001\n\n", dg, dg+"Binary files a/x and b/x differ\n"), size/50))
		case 2:
			c.Note("patch: delta")
			n := size / 4
			src := bytes.Repeat([]byte("ab"), r.PickInt(1, 100, 20000))
			var d bytes.Buffer
			out := 0
			for i := 0; i < n; i++ {
				if r.P(50) {
					d.Write([]byte{1, 'x'})
					out++
				} else {
					d.Write([]byte{0x91, byte(i & 1), 1})
					out++
				}
			}
			delta := append(append(putVarint(uint64(len(src))), putVarint(uint64(out))...), d.Bytes()...)
			f := binFile(&gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(delta)), RawData: deflate(delta, 1)})
			c.Input("delta", fmt.Sprintf("%d instructions for a source of %d bytes", n, len(src)))
			c.Nontrivial(fnv64(string(delta)), nil)
			var got bytes.Buffer
			var err error
			timed(c, "Apply", len(delta)*4+len(src)+out, func() {
				got.Reset()
				err = gitdiff.Apply(&got, bytes.NewReader(src), f)
			})
			if err != nil || got.Len() != out {
				c.Fail("delta: %v, %d bytes instead of %d", err, got.Len(), out)
			}
			timed(c, "Data", len(delta), func() { io.Copy(io.Discard, f.BinaryFragment.Data()) })
			timed(c, "String", len(delta), func() { _ = f.String() })
		}
	}
}

func putVarint(v uint64) (b []byte) {
	for v > 0x7f {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"runtime"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C16", Quick: 300000, Thorough: 6000000,
		Rule: "A case parses a mutated, spliced, truncated or random text as a patch, header, date or identity, and formats, validates, reads and applies whatever was returned, under monitors of panics and of the number of reads and writes. Distinct by text.",
		Run:  runC16,
		Floors: map[string]int{
			"patch": 600, "parse error": 150, "parsed": 300, "file of a failed parse": 30, "applied": 100, "apply error": 500, "header": 100, "header parsed": 30, "header error": 10, "date": 50, "date parsed": 5, "identity": 50, "identity parsed": 20,
			"binary data read": 30, "binary data error": 10, "invalid fragment": 20, "changed fragment": 30, "changed binary": 5,
		},
	})
	register(&Check{
		ID: "C17", Quick: 4000, Thorough: 150000, Workers: 1,
		Rule: "A case parses, formats or applies an input that claims sizes, counts or positions far from its content, and measures the bytes allocated, the reads and the writes against bounds computed from the real sizes. Distinct by input.",
		Run:  runC17,
		Floors: map[string]int{
			"parse: claims": 30, "parse: large": 20, "parse: mutated": 30, "text: far position": 60, "text: huge counts": 20, "text: large source": 20, "literal: claims": 60, "literal: bomb": 5, "delta: claims": 60, "delta: huge copy": 20, "delta: huge source": 20, "delta: amplification": 10, "header: large": 10, "format": 30,
		},
		Assumptions: []string{"Memory is measured as the bytes allocated during an operation (TotalAlloc), which bounds the memory in use from above.", "The bounds have a margin of at least four over what the library allocates today, and allow for other ways to split text (a slice of its fields, for example)."},
	})
}

// ---- C16

func genMutatedHeader(r *Rng) string {
	one := func() string {
		k := genCommit(r, false)
		if r.P(50) {
			return k.pretty(r, r.Pick("short", "medium", "full", "fuller"), r.Pick("default", "iso", "rfc", "short", "raw"))
		}
		subject := r.Pick("", "[PATCH] ", "Re: ", "[PATCH 1/2] [x] ") + k.titleLine()
		switch r.N(4) {
		case 0, 1:
			subject = qEncode(k.titleLine(), "Subject: ")
		case 2:
			// what prefixes are made of, cut off anywhere
			var b strings.Builder
			for i := 1 + r.N(5); i > 0; i-- {
				b.WriteString(r.Pick("re", "Re", "RE", "re:", "Re: ", "r", "R", "e", ":", " ", "[", "]", "[]", "[PATCH]", "[PATCH", "[PATCH 1/2] ", "PATCH", "[x] ", "\t", "a"))
			}
			subject = b.String()
		}
		return fmt.Sprintf("From %s Mon Sep 17 00:00:00 2001\nFrom: %s\nDate: %s\nSubject: %s\n\n%s---\n x | 1 +\n", k.SHA, mailFrom(r, k.Author), k.ADate.format("rfc"), subject, k.Body)
	}
	if r.P(10) {
		var b strings.Builder
		for i := r.N(12); i > 0; i-- {
			b.WriteString(r.Pick("From: ", "From ", "commit ", "Author: ", "Author:", "Date: ", "AuthorDate: ", "CommitDate: ", "Commit: ", "Subject: ", "Merge: ", "\n", "\n\n", "    ", " ", "\t", "---\n", "From", "commit", "Author", "Subject:", "=?UTF-8?q?", "=?", "?=", "=?utf-8?b?====?=", "0123456789012345678901234567890123456789", "Mon Sep 17 00:00:00 2001\n", "[PATCH]", "[", "]", "a <b@c>\n", "<>\n", "x\n", ":\n", "\r\n", "\xff", "\x00"))
		}
		return b.String()
	}
	return mutateBytes(r, one(), one)
}

func genDateText(r *Rng) string {
	s := genStamp(r).format(r.Pick("default", "default-local", "iso", "iso-strict", "iso-strict-z", "rfc", "short", "raw", "unix"))
	if r.P(20) {
		return s
	}
	return mutateBytes(r, s, func() string {
		return genStamp(r).format(r.Pick("default", "iso", "iso-strict", "rfc", "raw"))
	})
}

func genIdentText(r *Rng) string {
	one := func() string {
		id := genIdent(r, true)
		return r.Pick(id.String(), id.Name+"<"+id.Email+">", "\""+id.Name+"\" <"+id.Email+">", id.Email+" ("+id.Name+")", id.Name, id.Email)
	}
	if r.P(20) {
		var b strings.Builder
		for i := r.N(12); i > 0; i-- {
			b.WriteString(r.Pick("<", ">", "@", "(", ")", "\"", "\\", " ", "a", "\t", "\n", "\xff", "\xc3\xb6", "=?UTF-8?q?", "?="))
		}
		return b.String()
	}
	return mutateBytes(r, one(), one)
}

func runC16(c *Ctx) {
	r := c.R
	switch k := r.N(20); {
	case k < 3:
		text := genMutatedHeader(r)
		c.Input("header", text)
		c.Nontrivial(fnv64("h", text), func() string { return text })
		for _, m := range cleanModes {
			h, err := gitdiff.ParsePatchHeader(text, gitdiff.WithSubjectCleanMode(m.mode))
			c.Eval()
			c.Note("header")
			if err != nil {
				c.Note("header error")
			}
			if h == nil {
				if err == nil {
					c.Fail("ParsePatchHeader returned neither a header nor an error")
				}
				continue
			}
			if err == nil {
				c.Note("header parsed")
			}
			_ = h.Message()
			if h.Author != nil {
				_ = h.Author.String()
			}
			if h.Committer != nil {
				_ = h.Committer.String()
			}
		}
	case k < 5:
		text := genDateText(r)
		c.Input("date", text)
		c.Nontrivial(fnv64("d", text), func() string { return text })
		_, err := gitdiff.ParsePatchDate(text)
		c.Eval()
		c.Note("date")
		if err == nil {
			c.Note("date parsed")
		}
	case k < 7:
		text := genIdentText(r)
		c.Input("identity", text)
		c.Nontrivial(fnv64("i", text), func() string { return text })
		id, err := gitdiff.ParsePatchIdentity(text)
		c.Eval()
		c.Note("identity")
		if err == nil {
			c.Note("identity parsed")
		}
		_ = id.String()
	default:
		text := genMutated(r)
		if r.P(10) {
			text = genMutatedHeader(r) + text
		}
		c.Input("patch", text)
		c.Nontrivial(fnv64("p", text), func() string { return text })
		c.Note("patch")
		cr := newChunkReader([]byte(text), r)
		cr.mode = r.PickInt(0, 0, 2, 3)
		files, pre, err := gitdiff.Parse(cr)
		c.Eval()
		if err != nil {
			c.Note("parse error")
			if err.Error() == "" {
				c.Note("empty error")
			}
		} else {
			c.Note("parsed")
		}
		if len(pre) > len(text) {
			c.Fail("the preamble is longer than the input")
		}
		if r.P(20) {
			_, _ = gitdiff.ParsePatchHeader(pre)
			c.Eval()
		}
		for _, f := range files {
			if f == nil {
				c.Fail("a returned file is nil")
			}
			if err != nil {
				c.Note("file of a failed parse")
			}
			useFile(c, f, text)
			if r.P(30) {
				changed := cloneFile(f)
				changeFile(c, changed)
				useFile(c, changed, text)
			}
		}
	}
}

// changeFile gives a file values that no parse returns.
func changeFile(c *Ctx, f *gitdiff.File) {
	r := c.R
	for _, t := range f.TextFragments {
		if r.P(70) {
			mutateField(r, t)
			c.Note("changed fragment")
		}
		if r.P(20) {
			recount(t)
			t.OldPosition = r64(r, 0, 1, 2, math.MaxInt64, math.MaxInt64-1, math.MaxInt64-t.OldLines, math.MinInt64, -1, 1<<40)
		}
		if r.P(20) && len(t.Lines) > 0 {
			t.Lines[r.N(len(t.Lines))] = gitdiff.Line{Op: gitdiff.LineOp(r.N(5) - 1), Line: r.Pick("", "\n", "x", "a\nb\n", "\x00")}
		}
		if r.P(10) {
			t.Lines = nil
		}
	}
	if len(f.TextFragments) > 1 && r.P(40) {
		f.TextFragments = shuffled(r, f.TextFragments)
	}
	for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
		if b == nil {
			continue
		}
		c.Note("changed binary")
		switch r.N(6) {
		case 0:
			b.Size = r64(r, 0, 1, -1, math.MaxInt64-1, math.MinInt64, 1<<40, b.Size+1, b.Size-1)
		case 1:
			b.Method = gitdiff.BinaryPatchMethod(r.N(4) - 1)
		case 2:
			b.RawData = nil
		case 3:
			b.RawData = deflate(r.Bytes(r.N(60)), genLevel(r))
			b.Method = gitdiff.BinaryPatchDelta
			b.Size = int64(r.N(60))
		case 4: // random instructions
			d := append(append(varint(uint64(r.PickInt(0, 1, 10, 300))), varint(uint64(r.N(1000)))...), r.Bytes(r.N(60))...)
			b.RawData, b.Method, b.Size = deflate(d, genLevel(r)), gitdiff.BinaryPatchDelta, int64(len(d))
		case 5:
			if len(b.RawData) > 0 {
				b.RawData[r.N(len(b.RawData))] ^= 1 << uint(r.N(8))
			}
		}
	}
}

// useFile calls everything that takes a file.
func useFile(c *Ctx, f *gitdiff.File, text string) {
	r := c.R
	s := f.String()
	c.Eval()
	if max := 20*len(text) + 200000; len(s) > max {
		c.Fail("String is %d bytes for an input of %d", len(s), len(text))
	}
	var old strings.Builder
	for _, t := range f.TextFragments {
		if t == nil {
			c.Fail("a fragment is nil")
		}
		_ = t.String()
		_ = t.Header()
		if t.Validate() != nil {
			c.Note("invalid fragment")
		}
		for _, l := range t.Lines {
			if l.Old() {
				old.WriteString(l.Line)
			}
			_, _, _ = l.New(), l.NoEOL(), l.String()
			_ = l.Op.String()
		}
	}
	for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
		if b == nil {
			continue
		}
		_ = b.String()
		rd := b.Data()
		buf := make([]byte, r.PickInt(1, 7, 512, 4096))
		for n, i := int64(0), 0; ; i++ {
			k, err := rd.Read(buf)
			n += int64(k)
			if err != nil {
				if err == io.EOF {
					c.Note("binary data read")
				} else {
					c.Note("binary data error")
				}
				break
			}
			if b.Size >= 0 && n > b.Size+1 || n > 1<<24 {
				if b.Size >= 0 && n <= b.Size+1 {
					break // a large result is no runaway
				}
				c.Fail("the reader of a binary fragment of size %d returned %d bytes", b.Size, n)
			}
			if i > 1<<25 {
				c.Fail("the reader of a binary fragment does not end")
			}
		}
	}

	var sources [][]byte
	sources = append(sources, []byte(old.String()), nil, r.Bytes(r.N(300)))
	if len(f.TextFragments) > 0 && r.P(50) {
		// put the first fragment where it says it is
		p := f.TextFragments[0].OldPosition
		if p > 1 && p < 10000 {
			sources = append(sources, []byte(strings.Repeat("\n", int(p-1))+old.String()+"\ntail"))
		}
	}
	for _, src := range sources {
		const limit = 1 << 20
		ra, sn := genSource(r, src)
		d := newDst(2*len(src) + 2*len(text) + limit + 70000)
		err := gitdiff.Apply(d, ra, f, gitdiff.WithMaxBinaryFragmentBytes(limit))
		c.Eval()
		if err != nil {
			c.Note("apply error")
			checkErr(c, err)
		} else {
			c.Note("applied")
		}
		if sm, ok := ra.(*srcAt); ok && sm.neg {
			c.Fail("%s was read at a negative offset", sn)
		}
		if len(f.TextFragments) > 0 && r.P(50) {
			a := gitdiff.NewTextApplier(newDst(2*len(src)+2*len(text)+100000), bytes.NewReader(src))
			for _, t := range f.TextFragments {
				checkErr(c, a.ApplyFragment(t)) // continues after errors
			}
			checkErr(c, a.Close())
			checkErr(c, a.Close())
			c.Eval()
		}
	}
}

// checkErr uses an error the way callers do.
func checkErr(c *Ctx, err error) {
	if err == nil {
		return
	}
	_ = err.Error()
	var ae *gitdiff.ApplyError
	if errors.As(err, &ae) {
		_ = ae.Unwrap()
	}
	_ = errors.Is(err, &gitdiff.Conflict{})
}

// ---- C17

const slack = 1 << 20

// measure returns the number of bytes allocated while f runs.
func measure(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func (c *Ctx) bound(what string, used uint64, factor, size int) {
	c.Eval()
	limit := uint64(factor)*uint64(size) + slack
	if used > limit {
		c.Fail("%s allocated %d bytes; the input, source and output have %d bytes, so that %d are the limit", what, used, size, limit)
	}
	// the largest shares of the limit that were seen
	share := used * 100 / limit
	for _, s := range []uint64{10, 20, 40, 60, 80} {
		if share >= s {
			c.Note(fmt.Sprintf("%s: at least %d%% of the limit", strings.SplitN(what, ":", 2)[0], s))
		}
	}
}

var claims = []int64{0, 1, 3, 1000, 4096, 4097, 1 << 16, 1000000, 1 << 24, 100000000, 1<<31 - 1, 1 << 31, 1 << 32, 1 << 40, 1 << 55, 1<<62 - 1, 1 << 62, math.MaxInt64 - 1, math.MaxInt64}

func genClaim(r *Rng) int64 { return claims[r.N(len(claims))] }

func parseBounded(c *Ctx, what, text string) []*gitdiff.File {
	var files []*gitdiff.File
	var pre string
	cr := newChunkReader([]byte(text), c.R)
	used := measure(func() { files, pre, _ = gitdiff.Parse(cr) })
	c.bound(what, used, 500, len(text))
	if max := 200 + len(text)/1000; cr.reads > max {
		c.Fail("%s: %d reads of an input of %d bytes", what, cr.reads, len(text))
	}
	_ = pre
	return files
}

func runC17(c *Ctx) {
	r := c.R
	switch k := r.N(20); {
	case k < 2: // patches full of claims
		c.Note("parse: claims")
		var b strings.Builder
		for i := 0; i < 1+r.N(4); i++ {
			switch r.N(4) {
			case 0:
				fmt.Fprintf(&b, "--- a/x\n+++ b/x\n@@ -%d,%d +%d,%d @@\n a\n-b\n+c\n", genClaim(r), genClaim(r), genClaim(r), genClaim(r))
			case 1:
				fmt.Fprintf(&b, "diff --git a/x b/x\nindex 1..2 100644\nGIT binary patch\n%s %d\n%s\n\n", r.Pick("literal", "delta"), genClaim(r), b85Lines(deflate(r.Bytes(10), 6), 52))
			case 2:
				fmt.Fprintf(&b, "diff --git a/x b/y\nsimilarity index %d%%\nrename from x\nrename to y\n", genClaim(r))
			case 3:
				fmt.Fprintf(&b, "--- a/x\n+++ b/x\n@@ -%d,2 +%d,2 @@\n a\n-b\n+c\n", genClaim(r), genClaim(r))
			}
		}
		text := b.String()
		c.Input("patch", text)
		c.Nontrivial(fnv64(text), func() string { return text })
		for _, f := range parseBounded(c, "parse", text) {
			formatBounded(c, f, len(text))
		}
	case k < 4:
		c.Note("parse: mutated")
		text := genMutated(r)
		c.Input("patch", text)
		c.Nontrivial(fnv64(text), func() string { return text })
		files := parseBounded(c, "parse", text)
		for _, f := range files {
			formatBounded(c, f, len(text))
			src := r.Bytes(r.N(500))
			d := newDst(1 << 28)
			used := measure(func() { _ = gitdiff.Apply(d, bytes.NewReader(src), f, gitdiff.WithMaxBinaryFragmentBytes(1<<16)) })
			// a copy instruction may name 16 MiB
			c.bound("apply", used, 100, len(text)+len(src)+len(d.got)+copyRoom(f)+int(min(1<<16, inflated(f))))
		}
	case k < 5: // large inputs of many shapes
		c.Note("parse: large")
		n := 2000 + r.N(20000)
		shape := r.N(12)
		var text string
		switch shape {
		case 0: // long preamble
			text = strings.Repeat("preamble line\n", n) + "--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n"
		case 1: // one long line
			text = "--- a/x\n+++ b/x\n@@ -1 +1 @@\n-" + strings.Repeat("x", 40*n) + "\n+b\n"
		case 2: // many lines
			text = fmt.Sprintf("--- a/x\n+++ b/x\n@@ -1,%d +1,%d @@\n", n, n) + strings.Repeat(" \n", n-1) + "-a\n+b\n"
		case 3: // many fragments
			var b strings.Builder
			b.WriteString("--- a/x\n+++ b/x\n")
			for i := 1; i <= n; i++ {
				fmt.Fprintf(&b, "@@ -%d +%d @@\n-a\n+b\n", i, i)
			}
			text = b.String()
		case 4: // many files
			text = strings.Repeat("--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b\n", n)
		case 5: // many headers
			text = strings.Repeat("diff --git a/x b/x\nold mode 100644\nnew mode 100755\n", n)
		case 6: // lines that look like headers
			text = strings.Repeat("--- a\n", n) + strings.Repeat("diff --git x\n", 1) + strings.Repeat("@@ -1 +1\n", n)
		case 7: // binary
			raw := deflate(r.Bytes(20*n), 0)
			text = fmt.Sprintf("diff --git a/x b/x\nindex 1..2 100644\nGIT binary patch\nliteral %d\n%s\n\n", 20*n, b85Lines(raw, 52))
		case 8: // short lines of binary data
			raw := deflate(r.Bytes(n), 0)
			text = fmt.Sprintf("diff --git a/x b/x\nindex 1..2 100644\nGIT binary patch\nliteral %d\n%s\n\n", n, b85Lines(raw, 4))
		case 9: // quoted name
			text = "diff --git \"a/" + strings.Repeat("\\303\\266", n/4) + "\" \"b/" + strings.Repeat("\\303\\266", n/4) + "\"\nold mode 100644\nnew mode 100755\n"
		case 10: // long comment, long name
			text = "--- a/" + strings.Repeat("n", n) + "\n+++ b/" + strings.Repeat("n", n) + "\n@@ -1 +1 @@ " + strings.Repeat("c", n) + "\n-a\n+b\n"
		case 11: // markers
			text = fmt.Sprintf("--- a/x\n+++ b/x\n@@ -1,%d +1,%d @@\n", n, n) + strings.Repeat("-a\n+b\n", n-1) + "-a\n\\ No newline at end of file\n+b\n\\ No newline at end of file\n"
		}
		c.Input("shape", fmt.Sprint(shape, " ", n))
		c.Input("patch", clip(text, 2000))
		c.Nontrivial(fnv64(text), func() string { return clip(text, 300) })
		files := parseBounded(c, "parse", text)
		if len(files) == 0 && shape != 6 {
			c.Fail("no files in a valid patch")
		}
		for i, f := range files {
			if i < 3 {
				formatBounded(c, f, len(text))
			}
		}
		if shape == 2 || shape == 3 || shape == 11 {
			src := []byte(strings.Repeat("\n", n-1) + "a\n")
			if shape != 2 {
				src = []byte(strings.Repeat("a\n", n))
			}
			if shape == 11 {
				src = src[:len(src)-1]
			}
			applyBounded(c, "text: large source", files[0], src, len(text), true)
		}
	case k < 8: // positions beyond the source
		far := genClaim(r)
		f := &gitdiff.File{OldName: "x", NewName: "x"}
		src := []byte(strings.Repeat("line of text\n", r.PickInt(0, 1, 5, 40, 5000)))
		if r.P(40) && len(src) > 13 {
			f.TextFragments = append(f.TextFragments, frag(1, 1, "-line of text\n", "+x\n"))
		}
		f.TextFragments = append(f.TextFragments, frag(far, genClaim(r), []string{" line of text\n", "-line of text\n", "+new\n"}[r.N(3):]...))
		last := f.TextFragments[len(f.TextFragments)-1]
		if r.P(30) {
			last.NewPosition, last.NewLines = 0, 0
			last.Lines = []gitdiff.Line{{Op: gitdiff.OpDelete, Line: "line of text\n"}}
			recount(last)
		}
		c.Note("text: far position")
		c.Input("position", fmt.Sprint(far))
		c.Input("file", f.String())
		c.Nontrivial(fnv64(f.String(), string(src)), func() string { return f.String() })
		applyBounded(c, "text: far position", f, src, 200, false)
		formatBounded(c, f, 200)
	case k < 9: // counts that no lines back
		f := &gitdiff.File{OldName: "x", NewName: "x"}
		t := frag(1, 1, " a\n", "-b\n", "+c\n")
		for _, p := range []*int64{&t.OldLines, &t.NewLines, &t.LinesAdded, &t.LinesDeleted, &t.LeadingContext, &t.TrailingContext, &t.OldPosition, &t.NewPosition} {
			if r.P(50) {
				*p = genClaim(r)
			}
		}
		f.TextFragments = append(f.TextFragments, t)
		c.Note("text: huge counts")
		c.Nontrivial(fnv64(fmt.Sprint(*t)), func() string { return fmt.Sprintf("%+v", *t) })
		c.Input("fragment", fmt.Sprintf("%+v", *t))
		applyBounded(c, "text: huge counts", f, []byte("a\nb\n"), 200, false)
		formatBounded(c, f, 200)
	case k < 10: // large sources and few changes
		n := 1000 + r.N(30000)
		src := []byte(strings.Repeat(r.Pick("\n", "a\n", "line of text\n", strings.Repeat("x", 300)+"\n"), n))
		if r.P(20) {
			src = bytes.Repeat([]byte("x"), 10*n) // one line
		}
		lines := splitLines(src)
		f := &gitdiff.File{OldName: "x", NewName: "x"}
		pos := 0
		for i := 0; i < 1+r.N(40); i++ {
			pos += 1 + r.N(1+len(lines)/20)
			if pos > len(lines) {
				break
			}
			f.TextFragments = append(f.TextFragments, frag(int64(pos), int64(pos), "-"+lines[pos-1], "+new\n"))
		}
		if len(f.TextFragments) == 0 {
			f.TextFragments = append(f.TextFragments, frag(1, 1, "-"+lines[0], "+new\n"))
		}
		c.Note("text: large source")
		c.Input("file", clip(f.String(), 3000))
		c.Nontrivial(fnv64(f.String(), fmt.Sprint(len(src))), func() string { return clip(f.String(), 300) })
		applyBounded(c, "text: large source", f, src, 200*len(f.TextFragments), true)
	case k < 13: // literals
		data := r.Bytes(r.N(2000))
		b := litFrag(data, genLevel(r))
		b.Size = genClaim(r)
		if b.Size == math.MaxInt64 {
			b.Size-- // known limit of the reader
		}
		real := len(data)
		c.Note("literal: claims")
		if r.P(10) { // much more data than claimed
			real = 1 << 24
			b.RawData = deflate(make([]byte, real), 9)
			b.Size = int64(r.N(100000))
			c.Note("literal: bomb")
		}
		c.Input("literal", fmt.Sprintf("claims %d, has %d", b.Size, real))
		c.Nontrivial(fnv64(string(b.RawData), fmt.Sprint(b.Size)), nil)
		opts := []gitdiff.ApplyOption{gitdiff.WithMaxBinaryFragmentBytes(r64(r, -1, -1, math.MaxInt64, b.Size))}
		if r.P(20) {
			opts = nil
		}
		produced := int(min(int64(real), b.Size+1))
		d := newDst(produced)
		var err error
		used := measure(func() { err = gitdiff.Apply(d, bytes.NewReader(nil), binFile(b), opts...) })
		c.bound("literal", used, 8, len(b.RawData)+produced)
		if (err == nil) != (b.Size == int64(real)) {
			c.Fail("a literal that claims %d bytes and has %d: %v", b.Size, real, err)
		}
		n := int64(0)
		used = measure(func() { n, err = io.Copy(io.Discard, b.Data()) })
		c.bound("literal: reader", used, 8, len(b.RawData)+produced)
		if n > b.Size+1 {
			c.Fail("the reader returned %d bytes of a fragment of size %d", n, b.Size)
		}
		formatBounded(c, binFile(b), len(b.RawData))
	default:
		runC17Delta(c)
	case k < 14: // headers
		c.Note("header: large")
		n := 2000 + r.N(20000)
		shape := r.N(7)
		var text string
		head := "From 0123456789012345678901234567890123456789 Mon Sep 17 00:00:00 2001\nFrom: A <a@b>\nDate: Sat, 11 Apr 2020 15:21:23 -0700\n"
		switch shape {
		case 0:
			text = head + "Subject: x\n\n" + strings.Repeat("body line\n", n)
		case 1:
			text = head + "Subject: x\n" + strings.Repeat(" more words\n", n) + "\nbody\n"
		case 2:
			text = head + "Subject: " + strings.Repeat("long ", n) + "\n\nbody\n"
		case 3:
			text = "commit 0123456789012345678901234567890123456789\nAuthor: A <a@b>\nDate:   Sat Apr 11 15:21:23 2020 -0700\n\n" + strings.Repeat("    body line\n", n)
		case 4:
			text = "commit 0123456789012345678901234567890123456789\nAuthor: A <a@b>\nDate:   Sat Apr 11 15:21:23 2020 -0700\n\n    title\n\n" + strings.Repeat("    body\n\n", n)
		case 5:
			text = head + "Subject: x\n\nbody\n---\n" + strings.Repeat(" appendix\n", n)
		case 6:
			text = head + "Subject: " + strings.Repeat("[x] ", n) + strings.Repeat("Re: ", n) + " x\n\n"
		}
		c.Input("shape", fmt.Sprint(shape, " ", n))
		c.Nontrivial(fnv64(text), func() string { return clip(text, 300) })
		var h *gitdiff.PatchHeader
		var err error
		used := measure(func() { h, err = gitdiff.ParsePatchHeader(text) })
		if err != nil {
			c.Fail("valid header: %v", err)
		}
		c.bound("header", used, 250, len(text))
		used = measure(func() { _ = h.Message() })
		c.bound("message", used, 60, len(text))
		id := strings.Repeat(r.Pick("a", "\"", "( ", ") ", "\\", "a b", "<"), n) + " <a@b>"
		used = measure(func() { _, _ = gitdiff.ParsePatchIdentity(id) })
		c.bound("identity", used, 400, len(id))
		date := strings.Repeat(r.Pick("1", "Mon ", "-", " ", "2020-"), n)
		used = measure(func() { _, _ = gitdiff.ParsePatchDate(date) })
		c.bound("date", used, 1000, len(date))
	}
}

// frag makes a consistent fragment of lines with their operations.
func frag(oldPos, newPos int64, lines ...string) *gitdiff.TextFragment {
	t := &gitdiff.TextFragment{OldPosition: oldPos, NewPosition: newPos}
	for _, l := range lines {
		op := gitdiff.OpContext
		switch l[0] {
		case '-':
			op = gitdiff.OpDelete
		case '+':
			op = gitdiff.OpAdd
		}
		t.Lines = append(t.Lines, gitdiff.Line{Op: op, Line: l[1:]})
	}
	recount(t)
	return t
}

func formatBounded(c *Ctx, f *gitdiff.File, size int) {
	var s string
	used := measure(func() { s = f.String() })
	c.Note("format")
	c.bound("format", used, 160, size+len(s))
	if len(s) > 50*size+5000 {
		c.Fail("String is %d bytes for a file of %d", len(s), size)
	}
}

// applyBounded applies the fragments of a file to a source and bounds the
// memory and the I/O by the sizes of both.
func applyBounded(c *Ctx, what string, f *gitdiff.File, src []byte, size int, must bool) {
	r := c.R
	lines := len(splitLines(src))
	count := 0
	for _, t := range f.TextFragments {
		count += len(t.Lines)
	}
	for _, kind := range []string{"ReaderAt", "lines", "applier"} {
		d := newDst(len(src) + size + 100)
		s, l := newSrc(src), newLineSrc(src)
		s.eager, s.scratch, l.eager = r.P(50), r.P(50), r.P(50)
		var err error
		used := measure(func() {
			switch kind {
			case "ReaderAt":
				err = gitdiff.Apply(d, s, f)
			case "lines":
				err = gitdiff.Apply(d, l, f)
			case "applier":
				a := gitdiff.NewTextApplier(d, s)
				for _, t := range f.TextFragments {
					if err = a.ApplyFragment(t); err != nil {
						break
					}
				}
				if err == nil {
					err = a.Close()
				}
			}
		})
		c.bound(what+": "+kind, used, 100, len(src)+size)
		if must && err != nil {
			c.Fail("%s: %s: %v", what, kind, err)
		}
		nf := len(f.TextFragments)
		// the source is read once for the line index and once for the lines
		if max := int64(4*len(src) + 4096*(2*nf+10) + 1024*(lines/16)); s.bytes+l.bytes > max {
			c.Fail("%s: %s: %d bytes read of a source of %d", what, kind, s.bytes+l.bytes, len(src))
		}
		if max := 4*(len(src)/512+lines/16+4*nf) + 100; s.calls+l.calls+l.lineCalls > max {
			c.Fail("%s: %s: %d reads of a source of %d bytes and %d lines", what, kind, s.calls+l.calls+l.lineCalls, len(src), lines)
		}
		if max := 4*(lines+count) + 100; d.writes > max {
			c.Fail("%s: %s: %d writes for %d lines", what, kind, d.writes, lines+count)
		}
	}
}

// copyRoom is what copy instructions may allocate before they are found to
// read or write too much.
func copyRoom(f *gitdiff.File) int {
	if f.BinaryFragment != nil && f.BinaryFragment.Method == gitdiff.BinaryPatchDelta {
		return 1 << 24
	}
	return 0
}

func inflated(f *gitdiff.File) int64 {
	if f.BinaryFragment == nil {
		return 0
	}
	b, _ := inflateAll(f.BinaryFragment.RawData, 1<<20)
	return int64(len(b))
}

func runC17Delta(c *Ctx) {
	r := c.R
	limit := r64(r, -1, -1, math.MaxInt64, 1<<16, 100<<20)
	var opts []gitdiff.ApplyOption
	if r.P(80) {
		opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(limit))
	} else {
		limit = 100 << 20
	}
	var src io.ReaderAt
	var srcSize, dstSize int64
	var ops []byte
	var want int64 = -1 // size of the result if the delta is valid
	var calls func() int
	room, inSrc := 0, 0
	switch r.N(4) {
	case 0: // claims
		c.Note("delta: claims")
		n := r.PickInt(0, 1, 100, 5000)
		s := newSrc(r.Bytes(n))
		src, calls, inSrc = s, func() int { return s.calls }, n
		srcSize, dstSize = int64(n), genClaim(r)
		if r.P(30) {
			srcSize = genClaim(r)
		}
		ops = append([]byte{3}, "abc"...)
		if n > 0 {
			ops = append(ops, encodeDeltaOp(deltaOp{copy: true, off: 0, size: int64(n)}, 0)...)
		}
		room = 1 << 17
	case 1: // copies of up to 16 MiB of a small source, or into a small result
		c.Note("delta: huge copy")
		n := 1 + r.N(100000)
		s := newSrc(bytes.Repeat([]byte("x"), n))
		src, calls, inSrc = s, func() int { return s.calls }, n
		srcSize, dstSize = int64(n), genClaim(r)
		for i := 0; i < 1+r.N(2000); i++ {
			ops = append(ops, encodeDeltaOp(deltaOp{copy: true, off: int64(r.N(2) * r.N(1<<30)), size: int64(r.PickInt(1<<24-1, 1<<20, 1<<16))}, 0)...)
		}
		room = 1 << 24
	case 2: // a large source that must not be read as a whole
		c.Note("delta: huge source")
		v := &virtualSrc{size: r64(r, 1<<26, 1<<32, 1<<40, 1<<60), salt: r.U64()}
		src, calls = v, func() int { return v.calls }
		srcSize = v.size
		for i := 0; i < 1+r.N(20); i++ {
			op := deltaOp{copy: true, off: int64(r.U64() % (1 << 26) / 2), size: int64(1 + r.N(70000))}
			if op.size == 0x10000 {
				op.size--
			}
			ops = append(ops, encodeDeltaOp(op, 0)...)
			dstSize += op.size
		}
		want = dstSize
		room = int(dstSize)
	case 3: // small instructions that make a large result
		c.Note("delta: amplification")
		n := r.PickInt(1<<16, 1<<20)
		s := newSrc(bytes.Repeat([]byte("x"), n))
		src, calls, inSrc = s, func() int { return s.calls }, n
		k := r.N(200)
		if n > 1<<16 {
			k = r.N(20)
		}
		for i := 0; i < k; i++ {
			ops = append(ops, encodeDeltaOp(deltaOp{copy: true, size: int64(n)}, 0)...)
		}
		srcSize, dstSize = int64(n), int64(k*n)
		want = dstSize
		if r.P(50) {
			dstSize = int64(r.N(k*n + 1)) // less than the instructions make
			want = -1
			if dstSize == int64(k*n) {
				want = dstSize
			}
		}
		room = n
	}
	delta := append(append(varint(uint64(srcSize)), varint(uint64(dstSize))...), ops...)
	b := deltaFrag(delta, genLevel(r))
	if r.P(20) {
		b.Size = genClaim(r)
		if b.Size == math.MaxInt64 {
			b.Size--
		}
		if b.Size != int64(len(delta)) {
			want = -1
		}
	}
	if limit >= 0 && (b.Size > limit || dstSize > limit) {
		want = -1
	}
	what := fmt.Sprintf("delta: claims size %d, source %d, result %d; limit %d; has %d bytes", b.Size, srcSize, dstSize, limit, len(delta))
	c.Input("delta", what)
	c.Nontrivial(fnv64(string(delta), fmt.Sprint(b.Size, limit)), func() string { return what })
	max := dstSize
	if max > 1<<28 {
		max = 1 << 28
	}
	d := &dstCount{max: max}
	var err error
	used := measure(func() { err = gitdiff.Apply(d, src, binFile(b), opts...) })
	c.bound(what, used, 8, len(delta)+len(b.RawData)+inSrc+room+int(d.n))
	if want >= 0 && (err != nil || d.n != want) {
		c.Fail("%s: valid, but wrote %d bytes: %v", what, d.n, err)
	}
	if max := 2*len(delta) + 10; calls() > max {
		c.Fail("%s: %d reads of the source", what, calls())
	}
	if d.writes > 2*len(delta)+10 {
		c.Fail("%s: %d writes", what, d.writes)
	}
}

// dstCount counts what is written to it.
type dstCount struct {
	n, max int64
	writes int
}

func (d *dstCount) Write(p []byte) (int, error) {
	d.writes++
	d.n += int64(len(p))
	if d.n > d.max {
		panic(runaway{fmt.Sprintf("%d bytes written, the result has at most %d", d.n, d.max)})
	}
	return len(p), nil
}

package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C34", Quick: 700, Thorough: 14000,
		Rule: "A case makes one dimension of a patch, source or header large (up to 48 MB, 131072 files or fragments; sizes are spread evenly over orders of magnitude, and near powers of two), and compares what is parsed, applied and formatted with the parts it was made of. Distinct by dimension and size; non-trivial if the size is above 4096.",
		Run:  runC34,
		Floors: map[string]int{
			"long line": 30, "many lines": 30, "many fragments": 30, "many files": 30, "long preamble": 20, "much binary data": 30, "many instructions": 20, "far position": 20, "far offset": 20, "long name": 20, "long comment": 15, "long header": 30,
			"above 2^12": 400, "above 2^16": 200, "above 2^20": 50, "above 2^24": 5,
		},
	})
}

// scaled is a patch with its meaning.
type scaled struct {
	text     string
	preamble string
	want     []*gitdiff.File
	src, res []byte // of the first file, if not nil
}

// addText appends a file with a text change to the text and to the files.
func (s *scaled) addText(b *strings.Builder, f *gitdiff.File, head string) {
	b.WriteString(head)
	for _, t := range f.TextFragments {
		fmt.Fprintf(b, "@@ -%d,%d +%d,%d @@", t.OldPosition, t.OldLines, t.NewPosition, t.NewLines)
		if t.Comment != "" {
			b.WriteString(" " + t.Comment)
		}
		b.WriteByte('\n')
		for _, l := range t.Lines {
			b.WriteByte(" -+"[l.Op])
			b.WriteString(l.Line)
			if !strings.HasSuffix(l.Line, "\n") {
				b.WriteString("\n" + noEOL)
			}
		}
	}
	s.want = append(s.want, f)
}

func textHead(name string) string {
	return "diff --git a/" + name + " b/" + name + "\n--- a/" + name + "\n+++ b/" + name + "\n"
}

func textFile(name string, frags ...*gitdiff.TextFragment) *gitdiff.File {
	return &gitdiff.File{OldName: name, NewName: name, TextFragments: frags}
}

// scale picks a size up to a maximum, with all orders of magnitude alike.
func scale(r *Rng, max int) int {
	bits := 0
	for 1<<(bits+1) <= max {
		bits++
	}
	if r.P(12) {
		return max - r.N(max/2)
	}
	e := 9 + r.N(bits-8)
	n := 1 << e
	switch r.N(5) {
	case 0:
		n += r.N(3) - 1
	case 1:
		n += r.N(n)
	case 2:
		n += n / 2
	}
	if n > max {
		n = max
	}
	return n
}

// smallLine is the line with a number.
func smallLine(i int) string {
	return fmt.Sprintf("%x%s\n", i, "                "[:i%7])
}

func genScaled(r *Rng) (kind string, n int, s *scaled) {
	s = &scaled{}
	var b, src, res strings.Builder
	kind = r.Pick("long line", "many lines", "many fragments", "many files", "long preamble", "much binary data", "many instructions", "far position", "far offset", "long name", "long comment")
	put := func(t *gitdiff.TextFragment, op gitdiff.LineOp, line string) {
		t.Lines = append(t.Lines, gitdiff.Line{Op: op, Line: line})
		if op != gitdiff.OpAdd {
			src.WriteString(line)
		}
		if op != gitdiff.OpDelete {
			res.WriteString(line)
		}
	}
	same := func(line string) {
		src.WriteString(line)
		res.WriteString(line)
	}
	switch kind {
	case "long line":
		n = scale(r, 48<<20)
		long := strings.Repeat(r.Pick("x", "long ", "\xc3\xa9", "+ ", "@@ -1 +1 @@ "), n+1)[:n]
		t := &gitdiff.TextFragment{OldPosition: 2, NewPosition: 2}
		same("first\n")
		switch r.N(4) {
		case 0:
			put(t, gitdiff.OpContext, long+"\n")
			put(t, gitdiff.OpDelete, "old\n")
			put(t, gitdiff.OpAdd, "new\n")
		case 1:
			put(t, gitdiff.OpDelete, long+"\n")
			put(t, gitdiff.OpAdd, "new\n")
		case 2:
			put(t, gitdiff.OpDelete, "old\n")
			put(t, gitdiff.OpAdd, long+"\n")
		default:
			put(t, gitdiff.OpDelete, long)
			put(t, gitdiff.OpAdd, long+"\n")
		}
		if strings.HasSuffix(src.String(), "\n") {
			for i := r.N(3); i > 0; i-- {
				same(long[:n/2] + "\n")
			}
		}
		recount(t)
		s.addText(&b, textFile("x", t), textHead("x"))

	case "many lines":
		n = scale(r, 1<<20)
		t := &gitdiff.TextFragment{OldPosition: 1, NewPosition: 1}
		style := r.N(4)
		for i := 0; i < n; i++ {
			switch {
			case style == 0:
				put(t, gitdiff.OpAdd, smallLine(i))
			case style == 1:
				put(t, gitdiff.OpDelete, smallLine(i))
			case style == 2 && i%1000 != 500:
				put(t, gitdiff.OpContext, smallLine(i))
			default:
				put(t, []gitdiff.LineOp{gitdiff.OpContext, gitdiff.OpDelete, gitdiff.OpAdd}[i*7/3%3], smallLine(i))
			}
		}
		put(t, gitdiff.OpAdd, "last\n")
		put(t, gitdiff.OpContext, "end\n")
		recount(t)
		for i := r.N(5); i > 0; i-- {
			same(smallLine(i))
		}
		s.addText(&b, textFile("x", t), textHead("x"))

	case "many fragments":
		n = scale(r, 1<<17)
		var frags []*gitdiff.TextFragment
		old, new := 1, 1
		for i := 0; i < n; i++ {
			for j := i % 5; j > 0; j-- {
				same(smallLine(i + j))
				old++
				new++
			}
			t := &gitdiff.TextFragment{OldPosition: int64(old), NewPosition: int64(new)}
			put(t, gitdiff.OpContext, smallLine(i))
			if i%3 != 0 {
				put(t, gitdiff.OpDelete, "old\n")
			}
			if i%3 != 1 {
				put(t, gitdiff.OpAdd, "new\n")
			}
			recount(t)
			old += int(t.OldLines)
			new += int(t.NewLines)
			frags = append(frags, t)
		}
		s.addText(&b, textFile("x", frags...), textHead("x"))

	case "many files":
		n = scale(r, 1<<17)
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("dir%d/f%d", i%100, i)
			switch i % 4 {
			case 1:
				b.WriteString("diff --git a/" + name + " b/" + name + "\nold mode 100644\nnew mode 100755\n")
				s.want = append(s.want, &gitdiff.File{OldName: name, NewName: name, OldMode: 0o100644, NewMode: 0o100755})
			case 2:
				b.WriteString("diff --git a/" + name + " b/" + name + "x\nsimilarity index 100%\nrename from " + name + "\nrename to " + name + "x\n")
				s.want = append(s.want, &gitdiff.File{OldName: name, NewName: name + "x", IsRename: true, Score: 100})
			default:
				t := &gitdiff.TextFragment{OldPosition: 1, NewPosition: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpDelete, Line: smallLine(i)}, {Op: gitdiff.OpAdd, Line: "new\n"}}}
				recount(t)
				s.addText(&b, textFile(name, t), textHead(name))
			}
		}
		src.WriteString(smallLine(0))
		res.WriteString("new\n")

	case "long preamble":
		n = scale(r, 48<<20)
		line := r.Pick("text\n", "a longer line of text, without any meaning\n", "\n", "--- a\n", "@@ x\n")
		if r.P(30) {
			line = r.Pick("x", "long ")
		}
		s.preamble = strings.Repeat(line, n/len(line)+1)
		if !strings.HasSuffix(s.preamble, "\n") {
			s.preamble += "\n"
		}
		b.WriteString(s.preamble)
		t := &gitdiff.TextFragment{OldPosition: 1, NewPosition: 1}
		put(t, gitdiff.OpDelete, "old\n")
		put(t, gitdiff.OpAdd, "new\n")
		recount(t)
		s.addText(&b, textFile("x", t), textHead("x"))

	case "much binary data":
		n = scale(r, 24<<20)
		data := make([]byte, n)
		switch v := uint32(r.U64() | 1); r.N(3) {
		case 0: // does not compress
			for i := range data {
				v = v*1664525 + 1013904223
				data[i] = byte(v >> 24)
			}
		case 1:
			for i := range data {
				data[i] = byte(i >> 9)
			}
		}
		level := r.PickInt(0, 1)
		frag, back := litFrag(data, level), litFrag(nil, 1)
		if r.P(30) {
			back = litFrag(data[:n/2], level)
		}
		s.addBinary(&b, "x", frag, back)
		res.Write(data)

	case "many instructions":
		n = scale(r, 1<<20)
		size := 1 + r.N(1<<17)
		A := r.Bytes(size)
		src.Write(A)
		var delta []byte
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				off := i * 31 % size
				l := 1 + i%7
				if off+l > size {
					off, l = 0, 1
				}
				delta = append(delta, encodeDeltaOp(deltaOp{copy: true, off: int64(off), size: int64(l)}, 0)...)
				res.Write(A[off : off+l])
			} else {
				delta = append(delta, 2, byte(i), byte(i>>8))
				res.Write(delta[len(delta)-2:])
			}
		}
		delta = append(append(varint(uint64(size)), varint(uint64(res.Len()))...), delta...)
		s.addBinary(&b, "x", deltaFrag(delta, r.PickInt(0, 1)), litFrag(A, 1))

	case "far position":
		n = scale(r, 1<<20)
		for i := 0; i < n; i++ {
			same(smallLine(i))
		}
		t := &gitdiff.TextFragment{OldPosition: int64(n + 1), NewPosition: int64(n + 1)}
		put(t, gitdiff.OpContext, "here\n")
		put(t, gitdiff.OpAdd, "new\n")
		recount(t)
		for i := r.N(n); i > 0; i-- {
			same(smallLine(i))
		}
		s.addText(&b, textFile("x", t), textHead("x"))

	case "far offset":
		n = scale(r, 60<<20)
		lines := 1 + r.N(6)
		if r.P(30) {
			lines = 1 + r.N(300)
		}
		for i := 0; i < lines; i++ {
			same(strings.Repeat(string(rune('a'+i%26)), n/lines) + "\n")
		}
		t := &gitdiff.TextFragment{OldPosition: int64(lines + 1), NewPosition: int64(lines + 1)}
		put(t, gitdiff.OpDelete, "old\n")
		put(t, gitdiff.OpAdd, "new\n")
		put(t, gitdiff.OpContext, "here\n")
		recount(t)
		for i := r.N(4); i > 0; i-- {
			same(smallLine(i))
		}
		s.addText(&b, textFile("x", t), textHead("x"))

	case "long name":
		n = scale(r, 1<<20)
		name := strings.Repeat(r.Pick("x", "dir/", "\xc3\xa9", "\\", "ab cd "), n+1)[:n] + "x"
		if name = strings.ToValidUTF8(name, ""); strings.Contains(name, "x x") {
			name = strings.ReplaceAll(name, "x x", "xx")
		}
		q := func(prefix string) string { return gitQuote(prefix, name, true) }
		head := "diff --git " + q("a/") + " " + q("b/") + "\n"
		switch r.N(3) {
		case 0:
			b.WriteString(head + "old mode 100644\nnew mode 100755\n")
			s.want = append(s.want, &gitdiff.File{OldName: name, NewName: name, OldMode: 0o100644, NewMode: 0o100755})
		case 1:
			b.WriteString("diff --git " + q("a/") + " b/x\nsimilarity index 90%\nrename from " + q("") + "\nrename to x\n")
			s.want = append(s.want, &gitdiff.File{OldName: name, NewName: "x", IsRename: true, Score: 90})
		default:
			t := &gitdiff.TextFragment{OldPosition: 1, NewPosition: 1}
			put(t, gitdiff.OpDelete, "old\n")
			put(t, gitdiff.OpAdd, "new\n")
			recount(t)
			tab := ""
			if strings.Contains(name, " ") && q("")[0] != '"' {
				tab = "\t"
			}
			s.addText(&b, textFile(name, t), head+"--- "+q("a/")+tab+"\n+++ "+q("b/")+tab+"\n")
		}

	case "long comment":
		n = scale(r, 16<<20)
		t := &gitdiff.TextFragment{OldPosition: 1, NewPosition: 1}
		t.Comment = strings.TrimSpace(strings.Repeat(r.Pick("x", "func f() ", "@@ "), n+1)[:n])
		put(t, gitdiff.OpDelete, "old\n")
		put(t, gitdiff.OpAdd, "new\n")
		recount(t)
		s.addText(&b, textFile("x", t), textHead("x"))
	}
	s.text, s.src, s.res = b.String(), []byte(src.String()), []byte(res.String())
	return kind, n, s
}

func (s *scaled) addBinary(b *strings.Builder, name string, frag, back *gitdiff.BinaryFragment) {
	f := &gitdiff.File{OldName: name, NewName: name, OldOIDPrefix: "0123456", NewOIDPrefix: "89abcde", OldMode: os.FileMode(0o100644), IsBinary: true, BinaryFragment: frag, ReverseBinaryFragment: back}
	b.WriteString("diff --git a/" + name + " b/" + name + "\nindex 0123456..89abcde 100644\nGIT binary patch\n")
	for _, fr := range []*gitdiff.BinaryFragment{frag, back} {
		method := "literal"
		if fr.Method == gitdiff.BinaryPatchDelta {
			method = "delta"
		}
		b.WriteString(renderBinary(method, fr.Size, fr.RawData, 52))
	}
	s.want = append(s.want, f)
}

// scaleGate limits how many large cases are in memory at a time.
var scaleGate = make(chan struct{}, 3)

func runC34(c *Ctx) {
	r := c.R
	if c.Idx%9 == 0 {
		runScaledHeader(c)
		return
	}
	kind, n, s := genScaled(r)
	if len(s.text)+len(s.src) > 4<<20 {
		scaleGate <- struct{}{}
		defer func() { <-scaleGate }()
	}
	c.Input("dimension", fmt.Sprintf("%s: %d", kind, n))
	c.Note(kind)
	noteScale(c, kind, n)

	var in io.Reader
	switch r.N(4) {
	case 0:
		in = bytes.NewBufferString(s.text)
	case 1:
		in = bufio.NewReaderSize(strings.NewReader(s.text), 16)
	case 2:
		in = bufio.NewReaderSize(strings.NewReader(s.text), 1<<20)
	default:
		in = strings.NewReader(s.text)
	}
	files, pre, err := gitdiff.Parse(in)
	c.Eval()
	if err != nil {
		c.Fail("%s: %d: parsing failed: %v", kind, n, clip(err.Error(), 300))
	}
	if pre != s.preamble {
		c.Fail("%s: %d: preamble: %s", kind, n, diffAt(s.preamble, pre))
	}
	if d := filesDiff(s.want, files); d != "" {
		c.Fail("%s: %d: %s", kind, n, clip(d, 1000))
	}
	for _, f := range files {
		for i, t := range f.TextFragments {
			if err := t.Validate(); err != nil {
				c.Fail("%s: %d: fragment %d does not validate: %v", kind, n, i+1, err)
			}
		}
	}

	src, name := genSource(r, s.src)
	if kind == "many instructions" {
		src, name = bytes.NewReader(s.src), "bytes.Reader" // reads are not counted
	}
	got, err := applyTo(src, files[0], outputMax(len(s.src)+len(s.res)))
	c.Eval()
	if err != nil {
		c.Fail("%s: %d: applying to a %s failed: %v", kind, n, name, clip(err.Error(), 300))
	}
	want := s.res
	if len(files[0].TextFragments) == 0 && !files[0].IsBinary {
		want = s.src
	}
	if !bytes.Equal(got, want) {
		c.Fail("%s: %d: applying to a %s: %s", kind, n, name, diffAt(string(want), string(got)))
	}

	var all strings.Builder
	for _, f := range files {
		all.WriteString(f.String())
	}
	again, pre, err := parse(all.String())
	c.Eval()
	if err != nil {
		c.Fail("%s: %d: formatted text does not parse: %v", kind, n, clip(err.Error(), 300))
	}
	if pre != "" {
		c.Fail("%s: %d: formatted text has a preamble: %s", kind, n, clip(pre, 300))
	}
	if d := filesDiff(s.want, again); d != "" {
		c.Fail("%s: %d: after formatting: %s", kind, n, clip(d, 1000))
	}
}

func noteScale(c *Ctx, kind string, n int) {
	for _, e := range []uint{12, 16, 20, 24} {
		if n > 1<<e {
			c.Note(fmt.Sprintf("above 2^%d", e))
		}
	}
	if n > 4096 {
		c.Nontrivial(fnv64(kind, fmt.Sprint(n)), func() string { return fmt.Sprintf("%s: %d", kind, n) })
	}
}

// runScaledHeader makes a part of a patch header large.
func runScaledHeader(c *Ctx) {
	r := c.R
	kind := r.Pick("body", "body line", "title", "title lines", "author", "fields", "subject", "mail body", "appendix", "prefix")
	n := scale(r, 16<<20)
	switch kind {
	case "subject", "prefix":
		n = scale(r, 1<<20)
	case "fields", "title lines":
		n = scale(r, 1<<18)
	}
	c.Input("dimension", fmt.Sprintf("header %s: %d", kind, n))
	c.Note("long header")
	noteScale(c, "header "+kind, n)

	want := &gitdiff.PatchHeader{SHA: "0123456789abcdef0123456789abcdef01234567", Title: "title", Body: "body"}
	author := gitdiff.PatchIdentity{Name: "A U Thor", Email: "author@example.com"}
	want.Author = &author
	date := "Sat Apr 11 15:21:23 2020 -0700"
	want.AuthorDate, _ = gitdiff.ParsePatchDate(date)
	long := strings.TrimSpace(strings.Repeat(r.Pick("x", "long ", "\xc3\xa9", "- "), n+1)[:n]) + "x"
	extra := ""
	title := ""
	switch kind {
	case "body", "mail body":
		var b strings.Builder
		for i := 0; b.Len() < n; i++ {
			b.WriteString(r.Pick("line of text\n", "\nparagraph\n", "    code\n", "-- \n"))
		}
		want.Body = normText(b.String())
	case "body line":
		want.Body = long
	case "title":
		want.Title = long
	case "title lines":
		var ls []string
		for i := 0; i < n/4; i++ {
			ls = append(ls, "word")
		}
		want.Title = strings.Join(ls, " ")
		title = strings.Join(ls, "\n    ")
	case "author":
		author.Name = squeeze(long)
	case "fields":
		extra = strings.Repeat("X-Other: y\n", n)
	}
	var text string
	switch kind {
	case "subject", "mail body", "appendix", "prefix":
		subject := want.Title
		want.AuthorDate, _ = gitdiff.ParsePatchDate("Sat, 11 Apr 2020 15:21:23 -0700")
		switch kind {
		case "subject":
			want.Title = "x" + squeeze(long)
			subject = want.Title
		case "prefix":
			want.SubjectPrefix = strings.Repeat("[PATCH] ", n/8)
			subject = want.SubjectPrefix + want.Title
		}
		text = "From " + want.SHA + " Mon Sep 17 00:00:00 2001\nFrom: " + author.String() + "\nDate: Sat, 11 Apr 2020 15:21:23 -0700\nSubject: " + subject + "\n\n" + want.Body + "\n---\n"
		if kind == "appendix" {
			want.BodyAppendix = long
		} else {
			want.BodyAppendix = "x | 1 +"
		}
		text += want.BodyAppendix + "\n"
	default:
		if title == "" {
			title = want.Title
		}
		body := "    " + strings.ReplaceAll(want.Body, "\n", "\n    ")
		text = "commit " + want.SHA + "\n" + extra + "Author: " + author.Name + " <" + author.Email + ">\nDate:   " + date + "\n\n    " + title + "\n\n" + body + "\n"
	}
	h, err := gitdiff.ParsePatchHeader(text)
	c.Eval()
	if err != nil {
		c.Fail("header %s: %d: %v", kind, n, clip(err.Error(), 300))
	}
	if h.Author == nil || *h.Author != author {
		c.Fail("header %s: %d: author differs", kind, n)
	}
	if !h.AuthorDate.Equal(want.AuthorDate) || h.SHA != want.SHA {
		c.Fail("header %s: %d: date %v, SHA %q", kind, n, h.AuthorDate, clip(h.SHA, 100))
	}
	for _, f := range [][3]string{{"title", want.Title, h.Title}, {"body", want.Body, h.Body}, {"appendix", want.BodyAppendix, h.BodyAppendix}, {"subject prefix", want.SubjectPrefix, h.SubjectPrefix}} {
		if f[1] != f[2] {
			c.Fail("header %s: %d: %s: %s", kind, n, f[0], diffAt(f[1], f[2]))
		}
	}
	if m := h.Message(); m != want.Title+"\n\n"+want.Body {
		c.Fail("header %s: %d: message differs", kind, n)
	}
}

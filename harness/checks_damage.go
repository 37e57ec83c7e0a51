package main

import (
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// feed follows the counts of a fragment header over lines with the given
// operations. It returns true if the lines satisfy the counts at some point,
// so that the remaining lines would be read as unrelated text.
func feed(ops []byte, o, n int) bool {
	for _, op := range ops {
		if o <= 0 && n <= 0 {
			break
		}
		switch op {
		case ' ':
			o--
			n--
		case '-':
			o--
		case '+':
			n--
		}
	}
	return o == 0 && n == 0
}

// damageText returns a git patch for one file with a contradiction in its
// text part, or "" if there is no place for it.
func damageText(r *Rng, kind string, st Style) (string, string) {
	var f *FileSpec
	for {
		f = genSpec(r, specOpts{name: genSafeName, maxLines: 12, ctx: -1, atZero: true})
		if len(f.Hunks) > 0 {
			break
		}
	}
	hi := r.N(len(f.Hunks))
	h := f.Hunks[hi]
	ops := func() (b []byte) {
		for _, o := range h.Ops {
			b = append(b, o.K)
		}
		return
	}
	// a reader that stops as soon as the counts are satisfied would accept the
	// fragment and take the rest for other text
	strict := func() bool { return !feed(ops(), h.OldLines, h.NewLines) }
	h.Ops = append([]Op(nil), h.Ops...)
	i := r.N(len(h.Ops))
	raw := ""
	switch kind {
	case "remove line":
		h.Ops = append(h.Ops[:i], h.Ops[i+1:]...)
		if len(h.Ops) > 0 && !strings.HasSuffix(h.Ops[len(h.Ops)-1].T, "\n") {
			h.Ops[len(h.Ops)-1].T += "\n"
		}
		if feed(ops(), h.OldLines, h.NewLines) {
			return "", ""
		}
	case "insert line":
		k := " +-"[r.N(3)]
		h.Ops = append(h.Ops[:i:i], append([]Op{{k, "inserted\n"}}, h.Ops[i:]...)...)
		if !strict() {
			return "", ""
		}
	case "change marker":
		old := h.Ops[i].K
		for h.Ops[i].K == old {
			h.Ops[i].K = " +-"[r.N(3)]
		}
		if !strict() {
			return "", ""
		}
	case "bad marker":
		raw = string("xX@*/0d<>=!\t\r\x00\xff\\"[r.N(16)])
	case "counts":
		d := r.PickInt(1, 1, 2, 100, -1, -1)
		if r.P(50) {
			h.OldLines += d
		} else {
			h.NewLines += d
		}
		if h.OldLines < 0 || h.NewLines < 0 {
			return "", ""
		}
		if !strict() {
			return "", ""
		}
		if feed(ops(), h.OldLines, h.NewLines) && h.OldLines == 0 && h.NewLines == 0 {
			return "", ""
		}
	case "range":
	}
	f.Hunks[hi] = h
	text := f.renderGit(st)
	// find the fragment in the text
	pos := strings.Index(text, "\n@@ -") + 1
	for k := 0; k < hi; k++ {
		pos += len(render1(f.Hunks[k], st))
	}
	hdrEnd := pos + strings.IndexByte(text[pos:], '\n')
	switch kind {
	case "bad marker":
		p := hdrEnd + 1
		for k := 0; k < i; k++ {
			p += len(renderOp(h.Ops[k], st))
		}
		if text[p] == '\n' { // empty context line
			return "", ""
		}
		if raw == "\\" && strings.HasPrefix(text[p+1:], " ") {
			return "", ""
		}
		text = text[:p] + raw + text[p+1:]
	case "range":
		hdr := text[pos:hdrEnd]
		o, n := rangeStr(h.OldPos, h.OldLines, false), rangeStr(h.NewPos, h.NewLines, false)
		bad := r.Pick("x", "", "1,", ",1", "-1,1", "+1,1", "1,-1", "1,+1", "1.5,1", "0x1,1", "1,1,1", "99999999999999999999", "1,9223372036854775808", "1 ,1", "1, 1", "1_0,1", "\xd9\xa1", "1,1x", "1;1", "1,0x2")
		switch r.N(8) {
		case 0, 1, 2:
			hdr = "@@ -" + bad + " +" + n + " @@"
		case 3, 4, 5:
			hdr = "@@ -" + o + " +" + bad + " @@"
		case 6:
			hdr = r.Pick("@@ -"+o+" "+n+" @@", "@@ -"+o+" @@", "@@ -"+o+" +"+n+" +"+n+" @@", "@@ -"+o+"+"+n+" @@", "@@ -"+o+"  + "+n+" @@", "@@ - +"+n+" @@", "@@ -"+o+",+"+n+" @@")
		case 7:
			hdr = r.Pick("@@ -"+o+" +"+n, "@@ -"+o+" +"+n+" @", "@@ -"+o+" +"+n+"@@", "@@ -")
		}
		text = text[:pos] + hdr + text[hdrEnd:]
	}
	return text, fmt.Sprintf("%s in fragment %d", kind, hi+1)
}

func render1(h Hunk, st Style) string {
	var b strings.Builder
	renderHunk(&b, h, !st.LongRange, st.GnuEmpty, st.Marker)
	return b.String()
}

func renderOp(o Op, st Style) string {
	s := render1(Hunk{Ops: []Op{o}}, st)
	return s[strings.IndexByte(s, '\n')+1:]
}

// badHeaders are diffs with contradictory or invalid headers.
// otherName returns a name that differs from n.
func otherName(r *Rng, n string) string {
	base := n[strings.LastIndexByte(n, '/')+1:]
	for {
		o := r.Pick(n+"x", n+" ", "x"+n, "sub/"+n, n+"/"+base, base, n[:len(n)-1], n[1:], strings.ToUpper(n), strings.ToUpper(n[:1])+n[1:], "other/"+genSafeName(r), n+".orig", n+"~", "./"+n, strings.Replace(n, ".", "/", 1), n[:1]+"0"+n[2:])
		if o != n && o[0] != '/' && !strings.HasSuffix(o, "/") && !strings.Contains(o, "//") {
			return o
		}
	}
}

func badHeader(r *Rng) string {
	frag := "@@ -1 +1 @@\n-a\n+b\n"
	add := "@@ -0,0 +1 @@\n+b\n"
	del := "@@ -1 +0,0 @@\n-b\n"
	n := genSafeName(r)
	m := "other/" + genSafeName(r)
	dg := "diff --git a/" + n + " b/" + n + "\n"
	k := otherName(r, n) // is not n, but close to it
	l := otherName(r, m)
	bad := r.Pick("10064x", "", "8", "-1", "+100644", "0x1a4", "100 644", "999999999999999999999", "1e3", "-100644", "10_0644")
	score := r.Pick("x%", "%", "-5%", "+5%", "5.5%", "5 %", "", "99999999999999999999%", "1e1%", "5%%")
	num := r.Pick("x", "", "-1", "99999999999999999999", "1.5", "1 2", "0x10", "+-1", "1a", "10x", "1_0")
	line := ""
	// a first line that names two files
	two := func(n, m string) string {
		q := func(s string) string {
			switch r.N(5) {
			case 0:
				return `"` + s + `"`
			case 1:
				i := 2 + r.N(len(s)-2)
				return fmt.Sprintf("\"%s\\%03o%s\"", s[:i], s[i], s[i+1:])
			}
			return s
		}
		a, b := q("a/"+n), q("b/"+m)
		return "diff --git " + a + " " + b + "\n"
	}
	for {
		line = r.Pick(
			dg+"old mode "+bad+"\nnew mode 100755\n",
			dg+"old mode 100644\nnew mode "+bad+"\n",
			dg+"new file mode "+bad+"\n--- /dev/null\n+++ b/"+n+"\n"+add,
			dg+"deleted file mode "+bad+"\n--- a/"+n+"\n+++ /dev/null\n"+del,
			dg+"index 1234567..89abcde "+bad+"x\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			dg+"index 12345678 100644\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			dg+"index 1234567.89abcde\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			dg+"dissimilarity index "+score+"\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			"diff --git a/"+n+" b/"+m+"\nsimilarity index "+score+"\nrename from "+n+"\nrename to "+m+"\n",
			// names that contradict each other
			"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\nrename from "+n+"\nrename to "+m+"\n--- a/"+k+"\n+++ b/"+m+"\n"+frag,
			"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\nrename from "+n+"\nrename to "+m+"\n--- a/"+n+"\n+++ b/"+l+"\n"+frag,
			"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\ncopy from "+n+"\ncopy to "+m+"\n--- a/"+n+"\n+++ b/"+l+"\n"+frag,
			"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\ncopy from "+n+"\ncopy to "+m+"\n--- a/"+k+"\n+++ b/"+m+"\n"+frag,
			"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\nrename from "+n+"\nrename to "+m+"\n--- /dev/null\n+++ b/"+m+"\n"+frag,
			"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\nrename from "+n+"\nrename to "+m+"\n--- a/"+n+"\n+++ /dev/null\n"+frag,
			dg+"new file mode 100644\n--- a/"+n+"\n+++ b/"+n+"\n"+add,
			dg+"new file mode 100644\n--- a/"+k+"\n+++ b/"+n+"\n"+add,
			dg+"new file mode 100644\n--- /dev/null\n+++ b/"+k+"\n"+add,
			dg+"new file mode 100644\n--- /dev/null\n+++ /dev/null\n"+add,
			dg+"new file mode 100644\n--- a/dev/null\n+++ b/"+n+"\n"+add,
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ b/"+n+"\n"+del,
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ b/"+k+"\n"+del,
			dg+"deleted file mode 100644\n--- a/"+k+"\n+++ /dev/null\n"+del,
			dg+"deleted file mode 100644\n--- /dev/null\n+++ /dev/null\n"+del,
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ b/dev/null\n"+del,
			dg+"--- a/"+n+"\n+++ b/"+n+"\n--- a/"+k+"\n+++ b/"+n+"\n"+frag,
			dg+"--- a/"+n+"\n+++ b/"+n+"\n--- a/"+n+"\n+++ b/"+k+"\n"+frag,
			// missing names
			two(n, m)+"old mode 100644\nnew mode 100755\n",
			two(n, m)+"new file mode 100644\nindex 0000000..e69de29\n",
			two(n, m)+"rename from "+n+"\n",
			two(n, m)+"rename to "+n+"\n",
			two(n, k)+"old mode 100644\nnew mode 100755\n",
			two(n, k)+"deleted file mode 100644\nindex e69de29..0000000\n",
			two(n, m)+"index 1234567..89abcde 100644\n",
			two(n, m)+"similarity index 100%\n",
			two(n, m)+"copy to "+n+"\n",
			"diff --git \"a/"+n+"\"\nold mode 100644\nnew mode 100755\n",
			"diff --git \"a/"+n+"\" \nnew file mode 100644\nindex 0000000..e69de29\n",
			"diff --git \nold mode 100644\nnew mode 100755\n",
			"diff --git a/"+n+"\nold mode 100644\nnew mode 100755\n",
			"diff --git a/"+n+" b/"+m+"\n--- a/"+n+"\n"+frag,
			"diff --git a/"+n+" b/"+m+"\n+++ b/"+n+"\n"+frag,
			"diff --git a/"+n+" b/"+m+"\nrename from \nrename to "+m+"\n",
			dg+"--- \n+++ b/"+n+"\n"+frag,
			dg+"--- a/"+n+"\n+++ \n"+frag,
			"--- \n+++ b/"+n+"\n"+frag,
			"--- a/"+n+"\n+++ \n"+frag,
			// broken quoting
			"diff --git \"a/"+n+" b/"+n+"\nold mode 100644\nnew mode 100755\n",
			dg+"--- \"a/"+n+"\n+++ b/"+n+"\n"+frag,
			dg+"--- a/"+n+"\n+++ \"b/\\q"+n+"\"\n"+frag,
			"diff --git \"a/\\q"+n+"\" b/"+n+"\nold mode 100644\nnew mode 100755\n",
			"diff --git \"a/\\q"+n+"\" b/"+n+"\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			"diff --git \"a/"+n+"\" \"b/\\8"+n+"\"\nold mode 100644\nnew mode 100755\n",
			"diff --git \"a/"+n+"\" \"b/"+n+"\nold mode 100644\nnew mode 100755\n",
			"diff --git a/"+n+" \"b/"+n+"\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			"diff --git \"\" b/"+n+"\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			"diff --git a/"+n+" \"\"\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			"diff --git a/"+n+" \"b/\\400x\"\nold mode 100644\nnew mode 100755\n",
			"diff --git a/"+n+" b/"+m+"\nrename from \"\"\nrename to "+m+"\n",
			"diff --git a/"+n+"x\"b/"+n+"\"\nold mode 100644\nnew mode 100755\n",
			// operations that contradict the fragments
			dg+"new file mode 100644\n--- /dev/null\n+++ b/"+n+"\n@@ -1 +1,2 @@\n a\n+b\n",
			dg+"new file mode 100644\n--- /dev/null\n+++ b/"+n+"\n@@ -1 +1 @@\n-a\n+b\n",
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ /dev/null\n@@ -1,2 +1 @@\n a\n-b\n",
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ /dev/null\n@@ -1 +1 @@\n-a\n+b\n",
			"--- /dev/null\n+++ b/"+n+"\n@@ -1 +1,2 @@\n a\n+b\n",
			"--- /dev/null\n+++ b/"+n+"\n@@ -0,1 +1,2 @@\n a\n+b\n",
			dg+"new file mode 100644\n--- /dev/null\n+++ b/"+n+"\n@@ -0,1 +1 @@\n-a\n+b\n",
			dg+"new file mode 100644\n--- /dev/null\n+++ b/"+n+"\n@@ -0 +1,2 @@\n a\n+b\n",
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ /dev/null\n@@ -1,2 +0,1 @@\n a\n-b\n",
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ /dev/null\n@@ -1 +0 @@\n-a\n+b\n",
			dg+"new file mode 100644\n--- /dev/null\n+++ b/"+n+"\n"+add+"@@ -1 +2,2 @@\n a\n+b\n",
			dg+"new file mode 100644\n--- /dev/null\n+++ b/"+n+"\n"+add+"@@ -3 +4 @@\n-a\n+b\n",
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ /dev/null\n"+del+"@@ -2,2 +1 @@\n a\n-b\n",
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ /dev/null\n"+del+"@@ -2 +1 @@\n-a\n+b\n",
			dg+"--- a/"+n+"\n+++ b/"+n+"\n"+frag+"@@ -4,2 +4,2 @@\n a\n b\n",
			dg+"--- a/"+n+"\n+++ b/"+n+"\n"+frag+"@@ -4,2 +4,2 @@\n",
			"--- a/"+n+"\n+++ /dev/null\n@@ -1,2 +1 @@\n a\n-b\n",
			// fragments without changes or content
			dg+"--- a/"+n+"\n+++ b/"+n+"\n@@ -1,2 +1,2 @@\n a\n b\n",
			dg+"--- a/"+n+"\n+++ b/"+n+"\n@@ -1,2 +1,2 @@\n",
			dg+"--- a/"+n+"\n+++ b/"+n+"\n@@ -0,0 +0,0 @@\n",
			dg+"--- a/"+n+"\n+++ b/"+n+"\n@@ -1,0 +1,0 @@\n-a\n",
			// binary sizes
			dg+"GIT binary patch\nliteral "+num+"\nA00000\n\n",
			dg+"GIT binary patch\ndelta "+num+"\nA00000\n\n",
			dg+"GIT binary patch\nliteral 1\nA00000\n\ndelta "+num+"\nA00000\n\n",
			dg+"GIT binary patch\n",
			dg+"GIT binary patch",
			dg+"index 1234567..89abcde 100644\nGIT binary patch",
			dg+"GIT binary patch\nA00000\n\n",
			dg+"GIT binary patch\nliterals 10\nA00000\n\n",
			dg+"GIT binary patch\n\nliteral 1\nA00000\n\n",
			dg+"GIT binary patch\nliteral 1\n",
			dg+"GIT binary patch\nliteral 1\nA00000\n",
			dg+"GIT binary patch\nliteral 1\nA00000",
			dg+"GIT binary patch\nliteral 1\nA0000\n\n",
			dg+"GIT binary patch\nliteral 1\nE00000\n\n",
			dg+"GIT binary patch\nliteral 1\nA00000\nliteral 1\nA00000\n\n",
			dg+"GIT binary patch\nliteral 1\nA00000\n\nliteral 1\nB0000\n\n",
		)
		if strings.Contains(line, "+-1") || strings.Contains(line, "mode \n") && bad == "" || strings.Contains(line, "mode 100644x") {
			if strings.Contains(line, "mode \n") {
				return line
			}
			continue
		}
		return line
	}
}

func runC09(c *Ctx) {
	r := c.R
	if r.P(40) {
		runC09Mutated(c)
		return
	}
	st := genStyle(r)
	var b strings.Builder
	var want []*gitdiff.File
	for i := r.PickInt(0, 0, 1, 2); i > 0; i-- {
		f := genSpec(r, defaultSpecOpts(r))
		b.WriteString(f.renderGit(st))
		want = append(want, f.expected())
	}
	kind := r.Pick("remove line", "insert line", "bad marker", "change marker", "range", "range", "counts", "counts", "header", "header", "header", "orphan", "binary", "binary", "truncated")
	text, what := "", kind
	switch kind {
	case "header":
		if len(want) > 0 {
			b.WriteString("\n") // ends the file before
		}
		text = badHeader(r)
	case "orphan":
		sep := r.Pick("text\n", "\n\n", "-- \n", "Hello\n\n", "")
		if len(want) > 0 && sep == "" {
			sep = "text\n" // a fragment would belong to the file before
		}
		b.WriteString(sep)
		text = r.Pick("@@ -1 +1 @@\n-a\n+b\n", "@@ -0,0 +1 @@\n+a\n", "@@ -1,2 +1,2 @@ x\n a\n", "@@ -3,0 +4 @@\n", "@@ -1 +1 @@")
	case "binary":
		var f *FileSpec
		for f == nil || f.Binary != "literal" && f.Binary != "delta" || len(f.BinRaw) == 0 {
			f = genSpec(r, specOpts{name: genSafeName, maxLines: 3, binary: true, ctx: 3, noNoData: true})
		}
		text = f.renderGit(st)
		text, what = damageBinary(r, text)
	case "truncated":
		text, what = damageTruncate(r, st)
	default:
		text, what = damageText(r, kind, st)
	}
	if text == "" {
		c.Note("no damage possible")
		return
	}
	c.Note("damage: " + kind)
	b.WriteString(text)
	if kind != "truncated" && kind != "header" && kind != "binary" && r.P(40) {
		f := genSpec(r, defaultSpecOpts(r))
		b.WriteString(f.renderGit(st))
	}
	patch := b.String()
	c.Input("patch", patch)
	c.Nontrivial(fnv64(patch), func() string { return what + "\n" + patch })
	files, _, err := parse(patch)
	c.Eval()
	if err == nil {
		c.Fail("damaged patch was accepted (%s)", what)
	}
	if d := filesDiff(want, files); d != "" {
		c.Fail("files before the damage (%s): %s", what, d)
	}
	c.Note("damage rejected")
}

// damageBinary corrupts a line of the binary data so that it cannot be decoded.
func damageBinary(r *Rng, text string) (string, string) {
	p := strings.Index(text, "GIT binary patch\n") + len("GIT binary patch\n")
	head, rest := text[:p], text[p:]
	lines := strings.SplitAfter(rest, "\n")
	var data []int
	for i, l := range lines {
		if i > 0 && len(l) > 1 && !strings.HasPrefix(l, "literal ") && !strings.HasPrefix(l, "delta ") {
			data = append(data, i)
		}
	}
	i := data[r.N(len(data))]
	l := lines[i]
	switch r.N(10) {
	case 0: // foreign character
		j := 1 + r.N(len(l)-2)
		l = l[:j] + r.Pick(" ", "\"", "'", ",", "/", ".", ":", "[", "]", "\\", "\x00", "\xe9") + l[j+1:]
	case 1: // length letter
		n := byte('A')
		if l[0] == 'A' || l[0] == 'B' || l[0] == 'C' || l[0] == 'D' {
			n = 'E'
		}
		if l[0] >= 'E' {
			n = 'A'
		}
		l = string(n) + l[1:]
	case 2:
		l = r.Pick("0", "@", "[", "`", "{", " ", "~") + l[1:]
	case 3: // missing characters
		j := 1 + r.N(len(l)-2)
		l = l[:j] + l[j+1:]
	case 4: // extra characters
		j := 1 + r.N(len(l)-2)
		l = l[:j] + "0" + l[j:]
	case 5: // overflow
		j := 1 + 5*r.N((len(l)-2)/5)
		l = l[:j] + r.Pick("~~~~~", "|NsC1", "}}}}}") + l[j+5:]
	case 6: // group removed
		if len(l) > 7 {
			l = l[:1] + l[6:]
		} else {
			l = l[:1] + "\n"
		}
	case 7: // group added
		l = l[:len(l)-1] + "00000\n"
	case 8: // carriage return
		l = l[:len(l)-1] + "\r\n"
	case 9: // the line that ends the data
		for lines[i] != "\n" {
			i++
		}
		l = r.Pick("\r\n", " \n", "\t\n", "A\n", ".\n")
	}
	lines[i] = l
	return head + strings.Join(lines, ""), fmt.Sprintf("binary data line %d", i+1)
}

// damageTruncate cuts a patch inside a fragment.
func damageTruncate(r *Rng, st Style) (string, string) {
	if r.P(40) {
		var f *FileSpec
		for f == nil || f.Binary != "literal" && f.Binary != "delta" {
			f = genSpec(r, specOpts{name: genSafeName, maxLines: 3, binary: true, ctx: 3, noNoData: true})
		}
		f.RevMethod, f.BinRev = "", nil
		text := f.renderGit(st)
		p := strings.Index(text, "GIT binary patch\n") + len("GIT binary patch\n")
		// anywhere before the final empty line
		return text[:p+r.N(len(text)-p)], "truncated binary"
	}
	var f *FileSpec
	for f == nil || len(f.Hunks) == 0 {
		f = genSpec(r, specOpts{name: genSafeName, maxLines: 12, ctx: -1, atZero: true})
	}
	text := f.renderGit(st)
	h := f.Hunks[len(f.Hunks)-1]
	tail := len(render1(h, st))
	start := len(text) - tail
	hdr := strings.IndexByte(text[start:], '\n') + 1
	// after the header, before the last line
	ends := []int{}
	p := start + hdr
	for i := 0; i < len(h.Ops)-1; i++ {
		ends = append(ends, p)
		p += len(renderOp(h.Ops[i], st))
	}
	ends = append(ends, p)
	if last := text[p:]; r.P(30) {
		// in the last line, or before its line feed; it is no line that ends
		// without one, as it has no marker
		if i := strings.IndexByte(last, '\n'); i > 0 {
			return text[:p+1+r.PickInt(i-1, r.N(i))], "cut last line"
		}
	}
	return text[:ends[r.N(len(ends))]], "truncated text"
}

func runC09Mutated(c *Ctx) {
	r := c.R
	text := genMutated(r)
	c.Input("input", text)
	files, _, err := parse(text)
	c.Eval()
	if err != nil {
		c.Note("mutated rejected")
	} else {
		c.Note("mutated accepted")
	}
	for i, f := range files {
		if f == nil {
			c.Fail("file %d is nil", i+1)
		}
		if why := fileInvalid(f); why != "" {
			c.Fail("file %d of %d (error: %v): %s", i+1, len(files), err, why)
		}
	}
}

// fileInvalid checks the consistency of a parsed file.
func fileInvalid(f *gitdiff.File) string {
	if f.OldName == "" && !f.IsNew || f.NewName == "" && !f.IsDelete {
		return fmt.Sprintf("missing name: %q, %q", f.OldName, f.NewName)
	}
	if f.Score < 0 || f.Score > 100 {
		return fmt.Sprintf("score %d", f.Score)
	}
	if len(f.TextFragments) > 0 && (f.IsBinary || f.BinaryFragment != nil) {
		return "text and binary"
	}
	if f.BinaryFragment != nil && !f.IsBinary {
		return "binary fragment in text file"
	}
	if f.ReverseBinaryFragment != nil && f.BinaryFragment == nil {
		return "reverse fragment only"
	}
	for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
		if b != nil && (b.Size < 0 || b.Method != gitdiff.BinaryPatchDelta && b.Method != gitdiff.BinaryPatchLiteral) {
			return fmt.Sprintf("binary fragment with method %d and size %d", b.Method, b.Size)
		}
	}
	for i, t := range f.TextFragments {
		if t == nil {
			return fmt.Sprintf("fragment %d is nil", i+1)
		}
		why := modelInvalid(t)
		if why != "" && why != "position zero with old lines" {
			return fmt.Sprintf("fragment %d: %s", i+1, why)
		}
		if (t.Validate() != nil) != (why != "") {
			return fmt.Sprintf("fragment %d: Validate returns %v", i+1, t.Validate())
		}
		if t.LinesAdded == 0 && t.LinesDeleted == 0 {
			return fmt.Sprintf("fragment %d has no changes", i+1)
		}
		if f.IsNew && t.OldLines > 0 || f.IsDelete && t.NewLines > 0 {
			return fmt.Sprintf("fragment %d contradicts the operation", i+1)
		}
		for j, l := range t.Lines {
			if k := strings.IndexByte(l.Line, '\n'); k >= 0 && k != len(l.Line)-1 {
				return fmt.Sprintf("fragment %d, line %d contains a line break", i+1, j+1)
			}
		}
	}
	return ""
}

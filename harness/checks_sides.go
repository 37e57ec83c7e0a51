package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C27", Quick: 100000, Thorough: 1500000,
		Run:    runC27,
		Rule:   "A case parses a patch between two known contents, made by the harness or, every hundredth case, by git or GNU diff, and compares the old and the new side of every fragment, read through the accessors of its lines, with the lines of the contents at its positions. Distinct by patch text; non-trivial if it has a fragment.",
		Floors: map[string]int{"fragment": 900, "several fragments": 60, "insertion only": 50, "deletion only": 50, "no newline, old": 20, "no newline, new": 20, "git": 3, "diff": 3, "zero context": 50, "traditional": 50, "creation": 10, "deletion": 10},
	})
	register(&Check{
		ID: "C28", Quick: 120000, Thorough: 2000000,
		Run:    runC28,
		Rule:   "A case damages a patch at a known line and reads the line number in the error of the parser; then it parses the same with other text and diffs in front and expects the same message with the number moved by their lines. Distinct by text.",
		Floors: map[string]int{"header line": 100, "name line": 50, "range": 50, "operation": 50, "miscount": 50, "binary line": 50, "orphan": 50, "contradiction": 50, "moved": 900, "miscount: end of input": 5, "miscount: too many": 5},
	})
}

// ---- C27

// sidesDiff compares the fragments of a file with its old and new content.
func sidesDiff(f *gitdiff.File, a, b string) string {
	A, B := splitLines([]byte(a)), splitLines([]byte(b))
	oldEnd, newEnd := int64(0), int64(0) // lines before the current place
	for i, t := range f.TextFragments {
		bad := func(format string, args ...any) string {
			return fmt.Sprintf("fragment %d (%s): %s", i+1, strings.TrimSpace(t.Header()), fmt.Sprintf(format, args...))
		}
		at := func(pos, n int64) int64 {
			if n > 0 {
				return pos - 1
			}
			return pos
		}
		o, n := at(t.OldPosition, t.OldLines), at(t.NewPosition, t.NewLines)
		if o < oldEnd || n < newEnd || o+t.OldLines > int64(len(A)) || n+t.NewLines > int64(len(B)) {
			return bad("the positions are outside the contents of %d and %d lines, or before line %d and %d", len(A), len(B), oldEnd, newEnd)
		}
		if o-oldEnd != n-newEnd {
			return bad("%d unchanged lines before it on the old side, %d on the new", o-oldEnd, n-newEnd)
		}
		for k := int64(0); k < o-oldEnd; k++ {
			if A[oldEnd+k] != B[newEnd+k] {
				return bad("line %d before it differs", oldEnd+k+1)
			}
		}
		oi, ni := o, n
		var added, deleted, lead, trail int64
		for j, l := range t.Lines {
			where := fmt.Sprintf("line %d (%q)", j+1, clip(l.String(), 100))
			if l.NoEOL() == strings.HasSuffix(l.Line, "\n") {
				return bad("%s: NoEOL is %v", where, l.NoEOL())
			}
			var op string
			switch {
			case l.Old() && l.New():
				op = " "
				trail++
				if added+deleted == 0 {
					lead++
				}
			case l.Old():
				op = "-"
				deleted++
				trail = 0
			case l.New():
				op = "+"
				added++
				trail = 0
			default:
				return bad("%s is on neither side", where)
			}
			if l.Op.String() != op || l.String() != op+l.Line {
				return bad("%s has operation %q", where, l.Op.String())
			}
			if l.Old() {
				if oi >= o+t.OldLines {
					return bad("%s: more old lines than %d", where, t.OldLines)
				}
				if A[oi] != l.Line {
					return bad("%s: line %d of the old content is %q", where, oi+1, clip(A[oi], 100))
				}
				if l.NoEOL() && oi != int64(len(A))-1 {
					return bad("%s: no newline before the end", where)
				}
				oi++
			}
			if l.New() {
				if ni >= n+t.NewLines {
					return bad("%s: more new lines than %d", where, t.NewLines)
				}
				if B[ni] != l.Line {
					return bad("%s: line %d of the new content is %q", where, ni+1, clip(B[ni], 100))
				}
				if l.NoEOL() && ni != int64(len(B))-1 {
					return bad("%s: no newline before the end", where)
				}
				ni++
			}
		}
		if oi != o+t.OldLines || ni != n+t.NewLines {
			return bad("%d old and %d new lines", oi-o, ni-n)
		}
		if lead == int64(len(t.Lines)) {
			trail = 0
		}
		if added != t.LinesAdded || deleted != t.LinesDeleted || lead != t.LeadingContext || trail != t.TrailingContext {
			return bad("has %d added, %d deleted, %d leading, %d trailing lines; reported are %d, %d, %d, %d", added, deleted, lead, trail, t.LinesAdded, t.LinesDeleted, t.LeadingContext, t.TrailingContext)
		}
		oldEnd, newEnd = oi, ni
	}
	if len(f.TextFragments) == 0 {
		return ""
	}
	if int64(len(A))-oldEnd != int64(len(B))-newEnd {
		return fmt.Sprintf("after the fragments, %d lines are left on the old side and %d on the new", int64(len(A))-oldEnd, int64(len(B))-newEnd)
	}
	for k := range A[oldEnd:] {
		if A[int(oldEnd)+k] != B[int(newEnd)+k] {
			return fmt.Sprintf("line %d after the fragments differs", int(oldEnd)+k+1)
		}
	}
	return ""
}

func judgeSides(c *Ctx, what string, f *gitdiff.File, a, b string) {
	c.Eval()
	if d := sidesDiff(f, a, b); d != "" {
		c.Fail("%s: %s", what, d)
	}
	if len(f.TextFragments) > 1 {
		c.Note("several fragments")
	}
	for _, t := range f.TextFragments {
		c.Note("fragment")
		if t.OldLines == 0 {
			c.Note("insertion only")
		}
		if t.NewLines == 0 {
			c.Note("deletion only")
		}
		if t.LeadingContext+t.TrailingContext == 0 {
			c.Note("zero context")
		}
		for _, l := range t.Lines {
			if l.NoEOL() && l.Old() {
				c.Note("no newline, old")
			}
			if l.NoEOL() && l.New() {
				c.Note("no newline, new")
			}
		}
	}
	if f.IsNew {
		c.Note("creation")
	}
	if f.IsDelete {
		c.Note("deletion")
	}
}

func runC27(c *Ctx) {
	r := c.R
	switch {
	case c.Idx%100 == 0:
		runRealSides(c)
	case r.P(25):
		t := genTrad(r)
		text := t.render()
		c.Input("patch", text)
		c.Nontrivial(fnv64(text), func() string { return text })
		f := mustParse(c, text, 1)[0]
		c.Note("traditional")
		judgeSides(c, "traditional diff", f, t.A, t.B)
	default:
		f := genSpec(r, specOpts{name: genSafeName, maxLines: r.PickInt(10, 40, 40, 200), big: r.P(2), ctx: -1, atZero: true})
		if len(f.Hunks) == 0 {
			return
		}
		text := f.renderGit(genStyle(r))
		c.Input("patch", text)
		c.Nontrivial(fnv64(text), func() string { return text })
		judgeSides(c, "git diff", mustParse(c, text, 1)[0], string(f.A), string(f.B))
	}
}

// runRealSides compares two files with git or GNU diff.
func runRealSides(c *Ctx) {
	r := c.R
	dir, err := os.MkdirTemp("", "rsides")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	s := genScript(r, r.PickInt(0, 1, 5, 30, 100, 400), r.P(5))
	a, b := s.Old(), s.New()
	if a == b {
		return
	}
	for n, t := range map[string]string{"x": a, "y": b} {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(t), 0o644); err != nil {
			panic(err)
		}
	}
	tool := r.Pick("git", "diff")
	var args []string
	u := fmt.Sprintf("-U%d", r.PickInt(0, 1, 2, 3, 3, 3, 8, 100))
	if tool == "git" {
		args = []string{"diff", "--no-index", "--no-color", "-a", u}
		if r.P(40) {
			args = append(args, r.Pick("--patience", "--histogram", "--minimal", "-W", "--inter-hunk-context=3", "--no-indent-heuristic"))
		}
	} else {
		args = []string{"-a", u}
		if r.P(40) {
			args = append(args, r.Pick("-d", "-p", "--suppress-blank-empty", "--speed-large-files"))
		}
	}
	cmd := exec.Command(tool, append(args, "x", "y")...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + dir, "GIT_CONFIG_NOSYSTEM=1", "GIT_CONFIG_GLOBAL=/dev/null", "LC_ALL=C", "GIT_CEILING_DIRECTORIES=" + filepath.Dir(dir)}
	out, err := cmd.Output()
	if ee, ok := err.(*exec.ExitError); err != nil && (!ok || ee.ExitCode() > 1) {
		panic(fmt.Sprint(tool, ": ", err))
	}
	text := string(out)
	c.Input(tool+" "+strings.Join(args, " "), text)
	if contains(args, "-W") && overlappingHunks(text) {
		c.Note("hunks of git that overlap")
		return
	}
	c.Nontrivial(fnv64(text), func() string { return text })
	c.Note(tool)
	judgeSides(c, tool, mustParse(c, text, 1)[0], a, b)
}

// ---- C28

var errLine = regexp.MustCompile(`(?s)^gitdiff: line (\d+): (.*)$`)

// lineOf returns the number of the line of text that contains the offset.
func lineOf(text string, offset int) int { return strings.Count(text[:offset], "\n") + 1 }

// badLine is a git or traditional header with an invalid line, after "\x01".
func badLine(r *Rng) (string, string) {
	frag := "@@ -1 +1 @@\n-a\n+b\n"
	n, m := genSafeName(r), "other/"+genSafeName(r)
	dg := "diff --git a/" + n + " b/" + n + "\n"
	// lines that may stand before or after
	opt := func(s ...string) string {
		if r.P(50) {
			return r.Pick(s...)
		}
		return ""
	}
	mode, score := r.Pick("10064x", "8", "-1", "0x1a4", "1e3"), r.Pick("x%", "%", "5.5%", "1e1%", "-5%")
	ids := opt("index 1234567..89abcde\n", "index 1234567..89abcde 100644\n")
	body := ids + "--- a/" + n + "\n+++ b/" + n + "\n" + frag
	if r.P(50) {
		return "header line", r.Pick(
			dg+"\x01old mode "+mode+"\nnew mode 100755\n"+opt(body),
			dg+"old mode 100644\n\x01new mode "+mode+"\n"+opt(body),
			dg+"\x01new file mode "+mode+"\n"+ids+"--- /dev/null\n+++ b/"+n+"\n@@ -0,0 +1 @@\n+b\n",
			dg+"\x01deleted file mode "+mode+"\n"+ids+"--- a/"+n+"\n+++ /dev/null\n@@ -1 +0,0 @@\n-b\n",
			dg+opt("old mode 100644\nnew mode 100755\n")+"\x01index 12345678 100644\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			dg+"\x01index 1234567.89abcde\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			dg+"\x01index 1234567..89abcde "+mode+"\n--- a/"+n+"\n+++ b/"+n+"\n"+frag,
			dg+opt("old mode 100644\nnew mode 100755\n")+"\x01dissimilarity index "+score+"\n"+body,
			"diff --git a/"+n+" b/"+m+"\n"+opt("old mode 100644\nnew mode 100755\n")+"\x01similarity index "+score+"\nrename from "+n+"\nrename to "+m+"\n",
		)
	}
	q := r.Pick("\"a/"+n, "\"b/\\q"+n+"\"", "\"b/\\8\"", "\"b/"+n+"\\", "\"\\400\"")
	k := otherName(r, n)
	return "name line", r.Pick(
		"\x01diff --git "+q+" b/"+n+"\n"+body,
		dg+ids+"\x01--- "+q+"\n+++ b/"+n+"\n"+frag,
		dg+ids+"--- a/"+n+"\n\x01+++ "+q+"\n"+frag,
		"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\n\x01rename from "+q+"\nrename to "+m+"\n",
		"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\nrename from "+n+"\n\x01rename to "+q+"\n",
		"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\ncopy from "+n+"\n\x01copy to "+q+"\n",
		"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\nrename from "+n+"\nrename to "+m+"\n"+ids+"\x01--- a/"+k+"\n+++ b/"+m+"\n"+frag,
		"diff --git a/"+n+" b/"+m+"\nsimilarity index 90%\nrename from "+n+"\nrename to "+m+"\n"+ids+"--- a/"+n+"\n\x01+++ b/"+otherName(r, m)+"\n"+frag,
		dg+"new file mode 100644\n"+ids+"\x01--- a/"+n+"\n+++ b/"+n+"\n@@ -0,0 +1 @@\n+b\n",
		dg+"new file mode 100644\n"+ids+"--- /dev/null\n\x01+++ b/"+k+"\n@@ -0,0 +1 @@\n+b\n",
		dg+"deleted file mode 100644\n"+ids+"--- a/"+n+"\n\x01+++ b/"+n+"\n@@ -1 +0,0 @@\n-b\n",
		dg+"deleted file mode 100644\n"+ids+"\x01--- a/"+k+"\n+++ /dev/null\n@@ -1 +0,0 @@\n-b\n",
		"\x01--- "+q+"\n+++ "+n+"\n"+frag,
		"--- "+n+"\n\x01+++ "+q+"\n"+frag,
	)
}

// faultOf follows a fragment from its header on and returns the number of the
// line that is at fault: the first one that cannot belong to a fragment, or
// the header if its counts do not match the lines. It returns 0 if nothing is
// wrong, up to the end of the fragment.
func faultOf(text string, header int) (int, string) {
	ls := strings.SplitAfter(text, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	o, n := int64(1), int64(1)
	h := strings.Fields(ls[header-1])
	scan := func(s string, v *int64) {
		if i := strings.IndexByte(s, ','); i >= 0 {
			x, err := strconv.ParseInt(s[i+1:], 10, 64)
			if err != nil {
				panic(err)
			}
			*v = x
		}
	}
	scan(h[1], &o)
	scan(h[2], &n)
	changes := false
	i := header
	for o > 0 || n > 0 {
		if i >= len(ls) {
			return header, "miscount: end of input"
		}
		l := ls[i]
		switch {
		case l[0] == ' ' || l[0] == '\n':
			o--
			n--
		case l[0] == '-':
			o--
			changes = true
		case l[0] == '+':
			n--
			changes = true
		case l[0] == '\\' && len(l) >= 12 && l[1] == ' ':
		default:
			return i + 1, "operation"
		}
		i++
	}
	if o < 0 || n < 0 {
		return header, "miscount: too many"
	}
	if !changes {
		return -1, ""
	}
	return 0, ""
}

func runC28(c *Ctx) {
	r := c.R
	st := genStyle(r)
	text, kind := "", ""
	lo, hi := 0, 0 // the error must name one of these lines
	switch r.N(10) {
	case 0, 1, 2: // an invalid line in a header
		kind, text = badLine(r)
		i := strings.IndexByte(text, '\x01')
		text = text[:i] + text[i+1:]
		lo = lineOf(text, i)
		hi = lo
	case 3: // a binary line
		var f *FileSpec
		for f == nil || f.Binary != "literal" && f.Binary != "delta" || len(f.BinRaw) == 0 {
			f = genSpec(r, specOpts{name: genSafeName, maxLines: 3, binary: true, ctx: 3, noNoData: true})
		}
		good := f.renderGit(st)
		kind = "binary line"
		if r.P(25) { // a size, or nothing but the first line
			i := strings.Index(good, "\nGIT binary patch\n") + 18
			lo = lineOf(good, i)
			hi = lo
			rest := good[i+strings.IndexByte(good[i:], '\n'):]
			text = good[:i] + r.Pick(f.Binary+" x"+rest, f.Binary+" "+rest, f.Binary+" -5"+rest, f.Binary+" 99999999999999999999"+rest, f.Binary+" 0x10"+rest, "deltas 5"+rest, "", "\n", rest, "text\n")
			break
		}
		text, _ = damageBinary(r, good)
		i := 0
		for text[i] == good[i] {
			i++
		}
		lo = lineOf(good, i)
		hi = lo
	case 4: // a fragment without a file
		kind = "orphan"
		text = r.Pick("text\n", "\n\n", "-- \n", "Hello\n\n", "")
		lo = strings.Count(text, "\n") + 1
		hi = lo
		text += r.Pick("@@ -1 +1 @@\n-a\n+b\n", "@@ -0,0 +1 @@\n+a\n", "@@ -1,2 +1,2 @@ x\n a\n", "@@ -3,0 +4 @@\n", "@@ -1 +1 @@")
	case 5: // a fragment that contradicts the header
		kind = "contradiction"
		n := genSafeName(r)
		dg := "diff --git a/" + n + " b/" + n + "\n"
		add, del := "@@ -0,0 +1,2 @@\n+b\n+c\n", "@@ -1,2 +0,0 @@\n-b\n-c\n"
		if r.P(50) {
			add, del = "", ""
		}
		text = r.Pick(
			dg+"new file mode 100644\n--- /dev/null\n+++ b/"+n+"\n"+add+"\x01@@ -1 +1,2 @@\n a\n+b\n",
			dg+"new file mode 100644\n--- /dev/null\n+++ b/"+n+"\n"+add+"\x01@@ -5 +6 @@\n-a\n+b\n",
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ /dev/null\n"+del+"\x01@@ -1,2 +1 @@\n a\n-b\n",
			dg+"deleted file mode 100644\n--- a/"+n+"\n+++ /dev/null\n"+del+"\x01@@ -1 +1 @@\n-a\n+b\n",
			"--- /dev/null\n+++ "+n+"\n"+add+"\x01@@ -1 +1,2 @@\n a\n+b\n",
			"--- "+n+"\n+++ /dev/null\n"+del+"\x01@@ -1,2 +1 @@\n a\n-b\n",
		)
		i := strings.IndexByte(text, '\x01')
		text = text[:i] + text[i+1:]
		lo = lineOf(text, i)
		hi = lo
	default: // a damaged fragment
		var f *FileSpec
		for f == nil || len(f.Hunks) == 0 {
			f = genSpec(r, specOpts{name: genSafeName, maxLines: 12, ctx: -1, atZero: true})
		}
		good := f.renderGit(st)
		if r.P(60) {
			good += genGarbage(r, true)
		}
		// the lines of the fragments
		pos := strings.Index(good, "\n@@ -") + 1
		hk := r.N(len(f.Hunks))
		for k := 0; k < hk; k++ {
			pos += len(render1(f.Hunks[k], st))
		}
		header := lineOf(good, pos)
		h := f.Hunks[hk]
		ls := strings.SplitAfter(good, "\n")
		body := strings.Count(render1(h, st), "\n") - 1 // lines after the header
		switch r.N(6) {
		case 0: // an invalid range
			bad := r.Pick("x", "1,", "-1,1", "1.5,1", "99999999999999999999", "1,1x")
			ls[header-1] = r.Pick("@@ -"+bad+" +1 @@\n", "@@ -1 +"+bad+" @@\n", "@@ -1 1 @@\n", "@@ -1 +1\n", "@@ -1 +1 @\n")
			kind, lo, hi = "range", header, header
		case 1: // counts
			d := r.PickInt(1, 1, 2, 100, -1, -1)
			if r.P(50) {
				h.OldLines += d
			} else {
				h.NewLines += d
			}
			if h.OldLines < 0 || h.NewLines < 0 {
				c.Note("no damage possible")
				return
			}
			ls[header-1] = render1(Hunk{OldPos: h.OldPos, OldLines: h.OldLines, NewPos: h.NewPos, NewLines: h.NewLines, Comment: h.Comment}, st)
		case 2: // a line less
			i := header + r.N(body)
			ls = append(ls[:i:i], ls[i+1:]...)
		case 3: // a line more
			i := header + r.N(body)
			ls = append(ls[:i:i], append([]string{r.Pick(" x\n", "-x\n", "+x\n")}, ls[i:]...)...)
		case 4: // another operation
			i := header + r.N(body)
			if ls[i] == "" || ls[i] == "\n" {
				c.Note("no damage possible")
				return
			}
			ls[i] = r.Pick(" ", "+", "-", "x", "@", "\t", "*", "\x00") + ls[i][1:]
			if r.P(20) { // lines like the marker for a missing newline
				ls[i] = r.Pick("\\ 12345678\n", "\\ 123456789\n", "\\x no newline at the end\n", "\\\n", "\\No newline at end of file\n", "\\\tNo newline at end of file\n")
			}
		case 5: // the end is missing
			ls = ls[:header+r.N(body)]
		}
		text = strings.Join(ls, "")
		if kind != "" {
			break
		}
		fault, what := faultOf(text, header)
		if f.Kind == "create" && h.OldLines > 0 || f.Kind == "delete" && h.NewLines > 0 {
			fault, what = header, "contradiction"
		}
		if fault == 0 {
			c.Note("no damage possible")
			return
		}
		if strings.HasPrefix(what, "miscount") {
			c.Note(what)
			what = "miscount"
		}
		kind, lo, hi = what, fault, fault
		if text[strings.LastIndexByte(text[:len(text)-1], '\n')+1:] == ls[header-1] && fault == header {
			hi++ // nothing follows: the end of the input is at fault as well
		}
		if fault < 0 {
			kind, lo, hi = "no changes", header, header+body+1
		}
	}
	c.Input("patch", text)
	c.Nontrivial(fnv64(text), func() string { return kind + "\n" + text })
	_, _, err := parse(text)
	c.Eval()
	if err == nil {
		c.Fail("a damaged patch was accepted (%s)", kind)
	}
	m := errLine.FindStringSubmatch(err.Error())
	if m == nil {
		c.Fail("the error has no line number: %q", err)
	}
	n, _ := strconv.Atoi(m[1])
	if n < lo || n > hi {
		c.Fail("%s: the error is in line %d, reported is %q", kind, lo, err)
	}
	c.Note(kind)

	// other text in front moves the number and changes nothing else
	var b strings.Builder
	for i := 1 + r.N(3); i > 0; i-- {
		switch r.N(3) {
		case 0:
			b.WriteString(genGarbage(r, b.Len() > 0))
		case 1:
			b.WriteString(genSpec(r, defaultSpecOpts(r)).renderGit(st))
		default:
			b.WriteString(strings.Repeat(r.Pick("\n", "text\n", "x\r\n"), 1+r.N(5)))
		}
	}
	// ends a file or fragment before, and cannot be a part of the header
	b.WriteString("end\n")
	front := b.String()
	c.ResetInputs()
	c.Input("patch", front+text)
	_, _, err2 := parse(front + text)
	c.Eval()
	want := fmt.Sprintf("gitdiff: line %d: %s", n+strings.Count(front, "\n"), m[2])
	if err2 == nil || err2.Error() != want {
		c.Fail("%s: with %d lines in front, want the error %q, got %v", kind, strings.Count(front, "\n"), want, err2)
	}
	c.Note("moved")
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C01", Quick: 192000, Thorough: 1200000,
		Rule:   "A case is a random edit script with its old and new content, rendered with a random context width and grouping, parsed and applied to conforming sources; it is non-trivial if the patch has at least one fragment, and distinct by content and fragment layout.",
		Run:    runC01,
		Floors: map[string]int{"apply_ok": 1500, "fragments>=2": 150, "several fragments at one position": 4, "ctx=0": 60, "no newline": 60, "long line": 5, "many lines": 5, "chunk boundary": 2, "source: line source": 30, "source: eager EOF source": 30},
		Known:  knownC01,
		Assumptions: []string{
			"Zero-context fragments at position zero of a file with other content are excluded: see known-findings.txt.",
		},
	})
	register(&Check{
		ID: "C02", Quick: 200000, Thorough: 2500000,
		Rule:   "A case applies a patch to a source that was edited, or an edited patch to its source, and compares result, error type, error location and output with a reference model; non-trivial if the model says that it must fail, distinct by source and fragments.",
		Run:    runC02,
		Floors: map[string]int{"apply_ok": 50, "conflict: mismatch": 150, "conflict: short source": 30, "conflict: overlap": 10, "conflict in another order": 5, "conflict: new file from non-empty source": 3, "conflict: content after full delete": 2, "rejected: invalid fragment": 10},
	})
	register(&Check{
		ID: "C20", Quick: 960000, Thorough: 6000000,
		Rule:   "A case is a fragment, built consistently or changed in one or more fields or lines; Validate is compared with a recount. Non-trivial if the recount finds it invalid; distinct by content.",
		Run:    runC20,
		Floors: map[string]int{"valid": 100, "old lines": 10, "new lines": 10, "added lines": 5, "deleted lines": 5, "leading context": 5, "trailing context": 5, "negative position": 2, "position zero with old lines": 2, "unknown operation": 5},
	})
	register(&Check{
		ID: "C19", Quick: 200000, Thorough: 2000000,
		Rule:   "A case is a history of up to twelve calls on a text or binary applier; after each call, error and output are compared with a state machine. Non-trivial if the history contains a failing call or calls after Close; distinct by history and content.",
		Run:    runC19,
		Floors: map[string]int{"text: apply ok": 300, "text: overlap rejected": 80, "text: apply after close": 100, "text: second close": 100, "text: invalid": 50, "text: conflict": 25, "text: stopped within a fragment": 25, "binary: second apply": 50, "binary: apply after close": 50, "binary: close copies": 20, "text: write failed in apply": 5, "text: write failed at a line": 4, "text: write failed in close": 5, "binary: write failed in apply": 3, "binary: write failed in close": 2},
	})
}

// textCase makes content and fragments for one file.
type textCase struct {
	A, B   string
	script Script
	hunks  []Hunk
	ctx    int
	patch  string
	kind   string
}

func genTextCase(c *Ctx, allowZero bool) textCase {
	r := c.R
	var t textCase
	n := r.N(25)
	big := false
	switch k := r.N(1000); {
	case k < 12:
		// around the number of lines that implementations read at once
		n = r.PickInt(31, 32, 33, 63, 64, 65, 4095, 4096, 4097, 8191, 8192, 8193, 12289)
		c.Note("many lines")
	case k < 40:
		n = 100 + r.N(900)
		c.Note("many lines")
	case k < 100:
		big = true
		n = r.N(12)
	case k < 150:
		n = 1
	case k < 170:
		n = 0
	}
	s := genScript(r, n, big)
	if r.P(8) && n > 40 || r.P(2) {
		s = farChange(r, s)
	}
	if r.P(85) {
		s = s.gitOrder()
	}
	t.kind = "modify"
	if r.P(12) {
		t.kind = r.Pick("create", "delete")
		k := byte('+')
		if t.kind == "delete" {
			k = '-'
		}
		u := make(Script, len(s))
		for i, op := range s {
			if i < len(s)-1 && !strings.HasSuffix(op.T, "\n") {
				op.T += "\n"
			}
			u[i] = Op{k, op.T}
		}
		s = u
	}
	t.script = s
	t.A, t.B = s.Old(), s.New()
	t.ctx = r.PickInt(3, 3, 3, 0, 0, 1, 2, 5, 10, 1000)
	loose := r.P(30)
	t.hunks = s.hunksSplit(r, t.ctx, loose, allowZero, loose && t.A != "" && t.B != "" && r.P(40))
	if samePosition(toFragments(t.hunks)) {
		c.Note("several fragments at one position")
	}
	if t.ctx == 0 {
		c.Note("ctx=0")
	}
	if len(t.hunks) >= 2 {
		c.Note("fragments>=2")
	}
	for _, o := range s {
		if !strings.HasSuffix(o.T, "\n") {
			c.Note("no newline")
			break
		}
	}
	for _, o := range s {
		if len(o.T) > 1000 {
			c.Note("long line")
			break
		}
	}
	var b strings.Builder
	st := genStyle(r)
	name := genSafeName(r)
	left, right := st.OldPrefix+name, st.NewPrefix+name
	switch r.N(3) {
	case 0: // traditional
	default:
		fmt.Fprintf(&b, "diff --git %s %s\n", left, right)
		switch t.kind {
		case "create":
			b.WriteString("new file mode 100644\n")
		case "delete":
			b.WriteString("deleted file mode 100644\n")
		}
		fmt.Fprintf(&b, "index %s..%s\n", oid([]byte(t.A))[:7], oid([]byte(t.B))[:7])
	}
	if t.A == "" && t.kind == "create" {
		left = "/dev/null"
	}
	if t.B == "" && t.kind == "delete" {
		right = "/dev/null"
	}
	fmt.Fprintf(&b, "--- %s\n+++ %s\n", left, right)
	for _, h := range t.hunks {
		renderHunk(&b, h, !st.LongRange, st.GnuEmpty, st.Marker)
	}
	t.patch = b.String()
	return t
}

// farChange makes a script with unchanged stretches around read-ahead sizes.
func farChange(r *Rng, s Script) Script {
	var out Script
	for i := 0; i < 1+r.N(3); i++ {
		n := r.PickInt(4096, 8192, 32, 1024) + r.Range(-5, 5)
		if r.P(30) {
			n = r.N(9000)
		}
		for j := 0; j < n; j++ {
			out = append(out, Op{' ', fmt.Sprintf("%d.%d\n", i, j%97)})
		}
		if r.P(30) {
			k := byte("+-"[r.N(2)])
			m := r.PickInt(4096, 1, 31, 33) + r.N(3)
			for j := 0; j < m; j++ {
				out = append(out, Op{k, fmt.Sprintf("x%d\n", j%13)})
			}
		} else {
			out = append(out, Op{'-', "old\n"}, Op{'+', "new\n"})
		}
	}
	for _, o := range s {
		if !strings.HasSuffix(o.T, "\n") {
			o.T += "\n"
		}
		out = append(out, o)
	}
	out.setEOL(r)
	return out
}

func runC01(c *Ctx) {
	r := c.R
	t := genTextCase(c, false)
	c.Input("patch", clip(t.patch, 20000))
	c.Input("source", clip(t.A, 20000))
	if len(t.A) > 3000 && strings.Count(t.A, "\n") > 4000 {
		c.Note("chunk boundary")
	}
	files := mustParse(c, t.patch, 1)
	f := files[0]
	if len(t.hunks) > 0 {
		c.Nontrivial(fnv64(t.A, t.B, hunkShape(t.hunks)), func() string { return t.patch })
	}
	max := outputMax(len(t.A) + len(t.B))
	check := func(what string, got []byte, err error) {
		c.Eval()
		if err != nil {
			c.Fail("%s: applying the patch to the content it was made from failed: %v", what, err)
		}
		if string(got) != t.B {
			c.Fail("%s: wrong result: %s", what, diffAt(t.B, string(got)))
		}
		c.Note("apply_ok")
	}
	src, name := genSource(r, []byte(t.A))
	c.Note("source: " + name)
	got, err := applyTo(src, f, max)
	check("Apply with "+name, got, err)

	src, name = genSource(r, []byte(t.A))
	c.Note("source: " + name)
	got, err = applyFragments(src, f.TextFragments, max)
	check("fragment by fragment with "+name, got, err)

	if r.P(50) {
		g := *f
		g.TextFragments = shuffled(r, toFragments(t.hunks))
		src, name = genSource(r, []byte(t.A))
		c.Note("source: " + name)
		c.Note("other order")
		got, err = applyTo(src, &g, max)
		check("Apply with fragments in another order, "+name, got, err)
	}
	if t.A != "" && r.P(5) {
		// no changes: everything is copied
		g := &gitdiff.File{OldName: "x", NewName: "x", OldMode: 0o100644, NewMode: 0o100755}
		src, name = genSource(r, []byte(t.A))
		d := newDst(max)
		if err := gitdiff.Apply(d, src, g); err != nil || string(d.got) != t.A {
			c.Fail("file without content changes, %s: not copied unchanged: %v, %s", name, err, diffAt(t.A, string(d.got)))
		}
		c.Note("unchanged copy")
	}
}

// knownC01 shows that the recorded findings still fail.
func knownC01() (out []string) {
	for _, k := range []struct{ name, patch, a, b string }{
		{"zero-context insertion at the top of a non-empty file (@@ -0,0 +1 @@) is refused with a conflict", "--- a/x\n+++ b/x\n@@ -0,0 +1 @@\n+new\n", "old\n", "new\nold\n"},
		{"zero-context deletion of the first lines of a longer file (@@ -1 +0,0 @@) is refused with a conflict", "--- a/x\n+++ b/x\n@@ -1 +0,0 @@\n-old\n", "old\nrest\n", "rest\n"},
	} {
		files, _, err := parse(k.patch)
		if err != nil || len(files) != 1 {
			continue
		}
		got, err := applyTo(newSrc([]byte(k.a)), files[0], 1000)
		if err != nil || string(got) != k.b {
			out = append(out, k.name)
		}
	}
	return
}

func runC02(c *Ctx) {
	r := c.R
	t := genTextCase(c, true)
	frags := toFragments(t.hunks)
	src := t.A
	n := r.PickInt(0, 1, 1, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		if r.P(65) {
			src = mutateSource(r, src, frags)
		} else {
			frags = mutateFragments(r, frags, src)
		}
	}
	if ambiguous(frags) && !sortedByPosition(frags) {
		c.Note("skipped: order undefined")
		return
	}
	viaText := n == 0 || r.P(20)
	file := &gitdiff.File{OldName: "x", NewName: "x", TextFragments: frags}
	if viaText {
		// through the parser, if the fragments can be written as a patch
		if files, _, err := parse(file.String()); err == nil && len(files) == 1 && fileDiff(file, files[0]) == "" {
			file = files[0]
			c.Note("through the parser")
		}
	}
	want := modelApply([]byte(src), frags)
	if want.conflict && !sortedByPosition(frags) {
		c.Note("conflict in another order")
	}
	if len(frags) == 0 {
		want = applyOutcome{ok: true, out: src}
	}
	c.Input("source", clip(src, 20000))
	c.Input("patch", clip(file.String(), 20000))
	if !want.ok {
		c.Nontrivial(fnv64(src, file.String()), func() string { return want.why + "\n" + src + "\n" + file.String() })
	}
	max := outputMax(len(src) + oldSize(frags))
	s, name := genSource(r, []byte(src))
	got, err := applyTo(s, file, max)
	judgeApply(c, want, got, err, "Apply with "+name)
	if sortedByPosition(frags) && len(frags) > 0 && r.P(40) {
		s, name = genSource(r, []byte(src))
		got, err = applyFragments(s, file.TextFragments, max)
		w := want
		w.frag = -1
		judgeApply(c, w, got, err, "fragment by fragment with "+name)
	}
}

// mutateSource makes a small edit that often breaks the match.
func mutateSource(r *Rng, src string, frags []*gitdiff.TextFragment) string {
	lines := splitLines([]byte(src))
	pick := func() int {
		// near a fragment, usually
		if len(frags) > 0 && r.P(75) {
			f := frags[r.N(len(frags))]
			i := int(f.OldPosition) - 1 + r.Range(-1, int(f.OldLines)+1)
			if i >= 0 && i < len(lines) {
				return i
			}
		}
		return r.N(len(lines))
	}
	if len(lines) == 0 {
		return r.Pick("", "x", "x\n", "\n", "a\nb\n")
	}
	switch r.N(14) {
	case 0: // final newline
		if strings.HasSuffix(src, "\n") {
			return src[:len(src)-1]
		}
		return src + "\n"
	case 1: // remove the last line
		return strings.Join(lines[:len(lines)-1], "")
	case 2: // truncate
		return strings.Join(lines[:r.N(len(lines))], "")
	case 3:
		return src + r.Pick("extra\n", "\n", "extra", lines[len(lines)-1])
	case 4: // swap neighbours
		i := pick()
		if i+1 < len(lines) {
			lines[i], lines[i+1] = lines[i+1], lines[i]
			if !strings.HasSuffix(lines[i], "\n") {
				lines[i] += "\n"
			}
		}
	case 5: // duplicate
		i := pick()
		lines = append(lines[:i+1], lines[i:]...)
		if !strings.HasSuffix(lines[i], "\n") {
			lines[i] += "\n"
		}
	case 6: // delete
		i := pick()
		lines = append(lines[:i], lines[i+1:]...)
	case 7: // insert
		i := pick()
		rest := append([]string{r.Pick("new\n", "\n", "a\n", " \n")}, lines[i:]...)
		lines = append(lines[:i:i], rest...)
	case 8: // white space and case
		i := pick()
		body := strings.TrimSuffix(lines[i], "\n")
		nl := lines[i][len(body):]
		switch r.N(6) {
		case 0:
			body += " "
		case 1:
			body += "\r"
		case 2:
			body = " " + body
		case 3:
			body = strings.ToUpper(body)
		case 4:
			body = strings.TrimSpace(body)
		default:
			body = strings.ReplaceAll(body, " ", "\t")
		}
		lines[i] = body + nl
	case 9: // byte
		i := pick()
		b := []byte(lines[i])
		if j := r.N(len(b)); b[j] != '\n' {
			b[j] ^= byte(1 << uint(r.N(8)))
			if b[j] == '\n' {
				b[j] = 'Z'
			}
		}
		lines[i] = string(b)
	case 10:
		return ""
	case 11: // prepend
		return r.Pick("\n", "first\n", lines[0]) + src
	case 12: // extend or shorten a line
		i := pick()
		body := strings.TrimSuffix(lines[i], "\n")
		nl := lines[i][len(body):]
		if r.P(50) && len(body) > 0 {
			body = body[:len(body)-1]
		} else {
			body += "x"
		}
		lines[i] = body + nl
	case 13: // join with the next line
		i := pick()
		lines[i] = strings.TrimSuffix(lines[i], "\n")
	}
	return strings.Join(lines, "")
}

func mutateFragments(r *Rng, frags []*gitdiff.TextFragment, src string) []*gitdiff.TextFragment {
	out := make([]*gitdiff.TextFragment, len(frags))
	for i := range frags {
		out[i] = cloneFrag(frags[i])
	}
	if len(out) == 0 {
		return out
	}
	i := r.N(len(out))
	f := out[i]
	switch r.N(13) {
	case 0, 1: // shift
		f.OldPosition += int64(r.PickInt(-2, -1, 1, 1, 2, 5))
		if f.OldPosition < 0 {
			f.OldPosition = 0
		}
		if f.OldPosition == 0 && f.OldLines > 0 && r.P(80) {
			f.OldPosition = 1
		}
	case 2: // duplicate
		out = append(out[:i+1:i+1], append([]*gitdiff.TextFragment{cloneFrag(f)}, out[i+1:]...)...)
	case 3: // overlap: start at the last line of the previous fragment
		if i > 0 {
			p := out[i-1]
			if p.OldLines > 0 {
				f.OldPosition = p.OldPosition + p.OldLines - int64(r.PickInt(1, 1, 1, 0, 2))
				if f.OldPosition < 1 {
					f.OldPosition = 1
				}
			}
		}
	case 4: // far away
		f.OldPosition += int64(r.PickInt(100, 5000, 1<<20, 1<<31))
		if r.P(20) {
			f.OldPosition = 1<<63 - 1 - int64(r.N(4))
		}
	case 5: // new file fragment
		var ls []gitdiff.Line
		for _, l := range f.Lines {
			if l.Op == gitdiff.OpAdd {
				ls = append(ls, l)
			}
		}
		n := int64(len(ls))
		*f = gitdiff.TextFragment{NewPosition: 1, NewLines: n, LinesAdded: n, Lines: ls}
	case 6: // full delete fragment
		var ls []gitdiff.Line
		for _, l := range f.Lines {
			if l.Op != gitdiff.OpAdd {
				ls = append(ls, gitdiff.Line{Op: gitdiff.OpDelete, Line: l.Line})
			}
		}
		n := int64(len(ls))
		*f = gitdiff.TextFragment{OldPosition: f.OldPosition, OldLines: n, LinesDeleted: n, Lines: ls}
		if r.P(60) && n > 0 {
			f.OldPosition = 1
		}
	case 7: // line content
		if len(f.Lines) > 0 {
			l := &f.Lines[r.N(len(f.Lines))]
			switch r.N(4) {
			case 0:
				l.Line = strings.TrimSuffix(l.Line, "\n")
			case 1:
				l.Line = "changed " + l.Line
			case 2:
				l.Line = "\n"
			default:
				l.Line += "\n"
			}
		}
	case 8: // counts
		mutateField(r, f)
	case 9: // position without old lines
		if f.OldLines == 0 {
			f.OldPosition += int64(r.PickInt(1, 2, -1))
			if f.OldPosition < 0 {
				f.OldPosition = 0
			}
		} else {
			f.NewPosition = int64(r.PickInt(0, 1, 99))
		}
	case 10: // drop a fragment
		out = append(out[:i], out[i+1:]...)
	case 11: // swap
		j := r.N(len(out))
		out[i], out[j] = out[j], out[i]
	case 12: // drop a line, consistently
		if len(f.Lines) > 1 {
			j := r.N(len(f.Lines))
			f.Lines = append(f.Lines[:j:j], f.Lines[j+1:]...)
			recount(f)
		}
	}
	return out
}

func recount(f *gitdiff.TextFragment) {
	f.OldLines, f.NewLines, f.LinesAdded, f.LinesDeleted, f.LeadingContext, f.TrailingContext = 0, 0, 0, 0, 0, 0
	for _, l := range f.Lines {
		switch l.Op {
		case gitdiff.OpContext:
			f.OldLines++
			f.NewLines++
			if f.LinesAdded+f.LinesDeleted == 0 {
				f.LeadingContext++
			} else {
				f.TrailingContext++
			}
		case gitdiff.OpAdd:
			f.NewLines++
			f.LinesAdded++
			f.TrailingContext = 0
		case gitdiff.OpDelete:
			f.OldLines++
			f.LinesDeleted++
			f.TrailingContext = 0
		}
	}
}

func mutateField(r *Rng, f *gitdiff.TextFragment) {
	v := int64(r.PickInt(-1, 1, 1, -1, 2, -2, 1000))
	if r.P(5) {
		v = -1 << 62
	}
	for _, i := range []int{r.N(8)} {
		switch i {
		case 0:
			f.OldLines += v
		case 1:
			f.NewLines += v
		case 2:
			f.LinesAdded += v
		case 3:
			f.LinesDeleted += v
		case 4:
			f.LeadingContext += v
		case 5:
			f.TrailingContext += v
		case 6:
			f.OldPosition += v
		case 7:
			f.NewPosition += v
		}
	}
}

// genFragment makes a fragment with lines in any order.
func genFragment(r *Rng) *gitdiff.TextFragment {
	f := &gitdiff.TextFragment{OldPosition: int64(r.N(5)), NewPosition: int64(r.N(5))}
	n := r.N(8)
	ops := r.Pick(" -+", " ", "+", "-", " +", " -", "-+", "  -+", "     -+")
	for i := 0; i < n; i++ {
		l := gitdiff.Line{Line: fmt.Sprintf("%c\n", 'a'+r.N(3))}
		switch ops[r.N(len(ops))] {
		case '-':
			l.Op = gitdiff.OpDelete
		case '+':
			l.Op = gitdiff.OpAdd
		}
		f.Lines = append(f.Lines, l)
	}
	recount(f)
	if f.OldLines > 0 && f.OldPosition == 0 && r.P(90) {
		f.OldPosition = 1
	}
	return f
}

func runC20(c *Ctx) {
	r := c.R
	f := genFragment(r)
	for i := r.PickInt(0, 1, 1, 1, 2, 3); i > 0; i-- {
		switch k := r.N(13); {
		case k < 7:
			mutateField(r, f)
		case k == 7 && len(f.Lines) > 0: // operation
			f.Lines[r.N(len(f.Lines))].Op = gitdiff.LineOp(r.PickInt(0, 1, 2, 3, -1, 4, 255, 32))
		case k == 8 && len(f.Lines) > 0: // swap lines, which moves context
			a, b := r.N(len(f.Lines)), r.N(len(f.Lines))
			f.Lines[a], f.Lines[b] = f.Lines[b], f.Lines[a]
		case k == 9 && len(f.Lines) > 0:
			a := r.N(len(f.Lines))
			f.Lines = append(f.Lines[:a:a], f.Lines[a+1:]...)
		case k == 10: // compensate: move a count from one field to another
			f.LinesAdded++
			f.LinesDeleted--
		case k == 12 && len(f.Lines) > 0: // unusual content, which has no influence
			j := r.PickInt(0, len(f.Lines)-1, r.N(len(f.Lines)))
			f.Lines[j].Line = r.Pick("", "\n", "\n\n", " ", "+", "-x\n", "\\ No newline at end of file\n", "a\nb")
		case k == 11:
			f.OldPosition, f.NewPosition = int64(r.PickInt(0, -1, 1, 1<<40)), int64(r.PickInt(0, -1, 1, 1<<40))
		}
	}
	if r.P1000(5) {
		f = nil
	}
	why := modelInvalid(f)
	before := (*gitdiff.TextFragment)(nil)
	if f != nil {
		before = cloneFrag(f)
		c.Input("fragment", fmt.Sprintf("%+v", *f))
	}
	err := f.Validate()
	c.Eval()
	if (err != nil) != (why != "") {
		if why == "" {
			c.Fail("Validate rejects a consistent fragment: %v", err)
		}
		c.Fail("Validate accepts an inconsistent fragment (%s)", why)
	}
	if why == "" {
		c.Note("valid")
	} else {
		c.Note(why)
		c.Nontrivial(fnv64(fmt.Sprint(f)), func() string { return fmt.Sprintf("%s: %+v", why, f) })
	}
	if f == nil {
		c.Note("nil fragment")
	} else if d := fragDiff(before, f); d != "" {
		c.Fail("Validate changed the fragment: %s", d)
	}
	if why != "" && r.P(30) {
		// applying it fails without writing
		src := strings.Repeat("a\n", r.N(8))
		d := newDst(10000)
		a := gitdiff.NewTextApplier(d, newSrc([]byte(src)))
		if err := a.ApplyFragment(f); err == nil {
			c.Fail("applying an inconsistent fragment (%s) succeeded", why)
		} else if isConflict(err) {
			c.Fail("applying an inconsistent fragment (%s) is reported as a conflict: %v", why, err)
		}
		if len(d.got) > 0 {
			c.Fail("applying an inconsistent fragment (%s) wrote %q", why, d.got)
		}
		c.Note("applied invalid")
	}
	if r.P(10) {
		// the other direction: fragments from the parser
		t := genTextCase(c, true)
		for _, pf := range mustParse(c, t.patch, 1)[0].TextFragments {
			if err := pf.Validate(); err != nil {
				c.Fail("fragment of a parsed patch does not validate: %v\n%s", err, t.patch)
			}
			if why := modelInvalid(pf); why != "" {
				c.Fail("fragment of a parsed patch is not consistent: %s\n%s", why, t.patch)
			}
			c.Note("parsed fragment")
		}
	}
}

// runC19 compares histories of calls with a state machine.
func runC19(c *Ctx) {
	if c.R.P(30) {
		runC19Binary(c)
		return
	}
	r := c.R
	n := r.N(20)
	s := genScript(r, n, false).gitOrder()
	A := s.Old()
	frags := toFragments(s.hunks(r, r.PickInt(0, 1, 3), false, true))
	lines := splitLines([]byte(A))
	src, srcName := genSource(r, []byte(A))
	d := newDst(outputMax(2*len(A)+oldSize(frags)) * 3)
	if r.P(20) {
		d.budget, d.err, d.full, d.once = r.N(len(A)+2), &injectedErr{1}, r.P(20), r.P(60)
		if r.P(50) && len(lines) > 0 {
			// fail at the start of a line
			d.budget = len(strings.Join(lines[:r.N(len(lines))], ""))
		}
	}
	a := gitdiff.NewTextApplier(d, src)

	// state of the specification
	pos := 0 // first source line not consumed
	dirty, closed := false, false
	want := ""
	undefined := false // after a partial failure, only safety is specified
	hist := []string{"source " + srcName}
	nt := false
	fail := func(format string, args ...any) {
		c.Input("source", A)
		c.Fail("after %s: %s", strings.Join(hist, "; "), fmt.Sprintf(format, args...))
	}
	// alts are the source lines that may come next, if a fragment failed after
	// it consumed lines without output, otherwise only pos
	var alts []int
	// stopped continues after a fragment that failed on the way: how much of it
	// is written first is not specified, but what follows must fit to it
	stopped := func(f *gitdiff.TextFragment) {
		alts = nil
		for _, st := range modelSteps(lines, pos, f) {
			if want+st.out == string(d.got) && (len(alts) == 0 || alts[len(alts)-1] != st.pos) {
				alts = append(alts, st.pos)
			}
		}
		if len(alts) == 0 {
			fail("output of the failed fragment does not end at a line: %s", diffAt(want, string(d.got)))
		}
		want = string(d.got)
		pos = alts[len(alts)-1]
		c.Note("text: stopped within a fragment")
	}
	next := 0
	for i := 0; i < 1+r.N(12); i++ {
		before := len(d.got)
		wasFailed, writesBefore := d.failed, d.writes
		k := r.N(100)
		switch {
		case k < 22 || i > 3 && k < 30: // Close
			err := a.Close()
			hist = append(hist, "Close")
			c.Eval()
			switch {
			case d.failed && !wasFailed: // a write of this call failed
				if closed {
					fail("second Close wrote something")
				}
				if !errors.Is(err, d.err) {
					fail("writing failed, Close returned %v", err)
				}
				if rest := want + strings.Join(lines[pos:], ""); !undefined && len(alts) < 2 && !strings.HasPrefix(rest, string(d.got)) {
					fail("output is no prefix: %s", diffAt(rest, string(d.got)))
				}
				closed, undefined, nt = true, true, true
				want = string(d.got)
				hist = append(hist, "(write failed)")
				c.Note("text: write failed in close")
			case closed:
				c.Note("text: second close")
				nt = true
				if err != nil {
					fail("second Close returned %v", err)
				}
				if len(d.got) != before || d.failed && d.after > 0 && d.writes != writesBefore {
					fail("second Close wrote %q", d.got[before:])
				}
			case undefined:
				closed = true
				if len(d.got) < before {
					fail("output shrank")
				}
				want = string(d.got)
			default:
				closed = true
				if err != nil {
					fail("Close returned %v", err)
				}
				if !dirty {
					want += A
					c.Note("text: close copies")
				} else {
					for _, alt := range alts {
						if want+strings.Join(lines[alt:], "") == string(d.got) {
							pos = alt
						}
					}
					want += strings.Join(lines[pos:], "")
					c.Note("text: close writes the rest")
				}
			}
		default:
			var f *gitdiff.TextFragment
			what := ""
			switch {
			case k < 60 && next < len(frags):
				f, what = frags[next], fmt.Sprintf("fragment %d", next+1)
				next++
			case k < 75 && len(frags) > 0:
				j := r.N(len(frags))
				f, what = frags[j], fmt.Sprintf("fragment %d again or out of order", j+1)
				if j >= next {
					next = j + 1
				}
			case k < 85 && len(frags) > 0:
				f = cloneFrag(frags[r.N(len(frags))])
				mutateField(r, f)
				what = "fragment with changed field"
			case k < 88:
				what = "nil"
			case k < 94:
				f, what = genFragment(r), "random fragment"
			default:
				// a trivial fragment at a given line: pure insertion
				p := int64(r.N(len(lines) + 2))
				f = &gitdiff.TextFragment{OldPosition: p, NewPosition: p + 1, NewLines: 1, LinesAdded: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "ins\n"}}}
				what = fmt.Sprintf("insertion after line %d", p)
			}
			hist = append(hist, "ApplyFragment("+what+")")
			if len(alts) > 1 && !closed {
				undefined = true
			}
			alts = nil
			err := a.ApplyFragment(f)
			c.Eval()
			switch {
			case d.failed && !wasFailed:
				if closed {
					fail("ApplyFragment on a closed applier wrote something")
				}
				if !errors.Is(err, d.err) {
					fail("writing failed, ApplyFragment returned %v", err)
				}
				if !undefined && d.once && !d.full {
					// if the output ends at a line, the line that was not written
					// comes next
					if _, _, kind := modelFragment(lines, pos, f); kind == "ok" || kind == "conflict" {
						for _, st := range modelSteps(lines, pos, f) {
							if want+st.out == string(d.got) && (len(alts) == 0 || alts[len(alts)-1] != st.pos) {
								alts = append(alts, st.pos)
							}
						}
					}
				}
				if len(alts) > 0 {
					pos = alts[len(alts)-1]
					c.Note("text: write failed at a line")
				} else {
					undefined = true
				}
				dirty, nt = true, true
				want = string(d.got)
				hist = append(hist, "(write failed)")
				c.Note("text: write failed in apply")
			case closed:
				nt = true
				c.Note("text: apply after close")
				if err == nil {
					fail("ApplyFragment succeeded on a closed applier")
				}
				if len(d.got) != before {
					fail("ApplyFragment on a closed applier wrote %q", d.got[before:])
				}
				if isConflict(err) {
					fail("ApplyFragment on a closed applier reported a conflict: %v", err)
				}
			case undefined:
				want = string(d.got)
				dirty = true
			default:
				out, npos, kind := modelFragment(lines, pos, f)
				dirty = true
				switch kind {
				case "ok":
					c.Note("text: apply ok")
					if err != nil {
						fail("matching fragment was rejected: %v", err)
					}
					want += out
					pos = npos
				case "overlap", "not empty":
					nt = true
					c.Note("text: overlap rejected")
					if err == nil {
						fail("%s fragment was accepted", kind)
					}
					if !isConflict(err) {
						fail("%s: error is not a conflict: %v", kind, err)
					}
				case "invalid", "short":
					nt = true
					c.Note("text: invalid")
					if err == nil {
						fail("fragment was accepted: %s", kind)
					}
					if kind == "short" {
						stopped(f)
					}
				default: // conflict inside the fragment
					nt = true
					c.Note("text: conflict")
					if err == nil {
						fail("conflicting fragment was accepted")
					}
					if !strings.HasPrefix(want+out, string(d.got)) {
						fail("output %q is not a prefix of %q", d.got, want+out)
					}
					stopped(f)
				}
			}
		}
		if string(d.got) != want {
			fail("output is not as specified: %s", diffAt(want, string(d.got)))
		}
	}
	if nt {
		c.Nontrivial(fnv64(append(hist, A)...), func() string { return strings.Join(hist, "; ") })
	}
}

// modelFragment applies one fragment from line pos on.
func modelFragment(lines []string, pos int, f *gitdiff.TextFragment) (out string, next int, kind string) {
	if modelInvalid(f) != "" {
		return "", pos, "invalid"
	}
	start := f.OldPosition - 1
	if f.OldLines == 0 {
		start = f.OldPosition
	}
	if start < 0 {
		start = 0
	}
	if start < int64(pos) {
		return "", pos, "overlap"
	}
	if f.OldPosition == 0 && len(lines) > 0 {
		return "", pos, "not empty"
	}
	if f.OldLines > int64(len(lines)) || start > int64(len(lines))-f.OldLines {
		return "", pos, "short"
	}
	out = strings.Join(lines[pos:start], "")
	pos = int(start)
	for _, l := range f.Lines {
		if l.Op != gitdiff.OpAdd {
			if lines[pos] != l.Line {
				return out, pos, "conflict"
			}
			pos++
		}
		if l.Op != gitdiff.OpDelete {
			out += l.Line
		}
	}
	if f.NewPosition == 0 && f.NewLines == 0 && pos < len(lines) {
		return out, pos, "conflict"
	}
	return out, pos, "ok"
}

type applyStep struct {
	out string
	pos int
}

// modelSteps returns the states that an applier passes while it applies a
// fragment from line pos on, up to the first line that does not match.
func modelSteps(lines []string, pos int, f *gitdiff.TextFragment) (steps []applyStep) {
	start := int(f.OldPosition) - 1
	if f.OldLines == 0 {
		start = int(f.OldPosition)
	}
	out := ""
	steps = append(steps, applyStep{"", pos})
	for pos < len(lines) && pos < start {
		out += lines[pos]
		pos++
		steps = append(steps, applyStep{out, pos})
	}
	for _, l := range f.Lines {
		if l.Op != gitdiff.OpAdd {
			if pos >= len(lines) || lines[pos] != l.Line {
				break
			}
			pos++
		}
		if l.Op != gitdiff.OpDelete {
			out += l.Line
		}
		steps = append(steps, applyStep{out, pos})
	}
	return steps
}

func runC19Binary(c *Ctx) {
	r := c.R
	A := r.Bytes(r.N(300))
	src, srcName := genSource(r, A)
	d := newDst(100000)
	if r.P(20) {
		d.budget, d.err, d.full, d.once = r.N(len(A)+2), &injectedErr{1}, r.P(20), r.P(60)
	}
	var opts []gitdiff.ApplyOption
	a := gitdiff.NewBinaryApplier(d, src, opts...)
	tried, closed := false, false
	want := ""
	hist := []string{"binary, source " + srcName}
	nt := false
	fail := func(format string, args ...any) {
		c.Fail("after %s: %s", strings.Join(hist, "; "), fmt.Sprintf(format, args...))
	}
	for i := 0; i < 1+r.N(7); i++ {
		wasFailed := d.failed
		if r.P(35) {
			err := a.Close()
			hist = append(hist, "Close")
			c.Eval()
			if d.failed && !wasFailed {
				if closed || tried {
					fail("Close wrote something")
				}
				if !errors.Is(err, d.err) {
					fail("writing failed, Close returned %v", err)
				}
				if !bytes.HasPrefix(A, d.got) {
					fail("output %q is no prefix of the source", d.got)
				}
				closed, nt = true, true
				want = string(d.got)
				hist = append(hist, "(write failed)")
				c.Note("binary: write failed in close")
				continue
			}
			if err != nil {
				fail("Close returned %v", err)
			}
			if !closed && !tried {
				want += string(A)
				c.Note("binary: close copies")
			}
			if closed {
				nt = true
				c.Note("binary: second close")
			}
			closed = true
		} else {
			var f *gitdiff.BinaryFragment
			res := ""
			kind := "ok"
			ops := genDelta(r, int64(len(A)))
			if deltaSize(ops) > 50000 {
				ops = nil
			}
			switch k := r.N(10); {
			case k < 3:
				data := r.Bytes(r.N(200))
				f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(len(data)), RawData: deflate(data, 6)}
				res = string(data)
			case k < 6:
				dl := encodeDelta(int64(len(A)), deltaSize(ops), ops, r)
				f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(dl)), RawData: deflate(dl, 6)}
				res = string(runOps(A, ops))
			case k < 7: // conflict, nothing is written
				dl := encodeDelta(int64(len(A))+1, deltaSize(ops), ops, r)
				f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(dl)), RawData: deflate(dl, 6)}
				kind = "conflict"
			case k < 8:
				f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: 1 << 50}
				kind = "too large"
			case k < 9:
				f = &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchMethod(r.PickInt(2, -1, 77)), Size: 0, RawData: deflate(nil, 6)}
				kind = "unknown method"
			default:
				kind = "nil"
			}
			hist = append(hist, "ApplyFragment("+kind+")")
			err := a.ApplyFragment(f)
			c.Eval()
			switch {
			case d.failed && !wasFailed:
				if closed || tried || kind != "ok" {
					fail("the %s fragment wrote something", kind)
				}
				if !errors.Is(err, d.err) {
					fail("writing failed, ApplyFragment returned %v", err)
				}
				if !strings.HasPrefix(res, string(d.got)) {
					fail("output %q is no prefix of %q", d.got, res)
				}
				tried, nt = true, true
				want = string(d.got)
				hist = append(hist, "(write failed)")
				c.Note("binary: write failed in apply")
			case closed:
				c.Note("binary: apply after close")
				nt = true
				if err == nil {
					fail("ApplyFragment succeeded on a closed applier")
				}
			case kind == "nil":
				if err == nil {
					fail("ApplyFragment(nil) succeeded")
				}
			case tried:
				c.Note("binary: second apply")
				nt = true
				if err == nil {
					fail("a second fragment was accepted")
				}
				if isConflict(err) {
					fail("a second fragment is reported as a conflict with the source: %v", err)
				}
			case kind == "ok":
				tried = true
				if err != nil {
					fail("fragment was rejected: %v", err)
				}
				want += res
				c.Note("binary: apply ok")
			default:
				tried = true
				nt = true
				c.Note("binary: failed apply")
				if err == nil {
					fail("%s fragment was accepted", kind)
				}
				if isConflict(err) != (kind == "conflict") {
					fail("%s fragment: unexpected error %v", kind, err)
				}
			}
		}
		if string(d.got) != want {
			fail("output is not as specified: %s", diffAt(want, string(d.got)))
		}
	}
	if nt {
		c.Nontrivial(fnv64(append(hist, string(A))...), func() string { return strings.Join(hist, "; ") })
	}
}

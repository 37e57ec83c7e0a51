package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C06", Quick: 120000, Thorough: 1500000,
		Rule:   "A case renders one to four file specifications as a git patch, possibly with a mail header before and a signature after, and compares every field of every parsed file with the specification; distinct by patch text.",
		Run:    runC06,
		Floors: map[string]int{"modify+text": 100, "create+text": 50, "delete+text": 50, "rename": 30, "copy": 20, "rename+text": 20, "modify+mode": 20, "modify+literal": 20, "modify+delta": 15, "modify+nodata": 5, "rename+mode": 5, "create": 5, "delete": 5, "dissimilarity": 5, "trailer": 100, "no final line feed": 50},
	})
	register(&Check{
		ID: "C07", Quick: 240000, Thorough: 3000000,
		Rule:   "A case renders one diff for a file with a generated name (plain, hostile or arbitrary bytes) and compares the parsed names byte for byte; non-trivial if the name needs quoting or contains a space, slash prefix or other special text, distinct by name, kind and style.",
		Run:    runC07,
		Floors: map[string]int{"quoted": 150, "space": 80, "name on first line only": 150, "non-ASCII unquoted": 20, "invalid UTF-8": 20, "other prefix": 60, "rename": 50},
	})
	register(&Check{
		ID: "C08", Quick: 160000, Thorough: 800000,
		Rule:   "A case is one to three generated unified diffs with time stamps, compared with their specification and applied; every fiftieth case runs the diff program on two directories. Distinct by patch text.",
		Run:    runC08,
		Floors: map[string]int{"created by stamp": 50, "deleted by stamp": 50, "/dev/null": 100, "near epoch": 10, "modified": 200, "real diff": 5, "real file applied": 15, "suffix": 50},
	})
	register(&Check{
		ID: "C09", Quick: 180000, Thorough: 3000000,
		Rule:   "A case damages one place of a valid patch so that its structure contradicts itself, or mutates a patch at random; damaged patches must be rejected with exactly the files before the damage, and whatever is accepted must be self-consistent. Non-trivial if damaged, distinct by text.",
		Run:    runC09,
		Floors: map[string]int{"damage rejected": 400, "mutated accepted": 50, "mutated rejected": 50, "damage: remove line": 20, "damage: insert line": 10, "damage: bad marker": 10, "damage: change marker": 10, "damage: range": 20, "damage: counts": 20, "damage: header": 50, "damage: orphan": 5, "damage: binary": 30, "damage: truncated": 10},
	})
	register(&Check{
		ID: "C10", Quick: 120000, Thorough: 1500000,
		Rule:   "A case concatenates up to five diffs with unrelated text before, between and after them, and compares the files with those parsed alone and the preamble with the text before; non-trivial with at least two files or text between, distinct by text.",
		Run:    runC10,
		Floors: map[string]int{"preamble": 300, "text between": 200, "no files": 30, "after header-only": 50, "after binary": 30, "traditional": 100, "almost header": 200},
	})
	register(&Check{
		ID: "C11", Quick: 90000, Thorough: 1500000,
		Rule:   "A case parses a generated git or traditional patch, or a mutation of one that is still well-formed, formats each file, parses the result and compares every field; distinct by formatted text.",
		Run:    runC11,
		Floors: map[string]int{"round trip": 1000, "binary": 100, "traditional": 100, "rename": 80, "mutated": 50, "odd headers": 50},
		Known:  knownC11,
		Assumptions: []string{
			"Absolute names in traditional patches are excluded: see known-findings.txt.",
		},
	})
}

func genSpecs(r *Rng, n int, o specOpts) (specs []*FileSpec, st Style) {
	st = genStyle(r)
	for i := 0; i < n; i++ {
		specs = append(specs, genSpec(r, o))
	}
	return
}

func defaultSpecOpts(r *Rng) specOpts {
	o := specOpts{name: genName, maxLines: 12, binary: true, ctx: -1, loose: true, atZero: true}
	if r.P(60) {
		o.name = genSafeName
	}
	if r.P(5) {
		o.maxLines = 60
	}
	return o
}

const mailHead = "From 0123456789012345678901234567890123456789 Mon Sep 17 00:00:00 2001\nFrom: A U Thor <author@example.com>\nDate: Thu, 7 Apr 2005 22:14:13 -0700\nSubject: [PATCH] x\n\nbody\n---\n x | 2 +-\n 1 file changed, 1 insertion(+), 1 deletion(-)\n\n"

func runC06(c *Ctx) {
	r := c.R
	o := defaultSpecOpts(r)
	o.foreign = true
	specs, st := genSpecs(r, r.PickInt(1, 1, 1, 2, 3, 4), o)
	var b strings.Builder
	if r.P(20) {
		b.WriteString(mailHead)
	}
	var want []*gitdiff.File
	for _, f := range specs {
		b.WriteString(f.renderGit(st))
		want = append(want, f.expected())
		c.Note(f.shape())
		if f.Kind == "modify" && f.Score > 0 {
			c.Note("dissimilarity")
		}
		if !st.QuotePath {
			c.Note("quotePath off")
		}
		if len(f.OldOID) == 64 {
			c.Note("SHA-256 id")
		}
		if f.OldMode == 0o160000 {
			c.Note("submodule mode")
		}
	}
	if r.P(30) {
		b.WriteString(r.Pick("-- \n2.43.0\n\n", "-- \n2.43.0", "\n", "-- \n", "\n\nSome text\n"))
		c.Note("trailer")
	}
	patch := b.String()
	if last := patch[strings.LastIndexByte(patch[:len(patch)-1], '\n')+1:]; len(last) > 1 && !(last[0] == '\\' && len(last) < 16) && !strings.ContainsAny(last[:1], " +-") && r.P(30) {
		// the last line is complete, and no line of a file
		patch = strings.TrimSuffix(patch, "\n")
		c.Note("no final line feed")
		if strings.HasSuffix(patch, " differ") {
			c.Note("no final line feed: binary marker")
		}
	}
	c.Input("patch", patch)
	c.Nontrivial(fnv64(patch), func() string { return patch })
	files, _, err := parse(patch)
	c.Eval()
	if err != nil {
		c.Fail("parsing failed: %v", err)
	}
	if d := filesDiff(want, files); d != "" {
		c.Fail("%s", d)
	}
}

func runC07(c *Ctx) {
	r := c.R
	o := specOpts{name: genName, maxLines: 3, binary: true, ctx: 3}
	f := genSpec(r, o)
	st := genStyle(r)
	st.QuotePath = r.P(50)
	patch := f.renderGit(st)
	if head := fmt.Sprintf("diff --git %s%s %s%s\n", st.OldPrefix, f.Old, st.NewPrefix, f.New); strings.HasPrefix(patch, head) && r.P(15) {
		// one of the names is quoted, or both are, without need
		q := func(s string) string { return "\"" + s + "\"" }
		o, n := st.OldPrefix+f.Old, st.NewPrefix+f.New
		switch r.N(3) {
		case 0:
			o = q(o)
		case 1:
			n = q(n)
		default:
			o, n = q(o), q(n)
		}
		patch = "diff --git " + o + " " + n + "\n" + patch[len(head):]
		c.Note("quoted without need")
	}
	c.Input("name", fmt.Sprintf("%q -> %q", f.Old, f.New))
	c.Input("patch", patch)
	q := gitQuote("", f.New, st.QuotePath)
	special := false
	if q[0] == '"' {
		c.Note("quoted")
		special = true
	} else if strings.IndexFunc(f.New, func(ch rune) bool { return ch >= 0x80 }) >= 0 {
		c.Note("non-ASCII unquoted")
		special = true
	}
	if strings.Contains(f.New, " ") {
		c.Note("space")
		special = true
	}
	if strings.ToValidUTF8(f.New, "") != f.New {
		c.Note("invalid UTF-8")
	}
	if !strings.Contains(patch, "\n--- ") && f.Kind != "rename" && f.Kind != "copy" {
		c.Note("name on first line only")
	}
	if st.OldPrefix != "a/" {
		c.Note("other prefix")
	}
	if f.Kind == "rename" || f.Kind == "copy" {
		c.Note("rename")
	}
	if special || f.Kind == "rename" {
		c.Nontrivial(fnv64(f.Old, f.New, f.Kind, st.OldPrefix, fmt.Sprint(st.QuotePath, f.shape())), func() string { return patch })
	}
	want := f.expected()
	files, _, err := parse(patch)
	c.Eval()
	if err != nil {
		c.Fail("parsing failed: %v", err)
	}
	if len(files) != 1 || files[0] == nil {
		c.Fail("%d files", len(files))
	}
	if files[0].OldName != want.OldName || files[0].NewName != want.NewName {
		c.Fail("names: want %q and %q, got %q and %q", want.OldName, want.NewName, files[0].OldName, files[0].NewName)
	}
	if d := fileDiff(want, files[0]); d != "" {
		c.Fail("%s", d)
	}
}

func runC08(c *Ctx) {
	r := c.R
	if c.Idx%50 == 0 {
		runRealDiff(c)
		return
	}
	var b strings.Builder
	var specs []*TradSpec
	var want []*gitdiff.File
	for i := 0; i < 1+r.N(3); i++ {
		t := genTrad(r)
		specs = append(specs, t)
		b.WriteString(t.render())
		want = append(want, t.expected())
		switch {
		case strings.HasPrefix(t.OldLine, "/dev/null") || strings.HasPrefix(t.NewLine, "/dev/null"):
			c.Note("/dev/null")
		case t.IsNew:
			c.Note("created by stamp")
		case t.IsDelete:
			c.Note("deleted by stamp")
		default:
			c.Note("modified")
			if strings.Contains(t.OldLine+t.NewLine, "\t1970-01-0") || strings.Contains(t.OldLine+t.NewLine, "\t1969-12-") {
				c.Note("near epoch")
			}
			if strings.ContainsAny(t.OldLine, "~") || strings.Contains(t.OldLine+t.NewLine, ".orig") {
				c.Note("suffix")
			}
		}
	}
	patch := b.String()
	c.Input("patch", patch)
	c.Nontrivial(fnv64(patch), func() string { return patch })
	files, _, err := parse(patch)
	c.Eval()
	if err != nil {
		c.Fail("parsing failed: %v", err)
	}
	if d := filesDiff(want, files); d != "" {
		c.Fail("%s", d)
	}
	for i, t := range specs {
		got, err := applyTo(newSrc([]byte(t.A)), files[i], outputMax(len(t.A)+len(t.B)))
		c.Eval()
		if err != nil || string(got) != t.B {
			c.Fail("applying file %d: %v: %s", i+1, err, diffAt(t.B, string(got)))
		}
	}
}

// runRealDiff compares two directories with the diff program.
func runRealDiff(c *Ctx) {
	r := c.R
	dir, err := os.MkdirTemp("", "rdiff")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	type ent struct{ a, b *string }
	ents := map[string]ent{}
	write := func(side, name, content string) {
		p := filepath.Join(dir, side, name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(content), 0o644); err != nil {
			panic(err)
		}
		mt := time.Unix(int64(1+r.U64()%2000000000), int64(r.N(1000000000)))
		os.Chtimes(p, mt, mt)
	}
	os.Mkdir(filepath.Join(dir, "a"), 0o755)
	os.Mkdir(filepath.Join(dir, "b"), 0o755)
	u0 := r.P(15)
	for i := 0; i < 1+r.N(6); i++ {
		name := fmt.Sprintf("%d%s", i, r.Pick(".txt", " sp ace.c", "/sub/x.go", "caf\xc3\xa9", "x\"y", "back\\slash", "t\tab", "~", ".orig", " b", "n\nl"))
		s := genScript(r, r.N(40), false)
		for j := range s {
			// diff treats content with NUL as binary
			s[j].T = strings.ReplaceAll(s[j].T, "\x00", "0")
		}
		a, b := s.Old(), s.New()
		var e ent
		if k := r.N(5); k != 0 {
			write("a", name, a)
			e.a = &a
		}
		if k := r.N(5); k != 0 {
			write("b", name, b)
			e.b = &b
		}
		ents[name] = e
	}
	args := []string{"-ruN"}
	if u0 {
		args = []string{"-rN", "-U0"}
	} else if r.P(40) {
		args = []string{"-rN", fmt.Sprintf("-U%d", 1+r.N(8))}
	}
	args = append(args, "-a")
	if r.P(30) {
		args = append(args, "-p")
	}
	if r.P(20) {
		args = append(args, "-d")
	}
	if r.P(15) {
		args = append(args, "--suppress-blank-empty")
	}
	args = append(args, "a", "b")
	cmd := exec.Command("diff", args...)
	cmd.Dir = dir
	cmd.Env = []string{"LC_ALL=C", "PATH=" + os.Getenv("PATH"), "TZ=" + r.Pick("UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "XXX-5:45", "AAA+11", "America/St_Johns", "Pacific/Kiritimati")}
	out, err := cmd.Output()
	if ee, ok := err.(*exec.ExitError); err != nil && (!ok || ee.ExitCode() > 1) {
		panic(fmt.Sprint("diff: ", err))
	}
	patch := string(out)
	c.Note("real diff")
	c.Input("patch", patch)
	c.Nontrivial(fnv64(patch), func() string { return patch })
	files, _, perr := parse(patch)
	c.Eval()
	if perr != nil {
		c.Fail("parsing diff output failed: %v", perr)
	}
	seen := map[string]bool{}
	for _, f := range files {
		name := f.NewName
		if f.IsDelete {
			name = f.OldName
		}
		name = strings.TrimPrefix(strings.TrimPrefix(name, "a/"), "b/")
		e, ok := ents[name]
		if !ok {
			c.Fail("diff output names no file %q (%q, %q)", name, f.OldName, f.NewName)
		}
		seen[name] = true
		if f.IsNew != (e.a == nil) || f.IsDelete != (e.b == nil) {
			c.Fail("%q: IsNew %v, IsDelete %v, but the file exists in a: %v, in b: %v", name, f.IsNew, f.IsDelete, e.a != nil, e.b != nil)
		}
		var a, b string
		if e.a != nil {
			a = *e.a
		}
		if e.b != nil {
			b = *e.b
		}
		if knownZero(f, a, b) {
			c.Note("excluded: position zero")
			continue
		}
		src, sn := genSource(r, []byte(a))
		got, err := applyTo(src, f, outputMax(len(a)+len(b)))
		c.Eval()
		if err != nil || string(got) != b {
			c.Fail("applying diff output to %q with %s: %v: %s", name, sn, err, diffAt(b, string(got)))
		}
		c.Note("real file applied")
	}
	for name, e := range ents {
		var a, b string
		if e.a != nil {
			a = *e.a
		}
		if e.b != nil {
			b = *e.b
		}
		if a != b && !seen[name] {
			c.Fail("no file for %q, although it changed", name)
		}
	}
}

// knownZero returns true for zero-context fragments at position zero, the
// recorded finding of C01.
func knownZero(f *gitdiff.File, a, b string) bool {
	for _, t := range f.TextFragments {
		if t.OldPosition == 0 && a != "" || t.NewPosition == 0 && t.NewLines == 0 && b != "" {
			return true
		}
	}
	return false
}

// ---- C10

var almost = []string{
	"--- a/x\n+++ b/x\n not a fragment\n", "--- a/x\n", "+++ b/x\n", "--- a\n+++ b\n@@ -1\n", "--- a\n--- b\n+++ c\n", " diff --git a/x b/x\n", "diff --gitx\n", "diff -u a b\n", "diff --cc x\n",
	"@@ x @@\n", "@@ -a +b @@\n", "@@ -1 +1\n", "@@ - + @@\n", "@@\n", " @@ -1 +1 @@\n", "@ -1 +1 @@\n", "-- \n2.43.0\n", "---\n", "+++\n", "index 123..456\n", "GIT binary patch\n", "Binary files a and b differ\n", "old mode 100644\n",
	"+added\n", "-removed\n", "\r\n", "x\r\n", "\x00\x01\n", "> quoted\n", "Only in a: b\n", "rename from x\n", "Index: x\n====\n", "\n\n\n", "From: x\n", "--- a\n+++ b\n\n@@ x\n", "@@ -99999999999999999999 +1 @@\n", "@@ -1,1,1 +1 @@\n",
	"--- a\n+++ b\n@@ -1 +1 @\n", "x--- a\n+++ b\n@@ -1 x +1 x @@\n", "--- a\nx+++ b\n@@ -1 x +1 x @@\n", "--- a\n+++ b\n@@ x -1 +1 @@ x\n", "--- a\n+++ b\n@ -1 +1 @@ text\n", "--- a\n+++ b\n\n@@ -1 x +1 x @@\n", "diff --git\n", "diff  --git a/x b/x\n", "xdiff --git a/x b/x\n",
	"diff --cc x\nindex 1,2..3\n--- a/x\n+++ b/x\n@@@ -1,1 -1,1 +1,2 @@@\n  a\n++b\n", "diff --combined x\n--- a/x\n+++ b/x\n@@@ -1 -1 +1 @@@\n- a\n -b\n++c\n",
}

// almostMarkers are no lines of binary patches and no header lines.
var almostMarkers = []string{
	"Binary files\n", "Binary files a and b are equal\n", "The Binary files a and b differ\n", "files a and b differ\n", "Binary filesa and b differ\n", "Binary files a and b differ!\n", "Binary files a and bdiffer\n", "Binary files a and b differ \n", "Files are equal\n", "Filesa b differ\n", "My Files a and b differ\n", "GIT binary patchx\n", "xGIT binary patch\n", "GIT binary patch \n", "GIT Binary patch\n", "differ\n", " differ\n",
}

// genGarbage makes text without headers. If after is set, it follows a file.
func genGarbage(r *Rng, after bool) string {
	var b strings.Builder
	if after && r.P(70) {
		b.WriteString(r.Pick("\n", "text\n", "-- \n", " \n", "x", "Signed\n"))
		if !strings.HasSuffix(b.String(), "\n") {
			b.WriteString("\n")
		}
	}
	first := b.Len() == 0
	for i := r.N(5); i > 0; i-- {
		var s string
		switch k := r.N(10); {
		case k < 5:
			s = almost[r.N(len(almost))]
		case k < 8:
			s = fmt.Sprintf("some text %d\n", r.N(10))
		case k < 9:
			s = string(r.Bytes(r.N(60))) + "\n"
		default:
			s = strings.Repeat("long ", r.PickInt(10, 1000, 14000)) + "\n"
		}
		if after && first && r.P(30) {
			s = r.Pick(almostMarkers...)
		} else if after && first {
			s = "." + s // not a header line of the file before
		}
		first = false
		b.WriteString(s)
	}
	s := b.String()
	for _, l := range strings.SplitAfter(s, "\n") {
		if strings.HasPrefix(l, "diff --git ") || strings.HasPrefix(l, "\\") {
			return "plain text\n"
		}
		if strings.HasPrefix(l, "@@ -") {
			var o, n int
			if m, _ := fmt.Sscanf(l, "@@ -%d +%d @@", &o, &n); m == 2 && l == "@@ -1 +1 @@\n" {
				return "plain text\n"
			}
		}
	}
	// "--- ", "+++ ", "@@ -" on three lines would be a header
	ls := strings.SplitAfter(s, "\n")
	for i := 0; i+2 < len(ls); i++ {
		if strings.HasPrefix(ls[i], "--- ") && strings.HasPrefix(ls[i+1], "+++ ") && strings.HasPrefix(ls[i+2], "@@ -") && len(ls[i+2]) >= 12 {
			return "plain text\n"
		}
	}
	if n := len(ls); strings.HasPrefix(s, "@@ -") || n >= 2 && (strings.HasPrefix(ls[n-2], "--- ") || strings.HasPrefix(ls[n-2], "+++ ")) {
		s += "end\n"
	}
	return s
}

func runC10(c *Ctx) {
	r := c.R
	n := r.PickInt(0, 1, 1, 2, 3, 5)
	var b strings.Builder
	pre := ""
	if r.P(60) {
		pre = genGarbage(r, false)
	}
	b.WriteString(pre)
	st := genStyle(r)
	var alone []*gitdiff.File
	between, open := false, false
	for i := 0; i < n; i++ {
		var text string
		var want *gitdiff.File
		kind := "text"
		if r.P(25) {
			if open {
				// the names of a unified diff would be read as part of the git
				// header before it
				b.WriteString("text\n")
			}
			t := genTrad(r)
			t.Lead = ""
			text, want = t.render(), t.expected()
			c.Note("traditional")
		} else {
			o := defaultSpecOpts(r)
			f := genSpec(r, o)
			text, want = f.renderGit(st), f.expected()
			switch {
			case f.Binary != "":
				kind = "binary"
			case len(f.Hunks) == 0:
				kind = "header-only"
			}
		}
		b.WriteString(text)
		files, p, err := parse(text)
		if err != nil || len(files) != 1 || p != "" {
			c.Input("patch", text)
			c.Fail("a single diff parses to %d files, preamble %q, error %v", len(files), p, err)
		}
		if d := fileDiff(want, files[0]); d != "" {
			c.Input("patch", text)
			c.Fail("a single diff: %s", d)
		}
		alone = append(alone, files[0])
		open = kind == "header-only"
		if r.P(40) {
			g := genGarbage(r, true)
			open = open && g == ""
			b.WriteString(g)
			if g != "" && i < n-1 {
				between = true
				c.Note("text between")
			}
			if g != "" {
				c.Note("after " + kind)
			}
		}
	}
	text := b.String()
	if n == 0 {
		c.Note("no files")
		if r.P(50) {
			text = strings.TrimSuffix(text, "\n")
			if text == "" || r.P(30) {
				if text != "" {
					text += "\n"
				}
				text += r.Pick(" ", "\t", "x", "\r", "@", "\\", "-", "\x00")
			}
			pre = text
		}
	}
	if pre != "" {
		c.Note("preamble")
	}
	for _, a := range almost {
		if strings.Contains(text, a) {
			c.Note("almost header")
			break
		}
	}
	c.Input("input", text)
	if n >= 2 || between {
		c.Nontrivial(fnv64(text), func() string { return text })
	}
	files, p, err := parse(text)
	c.Eval()
	if err != nil {
		c.Fail("parsing failed: %v", err)
	}
	if d := filesDiff(alone, files); d != "" {
		c.Fail("%s", d)
	}
	if p != pre {
		c.Fail("preamble: %s", diffAt(pre, p))
	}
}

// ---- C11

func knownC11() (out []string) {
	files, _, err := parse("--- /abs/x\n+++ /abs/x\n@@ -1 +1 @@\n-a\n+b\n")
	if err == nil && len(files) == 1 {
		again, _, err := parse(files[0].String())
		if err != nil || len(again) != 1 || again[0].NewName != files[0].NewName {
			out = append(out, "an absolute name in a traditional patch (--- /abs/x) becomes relative (abs/x) when formatted and parsed again")
		}
	}
	return
}

func runC11(c *Ctx) {
	r := c.R
	var text string
	switch r.N(12) {
	case 0, 1:
		for i := 0; i < 1+r.N(2); i++ {
			text += genTrad(r).render()
		}
		c.Note("traditional")
	case 2, 3: // lines of headers left out, moved, repeated or changed
		o := specOpts{name: genSafeName, maxLines: 5, ctx: 3, binary: true, plainMode: r.P(80), fullOID: r.P(40)}
		var files []*gitdiff.File
		for try := 0; len(files) == 0; try++ {
			text = renderOdd(r, genSpec(r, o), func(string) {})
			for try < 20 && r.P(70) {
				text = damageHeaders(r, text)
			}
			all, _, err := parse(text)
			if err != nil {
				continue
			}
			for _, f := range all {
				if !contradictory(f) {
					files = append(files, f)
				}
			}
		}
		c.Note("odd headers")
		c.Input("patch", text)
		roundTrip(c, files)
		return
	default:
		o := defaultSpecOpts(r)
		o.foreign = true
		specs, st := genSpecs(r, r.PickInt(1, 1, 2, 3), o)
		for _, f := range specs {
			text += f.renderGit(st)
		}
	}
	if r.P(20) {
		m := mutateWellFormed(r, text)
		if _, _, err := parse(m); err == nil {
			text = m
			c.Note("mutated")
		}
	}
	files, _, err := parse(text)
	if err != nil {
		c.Input("patch", text)
		c.Fail("parsing a valid patch failed: %v", err)
	}
	roundTrip(c, files)
}

// contradictory tells whether the header lines of a file contradict each other
// or have an absolute name (see known-findings.txt).
func contradictory(f *gitdiff.File) bool {
	abs := func(n string) bool { return strings.HasPrefix(n, "/") && n != "/dev/null" }
	switch {
	case f.IsNew && f.IsDelete:
		return true
	case f.IsNew && f.OldName != "" && f.OldName != "/dev/null", f.IsDelete && f.NewName != "" && f.NewName != "/dev/null":
		return true
	case f.OldName != f.NewName && f.OldName != "" && f.NewName != "" && !f.IsRename && !f.IsCopy && len(f.TextFragments) == 0:
		return true // nothing gives the names but lines that only fragments have
	}
	return abs(f.OldName) || abs(f.NewName)
}

// mutateWellFormed changes values of a patch but not its structure.
func mutateWellFormed(r *Rng, s string) string {
	lines := strings.SplitAfter(s, "\n")
	for i := 0; i < 1+r.N(3); i++ {
		j := r.N(len(lines))
		l := lines[j]
		switch {
		case strings.HasPrefix(l, "@@ -"):
			if k := strings.Index(l[3:], "@@"); k > 0 {
				lines[j] = l[:k+5] + r.Pick("", " ", " x", "x y", " @@ -1 +1 @@", "\t") + "\n"
			}
		case strings.HasPrefix(l, "+") && !strings.HasPrefix(l, "+++"), strings.HasPrefix(l, " "):
			lines[j] = l[:1] + genLineText(r, false) + "\n"
		case strings.HasPrefix(l, "old mode "), strings.HasPrefix(l, "new mode "):
			if r.P(20) {
				lines[j] = ""
				break
			}
			lines[j] = l[:9] + r.Pick("100644", "100755", "120000", "160000", "644", "1", "17777777777", "0100644") + "\n"
		case strings.HasPrefix(l, "index ") && r.P(10):
			lines[j] = "index " + r.Pick("abc..", "..abc", "abc.. 100644", "..abc 100755", ".. 100644", "..") + "\n"
		case strings.HasPrefix(l, "index "):
			lines[j] = "index " + r.Pick("0..1", "abc..def", "0000000..0000000", "ABCDEF0..1234567", strings.Repeat("a", 64)+".."+strings.Repeat("b", 64)) + r.Pick("", " 100644", " 100755", " 160000", " 644", " 40000", " 100000", " 1", " 777777") + "\n"
		case strings.HasPrefix(l, "similarity index "), strings.HasPrefix(l, "dissimilarity index "):
			lines[j] = l[:strings.LastIndexByte(l, ' ')+1] + r.Pick("0%", "1%", "100%", "99", "007%", "1000%") + "\n"
		}
	}
	return strings.Join(lines, "")
}

// roundTrip checks that formatting and parsing gives the same files.
func roundTrip(c *Ctx, files []*gitdiff.File) {
	var all strings.Builder
	for i, f := range files {
		before := cloneFile(f)
		s := f.String()
		c.ResetInputs()
		c.Input("file", fmt.Sprintf("%+v", *f))
		c.Input("formatted", s)
		again, pre, err := parse(s)
		c.Eval()
		c.Note("round trip")
		if err != nil {
			c.Fail("formatted file %d does not parse: %v", i+1, err)
		}
		if len(again) != 1 {
			c.Fail("formatted file %d parses to %d files", i+1, len(again))
		}
		if pre != "" {
			c.Fail("formatted file %d has the preamble %q", i+1, pre)
		}
		if d := fileDiff(before, again[0]); d != "" {
			c.Fail("formatting and parsing changed file %d: %s", i+1, d)
		}
		if s2 := again[0].String(); s2 != s {
			c.Fail("formatting again gives other text: %s", diffAt(s, s2))
		}
		c.Nontrivial(fnv64(s), func() string { return s })
		if f.IsBinary {
			c.Note("binary")
		}
		if f.IsRename || f.IsCopy {
			c.Note("rename")
		}
		rest := s
		for _, t := range f.TextFragments {
			ts := t.String()
			j := strings.Index(rest, ts)
			if j < 0 || ts == "" {
				c.Fail("the form of a fragment is not part of the form of the file: %q", ts)
			}
			if !strings.HasPrefix(ts, t.Header()+"\n") {
				c.Fail("the form of a fragment does not start with its header: %q, %q", t.Header(), ts)
			}
			rest = rest[j+len(ts):]
		}
		if len(f.TextFragments) > 0 && rest != "" {
			c.Fail("text after the last fragment: %q", rest)
		}
		if f.BinaryFragment != nil {
			bs := f.BinaryFragment.String()
			if f.ReverseBinaryFragment != nil {
				bs += f.ReverseBinaryFragment.String()
			}
			if !strings.HasSuffix(s, "GIT binary patch\n"+bs) {
				c.Fail("the form of the binary fragments is not the end of the form of the file")
			}
		}
		all.WriteString(s)
	}
	if len(files) > 1 {
		again, pre, err := parse(all.String())
		c.Eval()
		c.ResetInputs()
		c.Input("formatted", all.String())
		if err != nil {
			c.Fail("formatted files do not parse together: %v", err)
		}
		if d := filesDiff(files, again); d != "" || pre != "" {
			c.Fail("formatted files differ when parsed together: %s (preamble %q)", d, pre)
		}
		c.Note("together")
	}
}

package main

import (
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C30", Quick: 12000, Thorough: 200000,
		Run:    runC30,
		Rule:   "A case makes a tree and a patch of one to four files in an unusual but valid form (lines of the header left out, reordered, repeated or with other spacing, other prefixes, quotes, time stamps, traditional diffs, text between the files), half of the time with damaged header lines. git apply and the library (Parse, then Apply to each file) change the tree, and the trees must be equal if both succeed; without damage the library must succeed if git does. Distinct by patch text; trivial if git or the library refused it.",
		Floors: map[string]int{"both applied": 300, "both applied, damaged": 50, "damaged": 300, "no index": 50, "reordered": 30, "rename old": 3, "time stamps": 50, "no file lines": 20, "spaces in modes": 20, "comment without space": 20, "text between": 50, "no similarity": 10, "score without percent": 10, "redundant modes": 20, "repeated lines": 30, "file lines moved": 20, "CRLF headers": 10, "other prefixes": 20, "double slash": 5, "short binary lines": 10, "quoted": 50, "top level": 50, "one name quoted": 10, "rename without rename lines": 5, "new name extends the old one": 20, "traditional": 50, "refused by git": 5},
	})
}

// plainTree is a tree of names with modes and contents.
type plainTree map[string]treeEntry

// writeIndex makes a git index and the objects for a tree.
func (g *gitRepo) writeIndex(tree plainTree, file string) {
	var names []string
	for n := range tree {
		names = append(names, n)
	}
	sort.Strings(names)
	var b bytes.Buffer
	u32 := func(v uint32) { binary.Write(&b, binary.BigEndian, v) }
	b.WriteString("DIRC")
	u32(2)
	u32(uint32(len(names)))
	for _, n := range names {
		e := tree[n]
		id := oid([]byte(e.data))
		dir := filepath.Join(g.dir, "objects", id[:2])
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		obj := deflate([]byte(fmt.Sprintf("blob %d\x00%s", len(e.data), e.data)), 1)
		if err := os.WriteFile(filepath.Join(dir, id[2:]), obj, 0o644); err != nil {
			panic(err)
		}
		start := b.Len()
		b.Write(make([]byte, 24))
		u32(uint32(e.mode))
		b.Write(make([]byte, 12))
		raw, _ := hex.DecodeString(id)
		b.Write(raw)
		l := len(n)
		if l > 0xfff {
			l = 0xfff
		}
		binary.Write(&b, binary.BigEndian, uint16(l))
		b.WriteString(n)
		b.Write(make([]byte, 8-(b.Len()-start)%8))
	}
	sum := sha1.Sum(b.Bytes())
	b.Write(sum[:])
	if err := os.WriteFile(filepath.Join(g.dir, file), b.Bytes(), 0o644); err != nil {
		panic(err)
	}
}

// readIndex returns names with modes and object ids.
func (g *gitRepo) readIndex(file string) map[string]string {
	b, err := os.ReadFile(filepath.Join(g.dir, file))
	if err != nil {
		panic(err)
	}
	if string(b[:4]) != "DIRC" || binary.BigEndian.Uint32(b[4:]) != 2 {
		panic("unexpected index format")
	}
	out := map[string]string{}
	n := int(binary.BigEndian.Uint32(b[8:]))
	p := 12
	for i := 0; i < n; i++ {
		end := p + 62 + bytes.IndexByte(b[p+62:], 0)
		out[string(b[p+62:end])] = fmt.Sprintf("%06o %x", binary.BigEndian.Uint32(b[p+24:]), b[p+40:p+60])
		p += (end - p + 8) / 8 * 8
	}
	return out
}

// renderOdd prints a file in a form that git does not print but accepts.
func renderOdd(r *Rng, f *FileSpec, note func(string)) string {
	quote := func(prefix, name string) string {
		q := gitQuote(prefix, name, r.P(70))
		if q[0] != '"' && r.P(8) {
			note("quoted")
			var b strings.Builder
			for _, ch := range []byte(prefix + name) {
				if r.P(20) {
					fmt.Fprintf(&b, `\%03o`, ch)
				} else if ch == '"' || ch == '\\' {
					b.WriteString("\\" + string(rune(ch)))
				} else {
					b.WriteByte(ch)
				}
			}
			return `"` + b.String() + `"`
		}
		return q
	}
	op, np := "a/", "b/"
	if r.P(10) {
		op, np = r.Pick("x/", "old/", "b/", "./"), r.Pick("y/", "new/", "a/", "./")
		note("other prefixes")
	}
	if r.P(3) {
		op += "/"
		note("double slash")
	}
	oq, nq := quote(op, f.Old), quote(np, f.New)
	if oq[0] == '"' != (nq[0] == '"') {
		note("one name quoted")
	}
	var b strings.Builder
	sep := " "
	if oq[0] == '"' && r.P(15) {
		sep = r.Pick("  ", "   ", " \t", "\t")
		note("spaces after quoted name")
	}
	fmt.Fprintf(&b, "diff --git %s%s%s\n", oq, sep, nq)
	// git reads tabs in the names of renames and copies
	tabbed := func(n string) string {
		if q := quote("", n); q[0] != '"' || !strings.Contains(n, "\t") || strings.ContainsAny(n, "\r\n\"") || n[len(n)-1] == '\t' || n[len(n)-1] == ' ' || r.P(50) {
			return q
		}
		note("tab in unquoted name")
		return n
	}

	space := func() string {
		if r.P(8) {
			note("spaces in modes")
			return r.Pick("  ", "   ")
		}
		return " "
	}
	tail := func() string {
		if r.P(4) {
			note("spaces in modes")
			return " "
		}
		return ""
	}
	var ext []string
	add := func(format string, args ...any) { ext = append(ext, fmt.Sprintf(format, args...)+"\n") }
	modeChange := f.OldMode != f.NewMode
	switch {
	case f.Kind == "create":
		add("new file mode%s%06o%s", space(), f.NewMode, tail())
	case f.Kind == "delete":
		add("deleted file mode%s%06o%s", space(), f.OldMode, tail())
	case modeChange || r.P(10):
		if !modeChange {
			note("redundant modes")
		}
		add("old mode%s%06o%s", space(), f.OldMode, tail())
		add("new mode%s%06o%s", space(), f.NewMode, tail())
	}
	implicit := f.Kind == "rename" && len(f.Hunks) > 0 && f.Binary == "" && r.P(15)
	switch f.Kind {
	case "rename", "copy":
		if implicit {
			note("rename without rename lines")
			break
		}
		percent := "%"
		if r.P(10) {
			percent = ""
			note("score without percent")
		}
		if r.P(85) {
			add("similarity index %d%s", f.Score, percent)
		} else {
			note("no similarity")
		}
		from, to := "from", "to"
		if f.Kind == "rename" && r.P(10) {
			from, to = "old", "new"
			note("rename old")
		}
		add("%s %s %s", f.Kind, from, tabbed(f.Old))
		add("%s %s %s", f.Kind, to, tabbed(f.New))
	default:
		if f.Score > 0 || r.P(3) {
			add("dissimilarity index %d%%", f.Score)
		}
	}
	full := f.Binary != "" // git needs full ids for binary data
	switch {
	case f.NoIndex && !full:
	case !full && r.P(20):
		note("no index")
	default:
		mode := ""
		if f.Kind != "create" && f.Kind != "delete" && !modeChange && r.P(80) {
			mode = fmt.Sprintf(" %06o", f.OldMode)
		}
		add("index %s..%s%s", f.OldOID, f.NewOID, mode)
	}
	if len(ext) > 1 && r.P(20) {
		note("reordered")
		r.Shuffle(len(ext), func(i, j int) { ext[i], ext[j] = ext[j], ext[i] })
	}
	if len(ext) > 0 && r.P(10) {
		note("repeated lines")
		i := r.N(len(ext))
		ext = append(ext[:i+1], ext[i:]...)
	}
	if len(f.Hunks) == 0 {
		b.WriteString(strings.Join(ext, ""))
	}

	if f.Binary != "" {
		line := 52
		if r.P(25) {
			line = 4 * (1 + r.N(13))
			note("short binary lines")
		}
		b.WriteString("GIT binary patch\n" + renderBinary(f.Binary, f.BinSize, f.BinRaw, line))
		if f.RevMethod != "" && r.P(80) {
			b.WriteString(renderBinary(f.RevMethod, f.RevSize, f.BinRev, line))
		}
		return b.String()
	}
	if len(f.Hunks) == 0 {
		return b.String()
	}
	stamp := func(q string) string {
		if r.P(15) {
			note("time stamps")
			return "\t" + r.Pick("2024-02-03 04:05:06.123456789 +0100", "Sat Feb  3 04:05:06 2024", "(revision 7)", "")
		}
		if q[0] != '"' && strings.Contains(q, " ") {
			return "\t"
		}
		return ""
	}
	left, right := oq, nq
	crlf := r.P(6)
	if f.Kind == "create" {
		left = "/dev/null"
	}
	if f.Kind == "delete" {
		right = "/dev/null"
	}
	if r.P(8) && !implicit {
		note("no file lines")
	} else {
		add("--- %s%s", left, stamp(left))
		add("+++ %s%s", right, stamp(right))
		if f.Kind != "create" && f.Kind != "delete" && r.P(15) {
			note("file lines moved")
			r.Shuffle(len(ext), func(i, j int) { ext[i], ext[j] = ext[j], ext[i] })
		}
	}
	b.WriteString(strings.Join(ext, ""))
	if len(ext) > 0 {
		if crlf {
			note("CRLF headers")
			ls := strings.SplitAfter(b.String(), "\n")
			b.Reset()
			for _, l := range ls {
				if !strings.Contains(l, "similarity index ") || strings.Contains(l, "/") {
					// no text after the score: documented
					l = strings.Replace(l, "\n", "\r\n", 1)
				}
				b.WriteString(l)
			}
		}
	}
	renderOddHunks(r, &b, f.Hunks, note)
	return b.String()
}

func renderOddHunks(r *Rng, b *strings.Builder, hs []Hunk, note func(string)) {
	short, gnuEmpty, marker := r.P(80), r.P(15), r.Pick(markers[:6]...)
	for _, h := range hs {
		if r.P(10) {
			h.Comment = r.Pick("func x() {", "@@ -1 +1 @@", "\t", "x @@ y")
		}
		var hb strings.Builder
		renderHunk(&hb, h, short, gnuEmpty, marker)
		s := hb.String()
		if h.Comment != "" && r.P(20) {
			note("comment without space")
			s = strings.Replace(s, " @@ "+h.Comment, " @@"+h.Comment, 1)
		}
		b.WriteString(s)
	}
}

// renderTradFile prints a file as other tools do.
func renderTradFile(r *Rng, f *FileSpec, note func(string)) string {
	note("traditional")
	var b strings.Builder
	if r.P(30) {
		b.WriteString(r.Pick("Index: x\n"+strings.Repeat("=", 67)+"\n", "diff -u a/x b/x\n", "diff -Naur old/x new/x\n", "Only in old: y\n"))
	}
	stamp := func(epoch bool) string {
		if epoch {
			return r.Pick("\t1970-01-01 00:00:00.000000000 +0000", "\t1969-12-31 19:00:00.000000000 -0500", "\t1970-01-01 01:00:00 +0100")
		}
		return r.Pick("", "\t2024-02-03 04:05:06.123456789 +0100", "\t(working copy)", "\tSat Feb  3 04:05:06 2024")
	}
	op, np := r.Pick("a/", "x/", "old/"), r.Pick("b/", "x/", "new/")
	left, right := op+f.Old+stamp(false), np+f.New+stamp(false)
	switch f.Kind {
	case "create":
		left = r.Pick("/dev/null", "/dev/null"+stamp(true), op+f.Old+stamp(true))
	case "delete":
		right = r.Pick("/dev/null", "/dev/null"+stamp(true), np+f.New+stamp(true))
	}
	fmt.Fprintf(&b, "--- %s\n+++ %s\n", left, right)
	renderOddHunks(r, &b, f.Hunks, note)
	return b.String()
}

// damageHeaders changes lines of headers, never those of fragments.
func damageHeaders(r *Rng, text string) string {
	ls := strings.SplitAfter(text, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	var idx []int // lines of headers
	in := false
	for i, l := range ls {
		switch {
		case strings.HasPrefix(l, "diff --git "), strings.HasPrefix(l, "--- ") && i+1 < len(ls) && strings.HasPrefix(ls[i+1], "+++ "):
			in = true
		case strings.HasPrefix(l, "@@ -"), strings.HasPrefix(l, "GIT binary"):
			in = false
		}
		if in {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return text
	}
	out := append([]string(nil), ls...)
	for n := r.PickInt(1, 1, 1, 2, 3); n > 0; n-- {
		k := r.N(len(idx))
		i := idx[k]
		switch r.N(7) {
		case 0:
			out[i] = ""
		case 1:
			out[i] += out[i]
		case 2:
			j := idx[r.N(len(idx))]
			out[i], out[j] = out[j], out[i]
		case 3: // a line of another file
			out[i] += ls[idx[r.N(len(idx))]]
		case 4, 5: // a character
			if len(out[i]) > 1 {
				b := []byte(out[i])
				p := r.N(len(b) - 1)
				switch r.N(3) {
				case 0:
					b[p] = r.Pick(" ", "/", "a", "b", "\"", "\\", "0", "6", "7", "x", "\t", ".", "%", "\r")[0]
				case 1:
					b = append(b[:p:p], b[p+1:]...)
				default:
					b = append(b[:p:p], append([]byte(r.Pick(" ", "/", "a", "\"", "\\", "0", "1", "\t", "\r")), b[p:]...)...)
				}
				out[i] = string(b)
			}
		case 6:
			out[i] += r.Pick("old mode 100644\n", "new mode 100755\n", "new mode 100644\n", "deleted file mode 100644\n", "new file mode 100644\n", "similarity index 50%\n", "rename from x\n", "rename to y\n", "index 1234567..89abcde\n", "index 1234567..89abcde 100755\n", "old mode 100644\nindex 1234567..89abcde 100755\n", "old mode 100755\nindex 1234567..89abcde 100644\n", "similarity index 50%\nsimilarity index 70%\n", "unknown\n", "\n")
		}
	}
	return strings.Join(out, "")
}

// otherEscapes tells whether quoted parts of lines have escape sequences that
// Go knows and git does not, or quoted names lack the prefix that is removed.
func otherEscapes(text string) bool {
	for _, l := range strings.Split(text, "\n") {
		i := strings.IndexByte(l, '"')
		if i < 0 {
			continue
		}
		if j := strings.IndexByte(l[i+1:], '"'); j >= 0 && !strings.HasPrefix(l, "rename ") && !strings.HasPrefix(l, "copy ") && !strings.Contains(l[i+1:i+1+j], "/") {
			return true
		}
		for i++; i+1 < len(l); i++ {
			if l[i] != '\\' {
				continue
			}
			i++
			if strings.IndexByte("abfnrtv\"\\01234567", l[i]) < 0 {
				return true
			}
		}
	}
	return false
}

// canonicalMode is the mode that git records.
func canonicalMode(m int) int {
	switch {
	case m&0o170000 == 0o120000:
		return 0o120000
	case m&0o170000 == 0o160000:
		return 0o160000
	case m&0o100 != 0:
		return 0o100755
	}
	return 0o100644
}

// applyPatchTo applies all files to a copy of the tree, as git does: all old
// contents are read before anything is written. The reason is not empty if
// that is not possible.
func applyPatchTo(tree plainTree, files []*gitdiff.File, name func(f *gitdiff.File, n string) string) (plainTree, string) {
	out := plainTree{}
	for n, e := range tree {
		out[n] = e
	}
	for i, f := range files {
		old, nw := name(f, f.OldName), name(f, f.NewName)
		var e treeEntry
		if f.IsNew {
			e.mode = 0o100644
		} else {
			var ok bool
			if e, ok = out[old]; !ok {
				return nil, fmt.Sprintf("file %d: there is no %q", i, old)
			}
		}
		got, err := applyTo(newSrc([]byte(e.data)), f, 1<<26)
		if err != nil {
			return nil, fmt.Sprintf("file %d: %v", i, err)
		}
		e.data = string(got)
		if f.NewMode != 0 {
			e.mode = canonicalMode(int(f.NewMode))
		}
		if f.IsDelete {
			if len(got) > 0 {
				return nil, fmt.Sprintf("file %d: deleted, but has contents", i)
			}
			delete(out, old)
			continue
		}
		if f.IsRename || !f.IsCopy && !f.IsNew {
			delete(out, old)
		}
		out[nw] = e
	}
	return out, ""
}

func runC30(c *Ctx) {
	r := c.R
	notes := map[string]bool{}
	note := func(s string) { notes[s] = true }
	tree := plainTree{"keep": {mode: 0o100644, data: "k\n"}}
	var b strings.Builder
	trad := map[int]bool{}
	if r.P(20) {
		b.WriteString(mailHead)
	}
	nfiles := r.PickInt(1, 1, 2, 3, 4)
	for i := 0; i < nfiles; i++ {
		o := specOpts{name: genSafeName, maxLines: r.PickInt(3, 12), ctx: r.PickInt(1, 2, 3, 3, 5, 100), binary: true, noNoData: true, plainMode: r.P(80), fullOID: r.P(40)}
		if r.P(40) {
			o.name = genName
		}
		f := genSpec(r, o)
		if f.Binary != "" {
			f.setOIDs(r, true)
		}
		same := f.Old == f.New
		if !same && (strings.HasPrefix(f.Old, f.New+"/") || strings.HasPrefix(f.New, f.Old+"/")) || nfiles > 1 || r.P(30) {
			f.Old = fmt.Sprintf("p%d/%s", i, f.Old)
			f.New = fmt.Sprintf("q%d/%s", i, f.New)
		} else {
			note("top level")
			if r.P(20) {
				f.Old, f.New = "."+f.Old, "."+f.New
			}
		}
		if same {
			f.New = f.Old
		} else if r.P(25) {
			f.New = f.Old + r.Pick(".bak", "~", " 2", ".c", "x", "-1")
			note("new name extends the old one")
			if r.P(50) {
				f.Old, f.New = f.New, f.Old
			}
		}
		if f.Kind != "create" {
			tree[f.Old] = treeEntry{mode: f.OldMode, data: string(f.A)}
		}
		if r.P(15) && len(f.Hunks) > 0 && f.Old == f.New && f.OldMode == f.NewMode && !strings.ContainsAny(f.Old, " \t\n\"\\\r") {
			if f.Kind == "create" {
				f.NewMode = 0o100644
			}
			trad[i] = true
			b.WriteString("\n") // ends the header of the file before
			b.WriteString(renderTradFile(r, f, note))
		} else {
			b.WriteString(renderOdd(r, f, note))
		}
		if r.P(15) {
			note("text between")
			b.WriteString(r.Pick("-- \n2.43.0\n\n", "\nIndex: x\n====\n", "\n\n", "Only in x: y\n", "text\n"))
		}
	}
	patch := b.String()
	damaged := r.P(50)
	if damaged {
		if d := damageHeaders(r, patch); d != patch {
			patch = d
			note("damaged")
		} else {
			damaged = false
		}
	}
	c.Input("patch", patch)
	for n := range notes {
		c.Note(n)
	}

	g := newGitRepo("")
	defer g.remove()
	g.mayDie = damaged // assertions of git fail for some patches
	g.writeIndex(tree, "index")
	_, stderr, code := g.try(patch, []string{"GIT_INDEX_FILE=" + g.dir + "/index"}, "apply", "--cached", "--whitespace=nowarn", "-v")
	if code != 0 && code != 1 && code != 128 && !damaged {
		panic(fmt.Sprintf("git apply: code %d: %s", code, stderr))
	}
	gitOK := code == 0 && !strings.Contains(stderr, "offset") && !strings.Contains(stderr, "has type") &&
		strings.Count(stderr, "Checking patch ") == nfiles // git skips files without any header lines
	c.Eval()
	if !gitOK {
		c.Note("refused by git")
		if !damaged {
			c.Note("refused by git, not damaged")
		}
	}

	files, _, err := parse(patch)
	if err != nil {
		if gitOK && !damaged {
			c.Fail("git apply accepts the patch, but it does not parse: %v", err)
		}
		c.Note("refused by the library")
		return
	}
	// traditional names keep their prefixes
	git := map[*gitdiff.File]bool{}
	strip := func(f *gitdiff.File, n string) string {
		if git[f] {
			return n
		}
		if i := strings.IndexByte(n, '/'); i >= 0 {
			return n[i+1:]
		}
		return n
	}
	if damaged && (len(trad) > 0 || strings.Count("\n"+patch, "\ndiff --git ") != nfiles || len(files) != nfiles) {
		return // which ones are traditional is not known
	}
	if damaged && otherEscapes(patch) {
		return // git reads such names as if they were not quoted
	}
	if len(files) != nfiles {
		c.Fail("%d files instead of %d", len(files), nfiles)
	}
	for i, f := range files {
		git[f] = !trad[i]
		if damaged && (f.OldName == "/dev/null" || f.NewName == "/dev/null") {
			return // a side that is missing in a file that is not new or deleted
		}
	}
	got, why := applyPatchTo(tree, files, strip)
	if why != "" {
		if gitOK && !damaged {
			c.Fail("git apply accepts the patch, but the library cannot apply it: %s", why)
		}
		c.Note("refused by the library")
		return
	}
	if !gitOK {
		return
	}
	for _, f := range files {
		if e, ok := got[strip(f, f.NewName)]; damaged && ok && f.IsBinary && !strings.HasPrefix(oid([]byte(e.data)), f.NewOIDPrefix) {
			c.Note("result by object id")
			return // git takes the result from its objects if it has it
		}
	}
	c.Note("both applied")
	for _, f := range files {
		// git warns of modes that differ, which is refused above
		if e, ok := tree[f.OldName]; ok && git[f] && !f.IsNew && f.OldMode != 0 {
			c.Note("old mode")
			if int(f.OldMode) != canonicalMode(e.mode) {
				c.Fail("%q: the old mode is %o, but git apply reads %o", f.OldName, f.OldMode, canonicalMode(e.mode))
			}
		}
	}
	if damaged {
		c.Note("both applied, damaged")
	}
	c.Nontrivial(fnv64(patch), func() string { return patch })
	want := g.readIndex("index")
	var names []string
	have := map[string]string{}
	for n, e := range got {
		have[n] = fmt.Sprintf("%06o %s", canonicalMode(e.mode), oid([]byte(e.data)))
		names = append(names, n)
	}
	for n := range want {
		if _, ok := have[n]; !ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if want[n] != have[n] {
			c.Fail("%q: git apply makes %q, the library %q", n, want[n], have[n])
		}
	}
}

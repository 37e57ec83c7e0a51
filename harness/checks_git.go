package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C12", Quick: 2500, Thorough: 60000,
		Rule:   "A case builds a tree in a scratch repository, applies a generated patch to an index with git apply, applies the String form of the parsed patch to another index, and compares both with each other and with the specification. Distinct by patch text; cases that git refuses to apply do not count.",
		Run:    runC12,
		Floors: map[string]int{"compared": 700, "modify+text": 300, "create+text": 100, "delete+text": 100, "rename": 50, "copy": 30, "rename+text": 50, "modify+literal": 50, "modify+delta": 40, "modify+mode": 30, "create": 10, "delete": 10, "quoted name": 100, "symlink": 30, "no newline at end": 100},
	})
	register(&Check{
		ID: "C13", Quick: 2500, Thorough: 60000,
		Rule:   "A case builds two trees in a scratch repository, prints their difference with git diff under random options, compares the parsed files with git diff --raw, and applies every file with data to its old content. Distinct by patch text.",
		Run:    runC13,
		Floors: map[string]int{"status A": 300, "status D": 300, "status M": 500, "status R": 50, "status C": 10, "status T": 50, "applied text": 1000, "applied literal": 100, "applied delta": 20, "applied reverse": 100, "gitlink": 50, "symlink": 50, "mode change": 50, "no data": 30, "dissimilarity": 2, "zero context": 50},
	})
}

// ---- C12

func runC12(c *Ctx) {
	r := c.R
	st := genStyle(r)
	if len(st.Marker) == 12 {
		st.Marker = noEOL // git ignores it at the end of a patch
	}
	var specs []*FileSpec
	for i := 0; i < r.PickInt(1, 2, 4, 6); i++ {
		o := defaultSpecOpts(r)
		o.binary, o.noNoData, o.plainMode = true, true, true
		o.fullOID = r.P(50)
		f := genSpec(r, o)
		if f.OldMode == f.NewMode && r.P(10) && f.Binary == "" {
			f.OldMode, f.NewMode = 0o120000, 0o120000
		}
		// keep the names apart from each other
		same := f.Old == f.New
		f.Old = fmt.Sprintf("p%d/%s", i, f.Old)
		f.New = fmt.Sprintf("q%d/%s", i, f.New)
		if same {
			f.New = f.Old
		}
		specs = append(specs, f)
	}
	var b, imp strings.Builder
	imp.WriteString("commit refs/heads/main\ncommitter x <x@x> 1 +0000\ndata 0\n\n")
	want := map[string]string{}
	entry := func(name string, mode int, data []byte) {
		want[name] = fmt.Sprintf("%06o %s 0", mode, oid(data))
	}
	imp.WriteString("M 100644 inline keep\ndata 2\nk\n\n")
	entry("keep", 0o100644, []byte("k\n"))
	for _, f := range specs {
		b.WriteString(f.renderGit(st))
		if f.Kind != "create" {
			fmt.Fprintf(&imp, "M %06o inline %s\n%s", f.OldMode, importPath(f.Old), importData(string(f.A)))
		}
		switch f.Kind {
		case "copy":
			entry(f.Old, f.OldMode, f.A)
			entry(f.New, f.NewMode, f.B)
		case "delete":
		default:
			entry(f.New, f.NewMode, f.B)
		}
	}
	patch := b.String()
	c.Input("patch", patch)
	files, _, err := parse(patch)
	if err != nil || len(files) != len(specs) {
		c.Fail("a valid patch with %d files parses to %d files, error %v", len(specs), len(files), err)
	}
	var fb strings.Builder
	for _, f := range files {
		fb.WriteString(f.String())
	}
	formatted := fb.String()
	c.Input("formatted", formatted)

	g := newGitRepo("")
	defer g.remove()
	g.fastImport(imp.String())
	apply := func(index, text string) (map[string]string, string) {
		env := []string{"GIT_INDEX_FILE=" + g.dir + "/" + index}
		if _, e, code := g.try("", env, "read-tree", "main"); code != 0 {
			panic("git read-tree: " + e)
		}
		if _, e, code := g.try(text, env, "apply", "--cached", "--unidiff-zero", "--whitespace=nowarn"); code != 0 {
			return nil, e
		}
		out, e, code := g.try("", env, "ls-files", "-s", "-z")
		if code != 0 {
			panic("git ls-files: " + e)
		}
		tree := map[string]string{}
		for _, l := range strings.Split(out, "\x00") {
			if l != "" {
				info, name, _ := strings.Cut(l, "\t")
				tree[name] = info
			}
		}
		return tree, ""
	}
	orig, e1 := apply("index1", patch)
	if orig == nil {
		c.Note("git refused the original: " + clip(strings.TrimSpace(firstLine(e1)), 30))
		return
	}
	got, e2 := apply("index2", formatted)
	c.Eval()
	c.Nontrivial(fnv64(patch), func() string { return formatted })
	if got == nil {
		c.Fail("git apply refused the formatted patch: %s", clip(e2, 500))
	}
	compare := func(what string, want, got map[string]string) {
		names := map[string]bool{}
		for n := range want {
			names[n] = true
		}
		for n := range got {
			names[n] = true
		}
		var sorted []string
		for n := range names {
			sorted = append(sorted, n)
		}
		sort.Strings(sorted)
		for _, n := range sorted {
			if want[n] != got[n] {
				c.Fail("%s: %q: want %q, got %q", what, n, want[n], got[n])
			}
		}
	}
	compare("formatted patch compared with the original", orig, got)
	// git looks for fragments without context at other positions than those
	// of the patch if they repeat there, so its result for those is only
	// compared with its result for the original
	if noContext(files) {
		c.Note("fragment without context")
	} else {
		compare("formatted patch compared with the specification", want, got)
		c.Note("compared with the specification")
	}
	c.Note("compared")
	for _, f := range specs {
		c.Note(f.shape())
		if f.OldMode == 0o120000 {
			c.Note("symlink")
		}
		if gitQuote("", f.New, true)[0] == '"' {
			c.Note("quoted name")
		}
	}
	if strings.Contains(formatted, "\n\\ No newline at end of file\n") {
		c.Note("no newline at end")
	}
}

// noContext returns true if any fragment that changes an existing file has no
// context.
func noContext(files []*gitdiff.File) bool {
	for _, f := range files {
		for _, t := range f.TextFragments {
			if t.LeadingContext+t.TrailingContext == 0 && !f.IsNew && !f.IsDelete {
				return true
			}
		}
	}
	return false
}

// ---- C13

type treeEntry struct {
	mode int
	data string // object id for gitlinks
}

// genTreePair makes two related trees.
func genTreePair(r *Rng) (a, b map[string]treeEntry) {
	a, b = map[string]treeEntry{}, map[string]treeEntry{}
	used := map[string]bool{}
	fresh := func() string {
		for {
			n := genName(r)
			if r.P(70) {
				n = genSafeName(r)
			}
			// no file may be the directory of another
			n = fmt.Sprintf("t%d/%s", len(used), n)
			if r.P(30) {
				n = strings.ReplaceAll(n, "/", "_")
				if !validName(n) {
					continue
				}
			}
			if !used[n] {
				used[n] = true
				return n
			}
		}
	}
	mode := func() int { return r.PickInt(0o100644, 0o100644, 0o100644, 0o100755) }
	text := func() (string, string) {
		s := genScript(r, r.PickInt(0, 3, 10, 30, 80), r.P(3))
		return s.Old(), s.New()
	}
	binary := func() (string, string) {
		x := r.Bytes(r.Size(300, 0, 1, 26, 52, 4096, 70000))
		x = append([]byte{0}, x...)
		y := append([]byte(nil), x...)
		switch r.N(4) {
		case 0:
			y = append([]byte{0}, r.Bytes(r.N(300))...)
		case 1:
			y = append(y, r.Bytes(1+r.N(100))...)
		default:
			for i := 0; i < 1+r.N(4); i++ {
				y[r.N(len(y))] = byte(r.U64())
			}
			k := r.N(len(y))
			y = append(append(append([]byte(nil), y[k:]...), 0), y[:k]...)
		}
		return string(x), string(y)
	}
	content := func() (string, string) {
		if r.P(25) {
			return binary()
		}
		return text()
	}
	big := func() string {
		var sb strings.Builder
		for i := 0; i < 20+r.N(20); i++ {
			fmt.Fprintf(&sb, "%d %s\n", r.N(1000), genLineText(r, false))
		}
		return sb.String()
	}
	for i := 0; i < 1+r.N(8); i++ {
		n := fresh()
		x, y := content()
		m := mode()
		switch k := r.N(20); {
		case k < 7:
			a[n], b[n] = treeEntry{m, x}, treeEntry{m, y}
		case k < 9:
			a[n] = treeEntry{m, x}
		case k < 11:
			b[n] = treeEntry{m, y}
		case k < 12:
			a[n], b[n] = treeEntry{0o100644, x}, treeEntry{0o100755, r.Pick(x, y)}
		case k < 13: // symlinks
			t, u := genSafeName(r), genName(r)
			if r.P(50) {
				a[n] = treeEntry{0o120000, t}
			}
			b[n] = treeEntry{0o120000, u}
		case k < 14: // gitlinks
			t, u := fmt.Sprintf("%x", r.Bytes(20)), fmt.Sprintf("%x", r.Bytes(20))
			switch r.N(3) {
			case 0:
				a[n], b[n] = treeEntry{0o160000, t}, treeEntry{0o160000, u}
			case 1:
				a[n] = treeEntry{0o160000, t}
			case 2:
				b[n] = treeEntry{0o160000, u}
			}
		case k < 15: // type changes
			es := []treeEntry{{0o100644, x}, {0o120000, "target"}, {0o160000, fmt.Sprintf("%x", r.Bytes(20))}, {0o100755, y}}
			i, j := r.N(3), r.N(3)
			for i == j {
				j = r.N(3)
			}
			a[n], b[n] = es[i], es[j]
		case k < 18: // renames
			t := r.Pick(big(), x)
			u := t
			if r.P(60) {
				u = strings.Replace(t, "\n", "\nchanged\n", 1)
			}
			a[n], b[fresh()] = treeEntry{m, t}, treeEntry{mode(), u}
		default: // copies
			t := big()
			u := t
			if r.P(60) {
				u += "changed\n"
			}
			a[n], b[fresh()] = treeEntry{m, t}, treeEntry{m, u}
			b[n] = treeEntry{m, r.Pick(t, t+"more\n")}
		}
	}
	return
}

func runC13(c *Ctx) {
	r := c.R
	a, b := genTreePair(r)
	g := newGitRepo("")
	defer g.remove()
	var imp strings.Builder
	blobs := map[string]string{}
	for i, t := range []map[string]treeEntry{a, b} {
		fmt.Fprintf(&imp, "commit refs/heads/t%d\nmark :%d\ncommitter x <x@x> 1 +0000\ndata 0\n\n", i, i+1)
		var names []string
		for n := range t {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			e := t[n]
			if e.mode == 0o160000 {
				fmt.Fprintf(&imp, "M 160000 %s %s\n", e.data, importPath(n))
				blobs[e.data] = "Subproject commit " + e.data + "\n"
				continue
			}
			fmt.Fprintf(&imp, "M %06o inline %s\n%s", e.mode, importPath(n), importData(e.data))
			blobs[oid([]byte(e.data))] = e.data
		}
	}
	g.fastImport(imp.String())

	// options that select what is compared, for both outputs
	var detect, format []string
	pick := func(to *[]string, pct int, opts ...string) string {
		if !r.P(pct) {
			return ""
		}
		o := opts[r.N(len(opts))]
		*to = append(*to, strings.Split(o, "\x00")...)
		return o
	}
	pick(&detect, 70, "-M", "-C", "--no-renames", "-M30%", "-C\x00--find-copies-harder", "-M100%", "-B\x00-M", "-B", "-B10%/20%", "-C\x00-C\x00-B")
	if r.P(10) {
		detect = append(detect, "-R")
	}
	ctx := pick(&format, 60, "-U0", "-U0", "-U1", "-U2", "-U5", "-U20", "-U1000")
	pick(&format, 40, "--minimal", "--patience", "--histogram", "--diff-algorithm=myers", "--anchored=a", "--no-indent-heuristic")
	pick(&format, 20, "--inter-hunk-context=1", "--inter-hunk-context=5")
	pick(&format, 15, "-W")
	withData := pick(&format, 70, "--binary") != ""
	pick(&format, 30, "--full-index", "--abbrev=4", "--abbrev=20", "--abbrev=40")
	pick(&format, 15, "--src-prefix=x/\x00--dst-prefix=y/", "--src-prefix=old/", "--src-prefix=b/\x00--dst-prefix=a/", "--src-prefix=sp ace/\x00--dst-prefix=sp ace/")
	pre := pick(&format, 15, "-p\x00--stat", "-p\x00--summary", "-p\x00--shortstat", "-p\x00--numstat", "-p\x00--raw", "-p\x00--dirstat", "-p\x00--compact-summary")
	text := pick(&format, 10, "-a")
	irr := ""
	if !strings.Contains(strings.Join(detect, " "), "-B") {
		// of rewrites, -D prints fragments with "?" in place of numbers
		irr = pick(&format, 7, "-D")
	}
	var cfg []string
	if r.P(40) {
		cfg = append(cfg, "-c", "core.quotePath=false")
	}
	if r.P(15) {
		cfg = append(cfg, "-c", "diff.mnemonicPrefix=true")
	}
	if r.P(10) {
		cfg = append(cfg, "-c", "diff.suppressBlankEmpty=true")
	}
	base := append(append([]string{}, cfg...), "diff", "--no-color", "--no-ext-diff")
	patch := g.run("", append(append(append(append([]string{}, base...), detect...), format...), "refs/heads/t0", "refs/heads/t1")...)
	raw := g.run("", append(append(append([]string{}, base...), detect...), "--raw", "-z", "--no-abbrev", "refs/heads/t0", "refs/heads/t1")...)
	c.Input("options", fmt.Sprint(cfg, detect, format))
	c.Input("git diff", patch)
	c.Input("git diff --raw", raw)
	if patch == "" {
		return
	}
	if contains(format, "-W") && overlappingHunks(patch) {
		c.Note("hunks of git that overlap")
		return
	}
	c.Nontrivial(fnv64(patch), func() string { return fmt.Sprint(cfg, detect, format) + "\n" + patch })
	if ctx == "-U0" {
		c.Note("zero context")
	}

	files, preamble, err := parse(patch)
	c.Eval()
	if err != nil {
		c.Fail("parsing the output of git diff %v %v failed: %v", detect, format, err)
	}
	if pre == "" && preamble != "" {
		c.Fail("preamble %q", clip(preamble, 300))
	}

	type rawEntry struct {
		oldMode, newMode int
		oldID, newID     string
		status           byte
		score            int
		from, to         string
	}
	var entries []rawEntry
	fields := strings.Split(raw, "\x00")
	for i := 0; i+1 < len(fields); {
		var e rawEntry
		var st string
		if _, err := fmt.Sscanf(fields[i], ":%o %o %s %s %s", &e.oldMode, &e.newMode, &e.oldID, &e.newID, &st); err != nil {
			panic(fmt.Sprintf("raw entry %q: %v", fields[i], err))
		}
		e.status = st[0]
		if len(st) > 1 {
			e.score, _ = strconv.Atoi(st[1:])
		}
		e.from = fields[i+1]
		e.to = e.from
		i += 2
		if e.status == 'R' || e.status == 'C' {
			e.to = fields[i]
			i++
		}
		c.Note("status " + string(e.status))
		if e.status == 'T' {
			// git prints a deletion and a creation
			d, n := e, e
			d.score, n.score = 0, 0
			d.status, d.newMode, d.newID = 'D', 0, strings.Repeat("0", 40)
			n.status, n.oldMode, n.oldID = 'A', 0, strings.Repeat("0", 40)
			entries = append(entries, d, n)
			continue
		}
		entries = append(entries, e)
	}
	if len(files) != len(entries) {
		c.Fail("git reports %d changes, parsing returned %d files", len(entries), len(files))
	}

	for i, e := range entries {
		f := files[i]
		bad := func(format string, args ...any) {
			c.Fail("change %d (%c %q %q): %s", i+1, e.status, e.from, e.to, fmt.Sprintf(format, args...))
		}
		from, to := e.from, e.to
		if e.status == 'A' {
			from = ""
		}
		if e.status == 'D' {
			to = ""
		}
		if f.OldName != from || f.NewName != to {
			bad("names are %q and %q", f.OldName, f.NewName)
		}
		if f.IsNew != (e.status == 'A') || f.IsDelete != (e.status == 'D') || f.IsRename != (e.status == 'R') || f.IsCopy != (e.status == 'C') {
			bad("IsNew %v, IsDelete %v, IsRename %v, IsCopy %v", f.IsNew, f.IsDelete, f.IsRename, f.IsCopy)
		}
		same := e.oldID == e.newID
		wantOld, wantNew := 0, 0
		switch {
		case e.status == 'A':
			wantNew = e.newMode
		case e.status == 'D':
			wantOld = e.oldMode
		case e.oldMode != e.newMode:
			wantOld, wantNew = e.oldMode, e.newMode
			c.Note("mode change")
		case !same:
			wantOld = e.oldMode // from the index line
		}
		if f.OldMode != os.FileMode(wantOld) || f.NewMode != os.FileMode(wantNew) {
			bad("modes are %o and %o, want %o and %o", uint32(f.OldMode), uint32(f.NewMode), wantOld, wantNew)
		}
		if f.Score != e.score {
			bad("score is %d, want %d", f.Score, e.score)
		}
		if e.status == 'M' && e.score > 0 {
			c.Note("dissimilarity")
		}
		if same {
			if f.OldOIDPrefix != "" || f.NewOIDPrefix != "" || len(f.TextFragments) > 0 || f.IsBinary {
				bad("content changes although the ids are equal")
			}
		} else if len(f.OldOIDPrefix) < 4 || !strings.HasPrefix(e.oldID, f.OldOIDPrefix) || len(f.NewOIDPrefix) < 4 || !strings.HasPrefix(e.newID, f.NewOIDPrefix) {
			bad("ids are %q and %q, want %q and %q", f.OldOIDPrefix, f.NewOIDPrefix, e.oldID, e.newID)
		}
		old, ok1 := blobs[e.oldID]
		new, ok2 := blobs[e.newID]
		if !ok1 && e.status != 'A' || !ok2 && e.status != 'D' {
			panic("unknown blob")
		}
		switch {
		case e.oldMode == 0o160000 || e.newMode == 0o160000:
			c.Note("gitlink")
		case e.oldMode == 0o120000 || e.newMode == 0o120000:
			c.Note("symlink")
		}
		if irr != "" && (e.status == 'D' || e.score > 0 && e.status == 'M') {
			continue // the old content is omitted
		}
		if f.IsBinary && f.BinaryFragment == nil {
			if withData || text != "" {
				bad("no binary data")
			}
			c.Note("no data")
			continue
		}
		if text != "" && f.IsBinary && !withData {
			bad("is binary")
		}
		if knownZero(f, old, new) {
			c.Note("excluded: position zero")
			continue
		}
		for k := 0; k < 2; k++ {
			src, sn := genSource(r, []byte(old))
			got, err := applyTo(src, f, outputMax(len(old)+len(new)))
			c.Eval()
			if err != nil || string(got) != new {
				bad("applying to the old content with %s: %v: %s", sn, err, diffAt(new, string(got)))
			}
		}
		switch {
		case f.BinaryFragment != nil && f.BinaryFragment.Method == gitdiff.BinaryPatchDelta:
			c.Note("applied delta")
		case f.BinaryFragment != nil:
			c.Note("applied literal")
		case len(f.TextFragments) > 0:
			c.Note("applied text")
		}
		if f.ReverseBinaryFragment != nil {
			rev := &gitdiff.File{OldName: "x", NewName: "x", IsBinary: true, BinaryFragment: f.ReverseBinaryFragment}
			src, _ := genSource(r, []byte(new))
			got, err := applyTo(src, rev, outputMax(len(old)+len(new)))
			c.Eval()
			if err != nil || string(got) != old {
				bad("applying the reverse fragment: %v: %s", err, diffAt(old, string(got)))
			}
			c.Note("applied reverse")
		}
	}
}

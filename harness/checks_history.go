package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C26", Quick: 500, Thorough: 12000,
		Run:    runC26,
		Rule:   "A case makes a history of two to five commits in a scratch repository, exports each commit with git format-patch, log or show under random options, and replays the history with the library only: the preamble is parsed for the metadata, every file is applied to the tree so far, and the tree must equal that of the commit. The history is then undone with reversed patches, and the output for all commits at once must parse to the files of each. Distinct by exported text.",
		Floors: map[string]int{"commit replayed": 1500, "as mail": 300, "as log": 300, "undone": 500, "all at once": 600, "empty commit": 30, "add": 500, "modify": 500, "delete": 100, "rename": 100, "copy": 20, "mode": 50, "binary": 200, "symlink": 50, "gitlink": 30, "swap": 10, "type change": 20},
	})
}

// editText changes some lines of a text.
func editText(r *Rng, s string) string {
	ls := strings.SplitAfter(s, "\n")
	for n := 1 + r.N(4); n > 0; n-- {
		i := r.N(len(ls))
		t := genLineText(r, false) + "\n"
		switch r.N(4) {
		case 0:
			ls = append(ls[:i:i], append([]string{t}, ls[i:]...)...)
		case 1:
			if len(ls) > 1 {
				ls = append(ls[:i:i], ls[i+1:]...)
			}
		default:
			ls[i] = t
		}
	}
	out := strings.Join(ls, "")
	if r.P(10) {
		out = strings.TrimSuffix(out, "\n")
	}
	return out
}

func editBinary(r *Rng, s string) string {
	b := []byte(s)
	switch r.N(3) {
	case 0:
		b = append(b, r.Bytes(1+r.N(60))...)
	case 1:
		k := r.N(len(b))
		b = append(append([]byte{0}, b[k:]...), b[:k]...)
	default:
		b[r.N(len(b))] ^= byte(1 + r.N(255))
	}
	return string(b)
}

// historyTree is the state of a tree with a source of new names.
type historyTree struct {
	files map[string]treeEntry
	names int
}

func (t *historyTree) fresh(r *Rng) string {
	for {
		n := genSafeName(r)
		if r.P(30) {
			n = genName(r)
		}
		n = fmt.Sprintf("t%d/%s", t.names, n)
		if r.P(30) {
			n = strings.ReplaceAll(n, "/", "_")
		}
		if !validName(n) {
			continue
		}
		t.names++
		return n
	}
}

func (t *historyTree) sorted() []string {
	var ns []string
	for n := range t.files {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func newEntry(c *Ctx) treeEntry {
	r := c.R
	switch k := r.N(20); {
	case k < 11:
		s := genScript(r, r.PickInt(0, 3, 10, 30, 60), r.P(2))
		return treeEntry{r.PickInt(0o100644, 0o100644, 0o100755), s.Old()}
	case k < 16:
		return treeEntry{r.PickInt(0o100644, 0o100755), "\x00" + string(r.Bytes(r.Size(400, 0, 1, 51, 52, 4096)))}
	case k < 18:
		return treeEntry{0o120000, genSafeName(r)}
	case k < 19:
		return treeEntry{0o160000, fmt.Sprintf("%x", r.Bytes(20))}
	default:
		return treeEntry{0o100644, ""}
	}
}

func kindOf(e treeEntry) string {
	switch {
	case e.mode == 0o160000:
		return "gitlink"
	case e.mode == 0o120000:
		return "symlink"
	case strings.Contains(e.data, "\x00"):
		return "binary"
	}
	return "text"
}

func changedEntry(r *Rng, e treeEntry) treeEntry {
	switch kindOf(e) {
	case "gitlink":
		return treeEntry{e.mode, fmt.Sprintf("%x", r.Bytes(20))}
	case "symlink":
		return treeEntry{e.mode, genSafeName(r)}
	case "binary":
		return treeEntry{e.mode, editBinary(r, e.data)}
	}
	if r.P(5) { // a rewrite
		s := genScript(r, r.PickInt(0, 10, 40), false)
		return treeEntry{e.mode, s.New()}
	}
	return treeEntry{e.mode, editText(r, e.data)}
}

// evolve makes the changes of a commit.
func (t *historyTree) evolve(c *Ctx) {
	r := c.R
	next := map[string]treeEntry{}
	for n, e := range t.files {
		next[n] = e
	}
	used := map[string]bool{} // each file takes part in one change
	pick := func() (string, bool) {
		ns := t.sorted()
		if len(ns) == 0 {
			return "", false
		}
		n := ns[r.N(len(ns))]
		if used[n] {
			return "", false
		}
		used[n] = true
		return n, true
	}
	for i := 1 + r.N(5); i > 0; i-- {
		k := r.N(20)
		if len(t.files) == 0 {
			k = 0
		}
		if k < 5 {
			next[t.fresh(r)] = newEntry(c)
			continue
		}
		n, ok := pick()
		if !ok {
			continue
		}
		e := t.files[n]
		switch {
		case k < 10:
			next[n] = changedEntry(r, e)
		case k < 12:
			delete(next, n)
		case k < 14:
			delete(next, n)
			if r.P(60) {
				e = changedEntry(r, e)
			}
			next[t.fresh(r)] = e
		case k < 15:
			if m, ok := pick(); ok {
				next[n], next[m] = t.files[m], e
				c.Note("swap")
			}
		case k < 17:
			next[t.fresh(r)] = e
			if r.P(60) {
				next[n] = changedEntry(r, e)
			}
		case k < 19:
			if e.mode&0o170000 == 0o100000 {
				e.mode ^= 0o111
				if r.P(50) {
					e.data = changedEntry(r, e).data
				}
				next[n] = e
			}
		default:
			f := newEntry(c)
			if f.mode&0o170000 != e.mode&0o170000 {
				next[n] = f
				c.Note("type change")
			}
		}
	}
	t.files = next
}

// content returns what a patch says about an entry.
func (e treeEntry) content() string {
	if e.mode == 0o160000 {
		return "Subproject commit " + e.data + "\n"
	}
	return e.data
}

// replay applies the files of a patch to a tree, as the changes of one commit:
// all of them refer to the state before it.
// With broken pairs, copies and renames may replace existing files.
func replay(c *Ctx, what string, state map[string]treeEntry, files []*gitdiff.File, broken bool) map[string]treeEntry {
	next := map[string]treeEntry{}
	for n, e := range state {
		next[n] = e
	}
	for _, f := range files {
		if f.IsDelete || f.IsRename {
			delete(next, f.OldName)
		}
	}
	for i, f := range files {
		bad := func(format string, args ...any) {
			c.Fail("%s, file %d (%q to %q): %s", what, i+1, f.OldName, f.NewName, fmt.Sprintf(format, args...))
		}
		var old treeEntry
		if !f.IsNew {
			e, ok := state[f.OldName]
			if !ok {
				bad("there is no such file")
			}
			old = e
		}
		src, sn := genSource(c.R, []byte(old.data))
		got, err := applyTo(src, f, 1<<24)
		c.Eval()
		if err != nil {
			bad("applying with %s: %v", sn, err)
		}
		if f.IsDelete {
			if len(got) > 0 {
				bad("the deleted file has content %q", clip(string(got), 200))
			}
			c.Note("delete")
			continue
		}
		mode := old.mode
		if f.OldMode != 0 && !f.IsNew && f.OldMode != os.FileMode(old.mode) {
			bad("the old mode is %o, should be %o", uint32(f.OldMode), old.mode)
		}
		if f.NewMode != 0 {
			mode = int(f.NewMode)
		}
		if (f.IsNew || f.IsCopy || f.IsRename) && !broken {
			if _, ok := next[f.NewName]; ok {
				bad("the new file exists")
			}
		}
		next[f.NewName] = treeEntry{mode, string(got)}
		switch {
		case f.IsNew:
			c.Note("add")
		case f.IsRename:
			c.Note("rename")
		case f.IsCopy:
			c.Note("copy")
		default:
			c.Note("modify")
		}
		if f.IsBinary {
			c.Note("binary")
		}
		if !f.IsNew && f.NewMode != 0 {
			c.Note("mode")
		}
		switch mode {
		case 0o120000:
			c.Note("symlink")
		case 0o160000:
			c.Note("gitlink")
		}
	}
	return next
}

func treeDiff(want, got map[string]treeEntry) string {
	for n, w := range want {
		g, ok := got[n]
		if !ok {
			return fmt.Sprintf("%q is missing", n)
		}
		if g.mode != w.mode {
			return fmt.Sprintf("%q has mode %o, should have %o", n, g.mode, w.mode)
		}
		if g.data != w.data {
			return fmt.Sprintf("%q: %s", n, diffAt(w.data, g.data))
		}
	}
	for n := range got {
		if _, ok := want[n]; !ok {
			return fmt.Sprintf("%q should not exist", n)
		}
	}
	return ""
}

func runC26(c *Ctx) {
	r := c.R
	g := newGitRepo("")
	defer g.remove()
	if r.P(20) {
		g.config = append(g.config, "-c", "diff.suppressBlankEmpty=true")
	}
	if r.P(30) {
		g.config = append(g.config, "-c", "core.quotePath=false")
	}
	if r.P(15) {
		g.config = append(g.config, "-c", "diff.noprefix=false", "-c", "diff.mnemonicPrefix=true")
	}

	// the history
	var cs []*commitSpec
	var trees []map[string]treeEntry // with the contents patches show
	var empty []bool
	t := &historyTree{files: map[string]treeEntry{}}
	var imp strings.Builder
	for i := 0; i < 2+r.N(4); i++ {
		k := genMailCommit(r)
		for strings.Contains(k.Body, "\xff") || k.Author.Email == "" || len(k.Body) > 1<<16 {
			k = genMailCommit(r)
		}
		if r.P(90) {
			t.evolve(c)
		}
		fmt.Fprintf(&imp, "commit refs/heads/main\nmark :%d\n", i+1)
		fmt.Fprintf(&imp, "author %s <%s> %d %s\n", k.Author.Name, k.Author.Email, k.ADate.Unix, zoneStr(k.ADate.Off, ""))
		fmt.Fprintf(&imp, "committer %s <%s> %d %s\n", k.Committer.Name, k.Committer.Email, k.CDate.Unix, zoneStr(k.CDate.Off, ""))
		imp.WriteString(importData(k.message()))
		imp.WriteString("deleteall\n")
		tree := map[string]treeEntry{}
		for _, n := range t.sorted() {
			e := t.files[n]
			if e.mode == 0o160000 {
				fmt.Fprintf(&imp, "M 160000 %s %s\n", e.data, importPath(n))
			} else {
				fmt.Fprintf(&imp, "M %06o inline %s\n%s", e.mode, importPath(n), importData(e.data))
			}
			tree[n] = treeEntry{e.mode, e.content()}
		}
		prev := map[string]treeEntry{}
		if i > 0 {
			prev = trees[i-1]
		}
		trees = append(trees, tree)
		cs = append(cs, k)
		empty = append(empty, treeDiff(prev, tree) == "")
	}
	marks := g.fastImport(imp.String())
	for i, k := range cs {
		k.SHA = marks[i+1]
	}

	// what all commits have in common
	var opts []string
	opt := func(pct int, o ...string) {
		if r.P(pct) {
			opts = append(opts, strings.Split(o[r.N(len(o))], " ")...)
		}
	}
	opts = append(opts, "--no-color", "--binary")
	opt(70, "-M", "-C", "-M -C", "--no-renames", "-M40%", "-C --find-copies-harder", "-B -M", "-B", "-C -C -B", "-M100%")
	opt(30, "-U1", "-U2", "-U8", "-U100", "-W", "--inter-hunk-context=4")
	opt(30, "--full-index", "--abbrev=40", "--abbrev=5")
	opt(20, "--patience", "--histogram", "--minimal")
	opt(10, "--src-prefix=x/ --dst-prefix=y/", "--src-prefix=b/ --dst-prefix=a/", "--src-prefix=old/ --dst-prefix=new/")

	broken := strings.Contains(strings.Join(opts, " "), "-B")
	state := map[string]treeEntry{}
	for i, k := range cs {
		c.ResetInputs()
		mail := r.P(50)
		var args []string
		prefix := "[PATCH] "
		date, format := "", ""
		switch {
		case mail && r.P(75):
			args = append([]string{"format-patch", "--stdout", "--root", "--always"}, opts...)
			switch r.N(12) {
			case 0:
				args, prefix = append(args, "-v2"), "[PATCH v2] "
			case 1:
				args, prefix = append(args, "-n"), "[PATCH 1/1] "
			case 2:
				args, prefix = append(args, "--rfc"), "[RFC PATCH] "
			case 3:
				args = append(args, "--no-stat", "--no-signature")
			case 4:
				args = append(args, "--signature=--- a/x\n+++ b/x\n\nmade with diff --git a/x b/x")
			case 5:
				args = append(args, "--thread=deep", "--in-reply-to=<x@y>", "--cc=a@b")
			case 6:
				if i > 0 && !empty[i] {
					args = append(args, "--base="+cs[i-1].SHA)
				}
			case 7:
				if i > 1 && !empty[i] {
					args, prefix = append(args, "-v3", "--interdiff="+cs[i-1].SHA), "[PATCH v3] "
				}
			case 8:
				g.run("", "notes", "add", "-f", "-m", "a note\n\n---\nmore of it", k.SHA)
				args = append(args, "--notes")
			case 9:
				args = append(args, "-p")
			case 10:
				args = append(args, "--stat", "--summary", "--dirstat", "--compact-summary")
			}
			args = append(args, "-1", k.SHA)
		case mail:
			args = append([]string{r.Pick("show", "log"), "--pretty=email", "-p", "-1"}, opts...)
			if r.P(40) {
				args = append(args, "--stat")
			}
			args = append(args, k.SHA)
		default:
			format, date = r.Pick("short", "medium", "full", "fuller"), logDates[r.N(len(logDates))]
			args = append([]string{r.Pick("show", "log"), "-p", "-1", "--no-notes", "--no-expand-tabs", "--no-decorate", "--pretty=" + format, "--date=" + date}, opts...)
			args = append(args, k.SHA)
		}
		out := g.run("", args...)
		c.Input("git "+strings.Join(args, " "), out)
		if contains(opts, "-W") && overlappingHunks(out) {
			c.Note("hunks of git that overlap")
			return
		}
		c.Nontrivial(fnv64(out), func() string { return out })
		files, pre, err := parse(out)
		c.Eval()
		if err != nil {
			c.Fail("parsing the patch of commit %d failed: %v", i+1, err)
		}
		if empty[i] {
			c.Note("empty commit")
			if len(files) != 0 {
				c.Fail("commit %d is empty, but there are %d files", i+1, len(files))
			}
			if pre != out {
				c.Fail("the text of an empty commit: %s", diffAt(out, pre))
			}
		}
		state = replay(c, fmt.Sprintf("commit %d", i+1), state, files, broken)
		if d := treeDiff(trees[i], state); d != "" {
			c.Fail("the tree of commit %d: %s", i+1, d)
		}
		c.Note("commit replayed")
		if mail {
			c.Note("as mail")
			if empty[i] && args[0] == "format-patch" {
				continue // the signature follows the message
			}
			judgeGitMail(c, k, pre, prefix, true)
		} else {
			c.Note("as log")
			judgePretty(c, pre, format, date, k, false)
		}
	}

	// all at once
	c.ResetInputs()
	how := r.N(3)
	var args, one []string
	switch how {
	case 0:
		args = append([]string{"log", "--reverse", "-p", "--no-notes", "--pretty=" + r.Pick("medium", "short", "fuller", "oneline", "raw", "email")}, opts...)
		one = append(append([]string{"log", "-p", "-1", "--no-notes"}, args[4:]...), "")
		args = append(args, "main")
	case 1:
		args = append(append([]string{"format-patch", "--stdout", "--root"}, opts...), "main")
		one = append(append([]string{"format-patch", "--stdout", "--root", "-1"}, opts...), "")
	case 2:
		args = append(append([]string{"format-patch", "--stdout", "--root", "--cover-letter"}, opts...), "main")
		one = append(append([]string{"format-patch", "--stdout", "--root", "-1"}, opts...), "")
	}
	var want []*gitdiff.File
	for _, k := range cs {
		one[len(one)-1] = k.SHA
		out := g.run("", one...)
		files, _, err := parse(out)
		if err != nil {
			c.Input("git "+strings.Join(one, " "), out)
			c.Fail("parsing the patch of a commit failed: %v", err)
		}
		want = append(want, files...)
	}
	out := g.run("", args...)
	c.Input("git "+strings.Join(args, " "), out)
	files, _, err := parse(out)
	c.Eval()
	if err != nil {
		c.Fail("parsing all patches at once failed: %v", err)
	}
	if d := filesDiff(want, files); d != "" {
		c.Fail("all patches at once: %s", d)
	}
	c.Note("all at once")

	// and back
	for i := len(cs) - 1; i >= 0; i-- {
		c.ResetInputs()
		args := append([]string{"show", "-R", "--no-notes", "--pretty=medium"}, opts...)
		args = append(args, cs[i].SHA)
		out := g.run("", args...)
		c.Input("git "+strings.Join(args, " "), out)
		if contains(opts, "-W") && overlappingHunks(out) {
			c.Note("hunks of git that overlap")
			return
		}
		files, _, err := parse(out)
		c.Eval()
		if err != nil {
			c.Fail("parsing the reversed patch of commit %d failed: %v", i+1, err)
		}
		state = replay(c, fmt.Sprintf("reversed commit %d", i+1), state, files, broken)
		before := map[string]treeEntry{}
		if i > 0 {
			before = trees[i-1]
		}
		if d := treeDiff(before, state); d != "" {
			c.Fail("the tree before commit %d: %s", i+1, d)
		}
		c.Note("undone")
	}
}

// judgeGitMail compares the header of a mail made by git with the commit.
func judgeGitMail(c *Ctx, k *commitSpec, pre, prefix string, encode bool) {
	title := strings.Join(k.Title, " ")
	e := mailExpect{k: k, sha: k.SHA, loose: true, subject: squeeze(prefix + title)}
	e.limit = len(e.subject)
	if encode && needsEncoding(title) {
		e.limit -= len(squeeze(title))
	}
	_, rest, ok := strings.Cut(pre, "\n\n")
	if !ok {
		rest = ""
	}
	body, _ := cutAppendix(k.Body)
	_, after := cutAppendix(rest)
	e.body, e.appendix = normText(body), normText(after)
	judgeMail(c, pre, e)
}

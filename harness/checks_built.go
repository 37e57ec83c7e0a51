package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C33", Quick: 120000, Thorough: 2000000,
		Rule: "A case builds a file from data or takes a parsed one, changes it as programs do (sides exchanged, fragments left out, split or joined, lines changed, other names, modes, ids and comments), applies it, formats and parses it and applies that; every hundredth case has git apply the formatted form. Distinct by formatted text.",
		Run:  runC33,
		Floors: map[string]int{
			"exchanged": 200, "exchanged binary": 20, "fragments left out": 4, "fragment split": 20, "fragments joined": 5, "lines changed": 80, "lines dropped": 15, "other name": 80, "without ids": 80, "other mode": 50, "other comment": 50,
			"applied": 500, "applied again": 500, "round trip": 900, "git": 3, "built": 300,
		},
	})
}

// fragStart is the index of the first old line of a fragment, and fragNew that
// of the first new line.
func fragStart(t *gitdiff.TextFragment) int64 {
	if t.OldLines == 0 {
		return t.OldPosition
	}
	return t.OldPosition - 1
}

// renumber sets the new positions of fragments, which are in order.
func renumber(frags []*gitdiff.TextFragment) {
	delta := int64(0)
	for _, t := range frags {
		t.NewPosition = fragStart(t) + delta
		if t.NewLines > 0 {
			t.NewPosition++
		}
		delta += t.NewLines - t.OldLines
	}
}

// setStart sets the old position for the first old line.
func setStart(t *gitdiff.TextFragment, start int64) {
	t.OldPosition = start
	if t.OldLines > 0 {
		t.OldPosition++
	}
}

// exchange turns a file around, so that it describes the change from its new
// side to its old one.
func exchange(f *gitdiff.File) {
	f.OldName, f.NewName = f.NewName, f.OldName
	f.OldOIDPrefix, f.NewOIDPrefix = f.NewOIDPrefix, f.OldOIDPrefix
	if f.IsNew || f.IsDelete || f.NewMode != 0 {
		f.OldMode, f.NewMode = f.NewMode, f.OldMode
	}
	f.IsNew, f.IsDelete = f.IsDelete, f.IsNew
	for _, t := range f.TextFragments {
		t.OldPosition, t.NewPosition = t.NewPosition, t.OldPosition
		t.OldLines, t.NewLines = t.NewLines, t.OldLines
		t.LinesAdded, t.LinesDeleted = t.LinesDeleted, t.LinesAdded
		for i, l := range t.Lines {
			switch l.Op {
			case gitdiff.OpAdd:
				t.Lines[i].Op = gitdiff.OpDelete
			case gitdiff.OpDelete:
				t.Lines[i].Op = gitdiff.OpAdd
			}
		}
	}
	f.BinaryFragment, f.ReverseBinaryFragment = f.ReverseBinaryFragment, f.BinaryFragment
}

func isChange(l gitdiff.Line) bool { return l.Op != gitdiff.OpContext }

// splitFragment cuts a fragment in two within the context between changes.
func splitFragment(r *Rng, t *gitdiff.TextFragment) (a, b *gitdiff.TextFragment) {
	var cuts []int
	for i := 1; i < len(t.Lines); i++ {
		if isChange(t.Lines[i-1]) && isChange(t.Lines[i]) {
			continue // keep changes together
		}
		before, after := false, false
		for j, l := range t.Lines {
			if isChange(l) {
				before = before || j < i
				after = after || j >= i
			}
		}
		if before && after {
			cuts = append(cuts, i)
		}
	}
	if len(cuts) == 0 {
		return nil, nil
	}
	i := cuts[r.N(len(cuts))]
	start := fragStart(t)
	a, b = cloneFrag(t), cloneFrag(t)
	a.Lines, b.Lines = a.Lines[:i:i], b.Lines[i:]
	recount(a)
	recount(b)
	setStart(a, start)
	setStart(b, start+a.OldLines)
	return a, b
}

func runC33(c *Ctx) {
	r := c.R
	o := defaultSpecOpts(r)
	o.noNoData = r.P(90)
	o.atZero = false
	o.maxLines = r.PickInt(12, 12, 50)
	withGit := c.Idx%100 == 0
	if withGit {
		o.plainMode, o.foreign = true, false
	}
	spec := genSpec(r, o)
	var f *gitdiff.File
	if r.P(50) {
		f = spec.expected()
		c.Note("built")
	} else {
		st := genStyle(r)
		f = mustParse(c, spec.renderGit(st), 1)[0]
	}
	if f.IsBinary {
		// the data of the spec is shared with nothing else
		f = cloneFile(f)
	}
	src, res := spec.A, spec.B
	whole := f.IsNew || f.IsDelete

	// changes
	if f.BinaryFragment == nil || f.ReverseBinaryFragment != nil {
		if !f.IsCopy && r.P(50) {
			exchange(f)
			src, res = res, src
			c.Note("exchanged")
			if f.BinaryFragment != nil {
				c.Note("exchanged binary")
			}
		}
	}
	if n := len(f.TextFragments); n > 1 && !whole && r.P(30) {
		var keep []*gitdiff.TextFragment
		for _, t := range f.TextFragments {
			if r.P(60) {
				keep = append(keep, t)
			}
		}
		if len(keep) > 0 && len(keep) < n {
			f.TextFragments = keep
			c.Note("fragments left out")
		}
	}
	if len(f.TextFragments) > 0 && !whole && r.P(30) {
		i := r.N(len(f.TextFragments))
		if a, b := splitFragment(r, f.TextFragments[i]); a != nil {
			fr := append([]*gitdiff.TextFragment{}, f.TextFragments[:i]...)
			f.TextFragments = append(append(fr, a, b), f.TextFragments[i+1:]...)
			c.Note("fragment split")
		}
	} else if len(f.TextFragments) > 1 && !whole && r.P(30) {
		// join two, with what lies between as context
		i := r.N(len(f.TextFragments) - 1)
		a, b := f.TextFragments[i], f.TextFragments[i+1]
		lines := splitLines(src)
		start := fragStart(a)
		if end := start + a.OldLines; fragStart(b)-end < 50 {
			t := cloneFrag(a)
			for _, l := range lines[end:fragStart(b)] {
				t.Lines = append(t.Lines, gitdiff.Line{Op: gitdiff.OpContext, Line: l})
			}
			t.Lines = append(t.Lines, b.Lines...)
			recount(t)
			setStart(t, start)
			fr := append([]*gitdiff.TextFragment{}, f.TextFragments[:i]...)
			f.TextFragments = append(append(fr, t), f.TextFragments[i+2:]...)
			c.Note("fragments joined")
		}
	}
	if len(f.TextFragments) > 0 && r.P(20) {
		for _, t := range f.TextFragments {
			for i, l := range t.Lines {
				if l.Op == gitdiff.OpAdd && r.P(50) && strings.HasSuffix(l.Line, "\n") {
					t.Lines[i].Line = genLineText(r, false) + "\n"
					c.Note("lines changed")
				}
			}
		}
	}
	if len(f.TextFragments) > 0 && !whole && r.P(20) {
		// some additions are dropped
		for _, t := range f.TextFragments {
			var keep []gitdiff.Line
			changes := 0
			for _, l := range t.Lines {
				if l.Op == gitdiff.OpAdd && r.P(30) && strings.HasSuffix(l.Line, "\n") {
					continue
				}
				if isChange(l) {
					changes++
				}
				keep = append(keep, l)
			}
			if changes > 0 && len(keep) < len(t.Lines) {
				start := fragStart(t)
				t.Lines = keep
				recount(t)
				setStart(t, start)
				c.Note("lines dropped")
			}
		}
	}
	if !whole {
		renumber(f.TextFragments)
	}
	if r.P(25) {
		name := genSafeName(r)
		switch {
		case f.IsRename || f.IsCopy:
			if r.P(50) {
				f.OldName = name
			} else {
				f.NewName = name
			}
			if f.OldName == f.NewName {
				f.NewName += ".x"
			}
		default:
			if f.OldName != "" {
				f.OldName = name
			}
			if f.NewName != "" {
				f.NewName = name
			}
		}
		c.Note("other name")
	}
	if f.BinaryFragment == nil && r.P(25) {
		f.OldOIDPrefix, f.NewOIDPrefix = "", ""
		if f.NewMode == 0 && !f.IsDelete {
			f.OldMode = 0 // it was part of this line
		}
		c.Note("without ids")
	}
	if r.P(20) {
		m := os.FileMode(r.PickInt(0o100644, 0o100755))
		switch {
		case f.IsNew:
			f.NewMode = m
		case f.IsDelete:
			if !withGit {
				f.OldMode = m
			}
		default:
			if !withGit || f.OldMode == 0 {
				f.OldMode = os.FileMode(spec.OldMode)
			}
			f.NewMode = m
			if f.OldMode == f.NewMode {
				f.NewMode = m ^ 0o111
			}
		}
		c.Note("other mode")
	}
	if withGit && f.OldName != "" && f.NewName != "" && f.OldName != f.NewName {
		f.OldName, f.NewName = "p/"+f.OldName, "q/"+f.NewName // one may be in the other
	}
	for _, t := range f.TextFragments {
		if r.P(15) {
			t.Comment = r.Pick("", "func x() {", "a  b", "@@", "@@ -1 +1 @@", "\xc3\xa4", "x \\")
			c.Note("other comment")
		}
	}
	if (f.IsRename || f.IsCopy) && r.P(20) {
		f.Score = r.N(101)
	}

	// what it must do
	want, known := string(src), false
	switch {
	case f.IsBinary:
		want = string(res)
	case len(f.TextFragments) > 0:
		var b strings.Builder
		lines, pos := splitLines(src), 0
		for i, t := range f.TextFragments {
			if err := t.Validate(); err != nil {
				c.Input("file", fmt.Sprintf("%+v", *f))
				c.Fail("fragment %d does not validate: %v", i+1, err)
			}
			out, next, kind := modelFragment(lines, pos, t)
			if kind == "not empty" || kind == "conflict" && t.NewPosition == 0 && t.NewLines == 0 {
				known = true
				break
			}
			if kind != "ok" {
				c.Input("file", fmt.Sprintf("%+v", *f))
				c.Input("source", string(src))
				c.Fail("fragment %d does not match the source: %s", i+1, kind)
			}
			b.WriteString(out)
			pos = next
		}
		b.WriteString(strings.Join(lines[pos:], ""))
		want = b.String()
	}
	if known || knownZero(f, string(src), want) {
		c.Note("known finding")
		return
	}
	before := cloneFile(f)
	max := outputMax(len(src) + len(want))
	apply := func(what string, f *gitdiff.File) {
		if f.IsBinary && f.BinaryFragment == nil {
			return
		}
		s, name := genSource(r, src)
		got, err := applyTo(s, f, max)
		c.Eval()
		c.Note("applied" + what)
		if err != nil || string(got) != want {
			c.Input("file", fmt.Sprintf("%+v", *before))
			c.Input("formatted", before.String())
			c.Input("source", string(src))
			c.Fail("applying the file%s to a %s: %v: %s", what, name, err, diffAt(want, string(got)))
		}
	}
	apply("", f)
	roundTrip(c, []*gitdiff.File{f})
	if d := fileDiff(before, f); d != "" {
		c.Fail("applying or formatting changed the file: %s", d)
	}
	files := mustParse(c, f.String(), 1)
	apply(" again", files[0])

	if !withGit || f.IsBinary && f.BinaryFragment == nil || len(f.TextFragments) > 0 && noContext(files) || bytes.Contains(src, []byte("\r")) {
		return
	}
	if b := f.BinaryFragment; b != nil && b.Method == gitdiff.BinaryPatchDelta && b.Size < 4 {
		return // too short for git
	}
	g := newGitRepo("")
	defer g.remove()
	imp := "commit refs/heads/main\ncommitter x <x@x> 1 +0000\ndata 0\n\nM 100644 inline keep\ndata 2\nk\n\n"
	mode := int(f.OldMode)
	if mode == 0 {
		mode = 0o100644
	}
	if !f.IsNew {
		imp += fmt.Sprintf("M %06o inline %s\n%s", mode, importPath(f.OldName), importData(string(src)))
	}
	g.fastImport(imp)
	env := []string{"GIT_INDEX_FILE=" + g.dir + "/index1"}
	if _, e, code := g.try("", env, "read-tree", "main"); code != 0 {
		panic("git read-tree: " + e)
	}
	text := f.String()
	c.ResetInputs()
	c.Input("formatted", text)
	c.Input("source", string(src))
	c.Eval()
	if _, e, code := g.try(text, env, "apply", "--cached", "--unidiff-zero", "--whitespace=nowarn"); code != 0 {
		c.Fail("git apply refuses the formatted file: %s", clip(e, 300))
	}
	c.Note("git")
	out, _, _ := g.try("", env, "ls-files", "-s", "-z")
	found := false
	for _, l := range strings.Split(out, "\x00") {
		info, name, _ := strings.Cut(l, "\t")
		if name != "" && name == f.NewName {
			found = true
			if w := oid([]byte(want)); !strings.Contains(info, " "+w+" ") {
				c.Fail("git makes other content: want id %s, got %s", w, info)
			}
		}
	}
	if found == f.IsDelete {
		c.Fail("git: new file %q exists: %v", f.NewName, found)
	}
}

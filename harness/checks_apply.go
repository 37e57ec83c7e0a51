package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C29", Quick: 60000, Thorough: 1000000,
		Run:    runC29,
		Rule:   "A case parses a generated patch of any kind, applies the file, applies it with other metadata, which must make no difference, and applies variants of it that describe no or a contradictory change of the content. Distinct by patch and variant; trivial if no variant was judged.",
		Floors: map[string]int{"applied: text": 300, "applied: literal": 30, "applied: delta": 10, "copied": 100, "copied, any source": 50, "no data": 15, "other metadata": 500, "text and binary": 50, "binary with text": 50, "text with data": 20, "only reverse data": 20, "unknown method": 20, "invalid fragment": 100, "no fragments left": 50},
	})
}

// mustFail checks that a file cannot be applied, without writing anything that
// is not a prefix of want.
func mustFail(c *Ctx, what string, f *gitdiff.File, src []byte, want string) {
	s, kind := genSource(c.R, src)
	got, err := applyTo(s, f, outputMax(len(src)+len(want)))
	c.Eval()
	c.Note(what)
	if err == nil {
		c.Fail("%s: applying succeeded and wrote %q (%s)", what, clip(string(got), 200), kind)
	}
	var ae *gitdiff.ApplyError
	if !errors.As(err, &ae) {
		c.Fail("%s: the error is not an *ApplyError: %T %v", what, err, err)
	}
	if errors.Is(err, io.EOF) {
		c.Fail("%s: the error looks like the end of input: %q", what, err)
	}
	if isConflict(err) {
		c.Fail("%s: reported as a conflict with the source: %v", what, err)
	}
	if !strings.HasPrefix(want, string(got)) {
		c.Fail("%s: wrote %q, which is not a prefix of %q", what, clip(string(got), 200), clip(want, 200))
	}
}

func runC29(c *Ctx) {
	r := c.R
	f := genSpec(r, specOpts{name: genSafeName, maxLines: r.PickInt(3, 20, 40), binary: true, big: r.P(3), ctx: -1, foreign: true})
	text := f.renderGit(genStyle(r))
	c.Input("patch", text)
	pf := mustParse(c, text, 1)[0]
	a, b := f.A, string(f.B)

	apply := func(what string, pf *gitdiff.File, src []byte, want string) {
		s, kind := genSource(r, src)
		got, err := applyTo(s, pf, outputMax(len(src)+len(want)))
		c.Eval()
		c.Note(what)
		if err != nil {
			c.Fail("%s: failed: %v (%s)", what, err, kind)
		}
		if string(got) != want {
			c.Fail("%s (%s): %s", what, kind, diffAt(want, string(got)))
		}
	}

	// what the patch says
	kind := "copied"
	switch {
	case f.Binary == "nodata":
		kind = "no data"
		mustFail(c, kind, pf, a, "")
	case f.Binary != "":
		kind = "applied: " + f.Binary
		apply(kind, pf, a, b)
	case len(f.Hunks) > 0:
		kind = "applied: text"
		apply(kind, pf, a, b)
	default:
		apply(kind, pf, a, string(a))
		other := r.Bytes(r.PickInt(0, 1, 100, 1000, 1024, 4096, 32768, 100000))
		apply("copied, any source", pf, other, string(other))
	}

	// names, modes, ids and kinds do not matter for the content
	if kind != "no data" && r.P(60) {
		g := cloneFile(pf)
		g.IsNew, g.IsDelete, g.IsCopy, g.IsRename = r.P(50), r.P(50), r.P(50), r.P(50)
		g.OldName, g.NewName = r.Pick("", "x", g.OldName), r.Pick("", "y", g.OldName)
		g.OldMode, g.NewMode = os.FileMode(r.PickInt(0, 0o100644, 0o120000, 0o160000)), os.FileMode(r.PickInt(0, 0o100644, 0o120000))
		g.OldOIDPrefix, g.NewOIDPrefix = r.Pick("", "0000000", "1234567"), r.Pick("", "0000000", "89abcde")
		g.Score = r.PickInt(0, 1, 100)
		if r.P(50) {
			g.ReverseBinaryFragment = nil
		}
		c.Input("changed", fmt.Sprintf("new %v delete %v copy %v rename %v names %q %q modes %o %o ids %q %q score %d", g.IsNew, g.IsDelete, g.IsCopy, g.IsRename, g.OldName, g.NewName, uint32(g.OldMode), uint32(g.NewMode), g.OldOIDPrefix, g.NewOIDPrefix, g.Score))
		apply("other metadata", g, a, b)
	}

	// contradictions
	g := cloneFile(pf)
	variant := ""
	data := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: 3, RawData: deflate([]byte("abc"), 6)}
	switch {
	case kind == "applied: text":
		switch r.N(5) {
		case 0:
			variant, g.IsBinary = "binary with text", true
		case 1:
			variant, g.IsBinary, g.BinaryFragment = "text and binary", true, data
		case 2:
			variant, g.BinaryFragment = "text and binary", data
		default:
			variant = "invalid fragment"
			t := g.TextFragments[r.N(len(g.TextFragments))]
			switch r.N(8) {
			case 0:
				t.OldLines++
			case 1:
				t.NewLines++
			case 2:
				t.LinesAdded--
			case 3:
				t.LinesDeleted++
			case 4:
				t.LeadingContext++
			case 5:
				t.TrailingContext++
			case 6:
				t.Lines[r.N(len(t.Lines))].Op = gitdiff.LineOp(r.PickInt(3, -1, 99))
			case 7:
				t.NewPosition = -1
			}
		}
	case kind == "copied":
		switch r.N(3) {
		case 0:
			variant, g.IsBinary = "no data", true
		case 1:
			variant, g.IsBinary, g.ReverseBinaryFragment = "only reverse data", true, data
		case 2:
			variant, g.BinaryFragment = "text with data", data
		}
	case g.BinaryFragment != nil:
		switch r.N(4) {
		case 0:
			variant = "text with data"
			g.IsBinary = false
		case 1:
			variant = "only reverse data"
			g.ReverseBinaryFragment, g.BinaryFragment = g.BinaryFragment, nil
		case 2:
			variant = "unknown method"
			g.BinaryFragment.Method = gitdiff.BinaryPatchMethod(r.PickInt(2, 3, -1, 100))
		case 3:
			variant = "text and binary"
			g.TextFragments = []*gitdiff.TextFragment{{NewPosition: 1, NewLines: 1, LinesAdded: 1, Lines: []gitdiff.Line{{Op: gitdiff.OpAdd, Line: "a\n"}}}}
		}
	}
	want := ""
	if variant == "invalid fragment" {
		want = b
	}
	if variant != "" {
		c.Input("variant", variant)
		mustFail(c, variant, g, a, want)
		c.Nontrivial(fnv64(text+variant), func() string { return variant + "\n" + text })
	}
	if kind == "applied: text" && r.P(30) {
		// a file without fragments is a copy
		g := cloneFile(pf)
		g.TextFragments = nil
		if r.P(50) {
			g.TextFragments = []*gitdiff.TextFragment{}
		}
		apply("no fragments left", g, a, string(a))
	}
}

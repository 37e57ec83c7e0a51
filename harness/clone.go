package main

import (
	"bytes"
	"fmt"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func cloneFile(f *gitdiff.File) *gitdiff.File {
	g := *f
	if f.TextFragments != nil {
		g.TextFragments = make([]*gitdiff.TextFragment, len(f.TextFragments))
		for i, t := range f.TextFragments {
			g.TextFragments[i] = cloneFrag(t)
		}
	}
	g.BinaryFragment = cloneBin(f.BinaryFragment)
	g.ReverseBinaryFragment = cloneBin(f.ReverseBinaryFragment)
	return &g
}

func cloneFrag(t *gitdiff.TextFragment) *gitdiff.TextFragment {
	u := *t
	u.Lines = append([]gitdiff.Line(nil), t.Lines...)
	return &u
}

func cloneBin(b *gitdiff.BinaryFragment) *gitdiff.BinaryFragment {
	if b == nil {
		return nil
	}
	c := *b
	c.RawData = append([]byte(nil), b.RawData...)
	return &c
}

// fileDiff returns the first difference between two files, or "".
func fileDiff(want, got *gitdiff.File) string {
	if got == nil {
		return "file is nil"
	}
	cmp := func(name string, a, b any) string {
		if a != b {
			return fmt.Sprintf("%s: want %#v, got %#v", name, a, b)
		}
		return ""
	}
	for _, d := range []string{
		cmp("OldName", want.OldName, got.OldName),
		cmp("NewName", want.NewName, got.NewName),
		cmp("IsNew", want.IsNew, got.IsNew),
		cmp("IsDelete", want.IsDelete, got.IsDelete),
		cmp("IsCopy", want.IsCopy, got.IsCopy),
		cmp("IsRename", want.IsRename, got.IsRename),
		cmp("OldMode", fmt.Sprintf("%o", uint32(want.OldMode)), fmt.Sprintf("%o", uint32(got.OldMode))),
		cmp("NewMode", fmt.Sprintf("%o", uint32(want.NewMode)), fmt.Sprintf("%o", uint32(got.NewMode))),
		cmp("OldOIDPrefix", want.OldOIDPrefix, got.OldOIDPrefix),
		cmp("NewOIDPrefix", want.NewOIDPrefix, got.NewOIDPrefix),
		cmp("Score", want.Score, got.Score),
		cmp("IsBinary", want.IsBinary, got.IsBinary),
		cmp("number of text fragments", len(want.TextFragments), len(got.TextFragments)),
	} {
		if d != "" {
			return d
		}
	}
	for i := range want.TextFragments {
		if d := fragDiff(want.TextFragments[i], got.TextFragments[i]); d != "" {
			return fmt.Sprintf("text fragment %d: %s", i+1, d)
		}
	}
	if d := binDiff(want.BinaryFragment, got.BinaryFragment); d != "" {
		return "BinaryFragment: " + d
	}
	if d := binDiff(want.ReverseBinaryFragment, got.ReverseBinaryFragment); d != "" {
		return "ReverseBinaryFragment: " + d
	}
	return ""
}

func fragDiff(a, b *gitdiff.TextFragment) string {
	if (a == nil) != (b == nil) {
		return "one is nil"
	}
	for _, p := range []struct {
		n    string
		a, b int64
	}{
		{"OldPosition", a.OldPosition, b.OldPosition},
		{"OldLines", a.OldLines, b.OldLines},
		{"NewPosition", a.NewPosition, b.NewPosition},
		{"NewLines", a.NewLines, b.NewLines},
		{"LinesAdded", a.LinesAdded, b.LinesAdded},
		{"LinesDeleted", a.LinesDeleted, b.LinesDeleted},
		{"LeadingContext", a.LeadingContext, b.LeadingContext},
		{"TrailingContext", a.TrailingContext, b.TrailingContext},
		{"number of lines", int64(len(a.Lines)), int64(len(b.Lines))},
	} {
		if p.a != p.b {
			return fmt.Sprintf("%s: want %d, got %d", p.n, p.a, p.b)
		}
	}
	if a.Comment != b.Comment {
		return fmt.Sprintf("Comment: want %q, got %q", a.Comment, b.Comment)
	}
	for i := range a.Lines {
		if a.Lines[i] != b.Lines[i] {
			return fmt.Sprintf("line %d: want %q %q, got %q %q", i+1, a.Lines[i].Op, clip(a.Lines[i].Line, 200), b.Lines[i].Op, clip(b.Lines[i].Line, 200))
		}
	}
	return ""
}

func binDiff(a, b *gitdiff.BinaryFragment) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("want nil %v, got nil %v", a == nil, b == nil)
	}
	if a == nil {
		return ""
	}
	switch {
	case a.Method != b.Method:
		return fmt.Sprintf("Method: want %v, got %v", a.Method, b.Method)
	case a.Size != b.Size:
		return fmt.Sprintf("Size: want %d, got %d", a.Size, b.Size)
	case !bytes.Equal(a.RawData, b.RawData):
		return "RawData: " + diffAt(string(a.RawData), string(b.RawData))
	}
	return ""
}

func filesDiff(want, got []*gitdiff.File) string {
	n := len(want)
	if len(got) < n {
		n = len(got)
	}
	for i := 0; i < n; i++ {
		if d := fileDiff(want[i], got[i]); d != "" {
			return fmt.Sprintf("file %d of %d: %s", i+1, len(want), d)
		}
	}
	if len(want) != len(got) {
		return fmt.Sprintf("want %d files, got %d", len(want), len(got))
	}
	return ""
}

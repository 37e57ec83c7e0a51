package main

import (
	"bytes"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func parse(s string) ([]*gitdiff.File, string, error) {
	return gitdiff.Parse(strings.NewReader(s))
}

// mustParse parses a patch that is known to be valid.
func mustParse(c *Ctx, s string, n int) []*gitdiff.File {
	files, _, err := parse(s)
	if err != nil {
		c.Fail("parsing a valid patch failed: %v", err)
	}
	if n >= 0 && len(files) != n {
		c.Fail("parsing a patch with %d files returned %d files", n, len(files))
	}
	for i, f := range files {
		if f == nil {
			c.Fail("file %d is nil", i)
		}
	}
	return files
}

// sources returns a conforming source for the data.
func genSource(r *Rng, data []byte) (io.ReaderAt, string) {
	switch r.N(9) {
	case 0:
		return bytes.NewReader(data), "bytes.Reader"
	case 1:
		return strings.NewReader(string(data)), "strings.Reader"
	case 2:
		pad := r.Bytes(r.N(50))
		whole := append(append(append([]byte(nil), pad...), data...), r.Bytes(r.N(50))...)
		return io.NewSectionReader(bytes.NewReader(whole), int64(len(pad)), int64(len(data))), "section reader"
	case 3:
		s := newSrc(data)
		s.eager = true
		return s, "eager EOF source"
	case 4:
		s := newSrc(data)
		s.scratch = true
		return s, "scratch source"
	case 5:
		s := newSrc(data)
		s.scratch, s.eager = true, true
		return s, "eager EOF scratch source"
	case 6:
		return newLineSrc(data), "line source"
	case 7:
		l := newLineSrc(data)
		l.eager = true
		return l, "eager EOF line source"
	default:
		return newSrc(data), "plain source"
	}
}

func outputMax(n int) int { return 2*n + 1000 }

// applyTo applies a file and returns what was written.
func applyTo(src io.ReaderAt, f *gitdiff.File, max int, opts ...gitdiff.ApplyOption) ([]byte, error) {
	d := newDst(max)
	err := gitdiff.Apply(d, src, f, opts...)
	return d.got, err
}

// applyFragments applies fragments one by one.
func applyFragments(src io.ReaderAt, frags []*gitdiff.TextFragment, max int) ([]byte, error) {
	d := newDst(max)
	a := gitdiff.NewTextApplier(d, src)
	for _, f := range frags {
		if err := a.ApplyFragment(f); err != nil {
			return d.got, err
		}
	}
	return d.got, a.Close()
}

func oldSize(frags []*gitdiff.TextFragment) (n int) {
	for _, f := range frags {
		for _, l := range f.Lines {
			n += len(l.Line)
		}
	}
	return
}

func hunkShape(hs []Hunk) string {
	var b strings.Builder
	for _, h := range hs {
		fmt.Fprintf(&b, "%d,%d,%d,%d;", h.OldPos, h.OldLines, h.NewPos, h.NewLines)
		for _, o := range h.Ops {
			b.WriteByte(o.K)
		}
	}
	return b.String()
}

// shuffled returns the fragments in another order, but does not swap fragments
// that insert lines at the same position, since their order matters.
func shuffled(r *Rng, frags []*gitdiff.TextFragment) []*gitdiff.TextFragment {
	out := append([]*gitdiff.TextFragment(nil), frags...)
	switch r.N(3) {
	case 0:
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	default:
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	ins := map[int64][]*gitdiff.TextFragment{}
	for _, f := range frags {
		if f.OldLines == 0 {
			ins[f.OldPosition] = append(ins[f.OldPosition], f)
		}
	}
	for i, f := range out {
		if f.OldLines == 0 {
			out[i] = ins[f.OldPosition][0]
			ins[f.OldPosition] = ins[f.OldPosition][1:]
		}
	}
	return out
}

func sortedByPosition(frags []*gitdiff.TextFragment) bool {
	for i := 1; i < len(frags); i++ {
		if precedes(frags[i], frags[i-1]) {
			return false
		}
	}
	return true
}

// samePosition tells whether several fragments have one position.
func samePosition(frags []*gitdiff.TextFragment) bool {
	seen := map[int64]bool{}
	for _, f := range frags {
		if seen[f.OldPosition] {
			return true
		}
		seen[f.OldPosition] = true
	}
	return false
}

// ambiguous tells whether the order of two fragments is not determined by
// their positions.
func ambiguous(frags []*gitdiff.TextFragment) bool {
	type key struct {
		pos    int64
		insert bool
	}
	seen := map[key]bool{}
	for _, f := range frags {
		k := key{f.OldPosition, f.OldLines == 0}
		if seen[k] {
			return true
		}
		seen[k] = true
	}
	return false
}

// overlappingHunks tells whether git printed hunks of one file that share lines,
// which it does for some inputs if asked for whole functions (-W); nothing can
// apply such a patch.
func overlappingHunks(patch string) bool {
	if !strings.Contains(patch, "@@ -") {
		return false
	}
	end := int64(0)
	for _, l := range strings.Split(patch, "\n") {
		if strings.HasPrefix(l, "diff --git ") {
			end = 0
		}
		m := hunkRange.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		pos, _ := strconv.ParseInt(m[1], 10, 64)
		n := int64(1)
		if m[2] != "" {
			n, _ = strconv.ParseInt(m[2], 10, 64)
		}
		if n == 0 {
			pos++
		}
		if pos < end {
			return true
		}
		end = pos + n
	}
	return false
}

var hunkRange = regexp.MustCompile(`^@@ -(\d+)(?:,(\d+))? \+\d+(?:,\d+)? @@`)

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// Reference model of strict text patch application.

type applyOutcome struct {
	ok       bool
	conflict bool   // the source does not match the patch
	out      string // complete output, or the most that may have been written
	line     int64  // location of the conflict, zero if there is none
	frag     int
	fragLine int
	why      string
}

// precedes tells whether a is applied before b. Lines are inserted after the
// line at the position of the fragment, but changed from this line on.
func precedes(a, b *gitdiff.TextFragment) bool {
	if a.OldPosition != b.OldPosition {
		return a.OldPosition < b.OldPosition
	}
	return a.OldLines > 0 && b.OldLines == 0
}

func modelApply(src []byte, frags []*gitdiff.TextFragment) applyOutcome {
	lines := splitLines(src)
	order := make([]int, len(frags))
	for i := range order {
		order[i] = i
	}
	// insertion sort: stable, independent of the library
	for i := 1; i < len(order); i++ {
		for j := i; j > 0 && precedes(frags[order[j]], frags[order[j-1]]); j-- {
			order[j], order[j-1] = order[j-1], order[j]
		}
	}
	var out bytes.Buffer
	if len(order) == 0 {
		return applyOutcome{ok: true, out: string(src)}
	}
	pos := int64(0)
	total := int64(len(lines))
	for _, fi := range order {
		f := frags[fi]
		res := applyOutcome{frag: fi + 1}
		if why := modelInvalid(f); why != "" {
			res.out, res.why = out.String(), "invalid fragment: "+why
			return res
		}
		start := f.OldPosition - 1
		if f.OldLines == 0 {
			start = f.OldPosition
		}
		if start < 0 {
			start = 0
		}
		if f.OldLines > (1<<63-1)-start {
			res.out, res.why = out.String(), "overflow"
			return res
		}
		if start < pos {
			res.conflict, res.out, res.why = true, out.String(), "overlap"
			return res
		}
		if f.OldPosition == 0 && len(src) > 0 {
			res.conflict, res.out, res.why = true, out.String(), "new file from non-empty source"
			return res
		}
		if start+f.OldLines > total {
			// how much of the data before is written first is not specified
			for _, l := range lines[pos:] {
				out.WriteString(l)
			}
			res.conflict, res.out, res.why = true, out.String(), "short source"
			res.line = total + 1
			return res
		}
		for ; pos < start; pos++ {
			out.WriteString(lines[pos])
		}
		for li, l := range f.Lines {
			if l.Op != gitdiff.OpAdd {
				if lines[pos] != l.Line {
					res.conflict, res.out, res.why = true, out.String(), "mismatch"
					res.line, res.fragLine = pos+1, li+1
					return res
				}
				pos++
			}
			if l.Op != gitdiff.OpDelete {
				out.WriteString(l.Line)
			}
		}
		if f.NewPosition == 0 && f.NewLines == 0 && pos < total {
			res.conflict, res.out, res.why = true, out.String(), "content after full delete"
			res.line = pos + 1
			return res
		}
	}
	for ; pos < total; pos++ {
		out.WriteString(lines[pos])
	}
	return applyOutcome{ok: true, out: out.String()}
}

// modelInvalid returns why a fragment is not self-consistent, or "".
func modelInvalid(f *gitdiff.TextFragment) string {
	if f == nil {
		return "nil"
	}
	var o, n, add, del, lead, trail int64
	for _, l := range f.Lines {
		switch l.Op {
		case gitdiff.OpContext:
			o++
			n++
			trail++
		case gitdiff.OpAdd:
			n++
			add++
			trail = 0
		case gitdiff.OpDelete:
			o++
			del++
			trail = 0
		default:
			return "unknown operation"
		}
		if add == 0 && del == 0 {
			lead++
		}
	}
	if add == 0 && del == 0 {
		trail = 0
	}
	switch {
	case o != f.OldLines:
		return "old lines"
	case n != f.NewLines:
		return "new lines"
	case add != f.LinesAdded:
		return "added lines"
	case del != f.LinesDeleted:
		return "deleted lines"
	case lead != f.LeadingContext:
		return "leading context"
	case trail != f.TrailingContext:
		return "trailing context"
	case f.OldPosition < 0 || f.NewPosition < 0:
		return "negative position"
	case f.OldPosition == 0 && f.OldLines != 0:
		return "position zero with old lines"
	}
	return ""
}

// toFragment converts a generated fragment to the library type.
func toFragment(h Hunk) *gitdiff.TextFragment {
	f := &gitdiff.TextFragment{
		Comment:     h.Comment,
		OldPosition: int64(h.OldPos), OldLines: int64(h.OldLines),
		NewPosition: int64(h.NewPos), NewLines: int64(h.NewLines),
	}
	seen := false
	for _, o := range h.Ops {
		l := gitdiff.Line{Line: o.T}
		switch o.K {
		case ' ':
			l.Op = gitdiff.OpContext
			if seen {
				f.TrailingContext++
			} else {
				f.LeadingContext++
			}
		case '-':
			l.Op = gitdiff.OpDelete
			f.LinesDeleted++
			seen = true
			f.TrailingContext = 0
		case '+':
			l.Op = gitdiff.OpAdd
			f.LinesAdded++
			seen = true
			f.TrailingContext = 0
		}
		f.Lines = append(f.Lines, l)
	}
	return f
}

func toFragments(hs []Hunk) (out []*gitdiff.TextFragment) {
	for _, h := range hs {
		out = append(out, toFragment(h))
	}
	return
}

var errOther = errors.New("another error")

func isConflict(err error) bool { return errors.Is(err, &gitdiff.Conflict{}) }

// judgeApply compares an observed application with the model.
func judgeApply(c *Ctx, want applyOutcome, got []byte, err error, what string) {
	c.Eval()
	if want.ok {
		c.Note("apply_ok")
		if err != nil {
			c.Fail("%s: applying a matching patch failed: %v", what, err)
		}
		if string(got) != want.out {
			c.Fail("%s: wrong result: %s", what, diffAt(want.out, string(got)))
		}
		return
	}
	if err == nil {
		c.Fail("%s: applying succeeded, but it must fail (%s); output %q", what, want.why, clip(string(got), 300))
	}
	if want.conflict {
		c.Note("conflict: " + want.why)
	} else {
		c.Note("rejected: " + firstWords(want.why))
	}
	if isConflict(err) != want.conflict {
		c.Fail("%s: errors.Is(err, &Conflict{}) is %v for %q (%s)", what, !want.conflict, err, want.why)
	}
	var ae *gitdiff.ApplyError
	if !errors.As(err, &ae) {
		c.Fail("%s: error is not an *ApplyError: %T %v", what, err, err)
	}
	if errors.Is(err, os.ErrPermission) || errors.Is(err, errOther) || !errors.Is(err, err) || !errors.Is(err, ae) {
		c.Fail("%s: %q matches errors that it does not wrap, or not itself", what, err)
	}
	if errors.Is(err, io.EOF) {
		c.Fail("%s: a failed application looks like the end of input: %q", what, err)
	}
	if inner := errors.Unwrap(ae); inner == nil || !strings.Contains(err.Error(), inner.Error()) {
		c.Fail("%s: %q does not tell about the error that it wraps, %v", what, err, inner)
	}
	var cf *gitdiff.Conflict
	if errors.As(err, &cf) != want.conflict || want.conflict && (errors.Is(cf, errOther) || !errors.Is(cf, cf) || !errors.Is(err, cf)) {
		c.Fail("%s: the conflict in %q cannot be taken from it", what, err)
	}
	if len(got) > len(want.out) || string(got) != want.out[:len(got)] {
		c.Fail("%s: output written before the failure (%s) is not a prefix of the patched content: %s", what, want.why, diffAt(want.out, string(got)))
	}
	if want.conflict && (ae.Line != want.line || want.frag >= 0 && ae.Fragment != want.frag || ae.FragmentLine != want.fragLine) {
		c.Fail("%s: conflict (%s) reported at line %d, fragment %d, fragment line %d; it is at line %d, fragment %d, fragment line %d",
			what, want.why, ae.Line, ae.Fragment, ae.FragmentLine, want.line, want.frag, want.fragLine)
	}
}

func firstWords(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == ':' {
			return s[:i]
		}
	}
	return s
}

func diffAt(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := i - 40
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 80
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("lengths %d (want) and %d (got), first difference at byte %d:\n  want %q\n  got  %q", len(want), len(got), i, cut(want), cut(got))
}

package main

import (
	"fmt"
	"strings"
)

// Ground truth for text changes: an edit script over whole files. The old and
// the new content and every set of fragments follow from the script, so no
// diff algorithm (and no code of the library) is involved.

type Op struct {
	K byte // ' ', '-' or '+'
	T string
}

type Script []Op

func (s Script) Old() string {
	var b strings.Builder
	for _, o := range s {
		if o.K != '+' {
			b.WriteString(o.T)
		}
	}
	return b.String()
}

func (s Script) New() string {
	var b strings.Builder
	for _, o := range s {
		if o.K != '-' {
			b.WriteString(o.T)
		}
	}
	return b.String()
}

type Hunk struct {
	OldPos, OldLines int
	NewPos, NewLines int
	Comment          string
	Around           [2]string // white space around the comment
	Ops              []Op
}

func splitLines(b []byte) (lines []string) {
	s := string(b)
	for len(s) > 0 {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return append(lines, s)
		}
		lines = append(lines, s[:i+1])
		s = s[i+1:]
	}
	return lines
}

var tricky = []string{
	"-- a/file", "++ b/file", "-- /dev/null", "- x", "+ x", "@@ -1 +1 @@", "@ -1,3 +1,3 @@", "diff --git a/x b/x",
	"\\ No newline at end of file", "\\", "\\ ", "GIT binary patch", "Binary files a/x and b/x differ", "literal 10", "-- ", "--", "---", "+++",
	"", " ", "\t", "\r", "x\r", "From: a@b", "index 123..456 100644", "rename from a", "new file mode 100644", "zcmV", "}", "{", "\x00", "\x00\xff\xfe",
	"caf\xc3\xa9", "\xe9", "\u2028", "a\x0bb\x0c", "similarity index 100%", "deleted file mode 100644", "-", "+", "0", "@@", "--- a/x\t", "commit abc",
}

func genLineText(r *Rng, big bool) string {
	switch k := r.N(100); {
	case k < 50:
		return string(rune('a' + r.N(4)))
	case k < 70:
		return fmt.Sprintf("line %d", r.N(30))
	case k < 90:
		return tricky[r.N(len(tricky))]
	case k < 97:
		b := r.Bytes(r.N(20))
		for i := range b {
			if b[i] == '\n' {
				b[i] = '.'
			}
		}
		return string(b)
	default:
		if big {
			return longLine(r)
		}
		return strings.Repeat(string(rune('a'+r.N(26))), r.N(200))
	}
}

func longLine(r *Rng) string {
	n := r.Size(300, 1023, 1024, 1025, 2048, 4095, 4096, 8192, 32768, 65536)
	return strings.Repeat(string(rune('a'+r.N(26))), n)
}

// genScript makes an edit script with about n lines. Big scripts have lines
// and line counts around the buffer sizes that implementations use.
func genScript(r *Rng, n int, big bool) Script {
	var s Script
	var pool []string
	for i := 0; i < 1+r.N(6); i++ {
		pool = append(pool, genLineText(r, big))
	}
	if big {
		pool = append(pool, longLine(r))
	}
	density := r.PickInt(2, 5, 15, 30, 60, 100)
	if n > 1000 {
		density = r.PickInt(1, 1, 3, 40)
	}
	if n == 0 {
		density = 100
	}
	mode := byte(' ')
	total := n
	if n == 0 {
		total = 1 + r.N(4)
	}
	unique := r.P(30)
	for i := 0; i < total; i++ {
		var t string
		if r.P(70) {
			t = pool[r.N(len(pool))]
		} else {
			t = genLineText(r, big && r.P(10))
		}
		if unique {
			t = fmt.Sprintf("%d:%s", i, t)
		}
		switch {
		case mode == ' ' && r.N(100) < density:
			mode = "+-"[r.N(2)]
		case mode != ' ':
			if r.P(35) {
				mode = ' '
			} else if r.P(30) {
				mode = "+-"[r.N(2)]
			}
		}
		s = append(s, Op{mode, t + "\n"})
	}
	s.ensureChange(r)
	s.setEOL(r)
	return s
}

func (s *Script) ensureChange(r *Rng) {
	for _, o := range *s {
		if o.K != ' ' {
			return
		}
	}
	if len(*s) == 0 {
		*s = append(*s, Op{"+-"[r.N(2)], "x\n"})
		return
	}
	i := r.N(len(*s))
	switch r.N(3) {
	case 0:
		(*s)[i].K = '-'
	case 1:
		(*s)[i].K = '+'
	default:
		o := (*s)[i]
		out := append(Script{}, (*s)[:i]...)
		out = append(out, Op{'-', o.T}, Op{'+', "new " + o.T})
		*s = append(out, (*s)[i+1:]...)
	}
}

// setEOL randomly removes the final newline of either side.
func (s Script) setEOL(r *Rng) {
	lastOld, lastNew := -1, -1
	for i, o := range s {
		if o.K != '+' {
			lastOld = i
		}
		if o.K != '-' {
			lastNew = i
		}
	}
	strip := func(i int) {
		if len(s[i].T) > 1 {
			s[i].T = strings.TrimSuffix(s[i].T, "\n")
		}
	}
	k := r.N(10)
	if lastOld == lastNew {
		if k < 3 && lastOld >= 0 {
			strip(lastOld)
		}
		return
	}
	// a context line can only miss its newline if it is last on both sides
	if (k == 0 || k == 1) && lastOld >= 0 && s[lastOld].K == '-' {
		strip(lastOld)
	}
	if (k == 1 || k == 2) && lastNew >= 0 && s[lastNew].K == '+' {
		strip(lastNew)
	}
}

// gitOrder moves deletions before additions in each block of changes, as diff
// tools print them.
func (s Script) gitOrder() Script {
	out := make(Script, 0, len(s))
	for i := 0; i < len(s); {
		if s[i].K == ' ' {
			out = append(out, s[i])
			i++
			continue
		}
		j := i
		for j < len(s) && s[j].K != ' ' {
			j++
		}
		for _, o := range s[i:j] {
			if o.K == '-' {
				out = append(out, o)
			}
		}
		for _, o := range s[i:j] {
			if o.K == '+' {
				out = append(out, o)
			}
		}
		i = j
	}
	return out
}

// hunks groups the script into fragments with up to ctx lines of context. If
// loose is set, the amount of context and the grouping vary.
//
// With atZero, zero-context fragments that insert or delete at the start of a
// file keep position zero. Otherwise, they are extended by one line.
func (s Script) hunks(r *Rng, ctx int, loose, atZero bool) (out []Hunk) {
	return s.hunksSplit(r, ctx, loose, atZero, false)
}

// hunksSplit is hunks, but if split is set, it also divides blocks of changes
// among several fragments.
func (s Script) hunksSplit(r *Rng, ctx int, loose, atZero, split bool) (out []Hunk) {
	type rng struct{ lo, hi int }
	var groups []rng
	for i := 0; i < len(s); {
		if s[i].K == ' ' {
			i++
			continue
		}
		j := i
		for j < len(s) && s[j].K != ' ' {
			j++
		}
		if split && j-i > 1 && r.P(40) {
			j = i + 1 + r.N(j-i-1)
		}
		lead, trail := ctx, ctx
		if loose {
			lead, trail = r.N(ctx+1), r.N(ctx+1)
		}
		lo, hi := i-lead, j+trail
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		// do not run into changes that are not part of this block
		for k := j; k < hi; k++ {
			if s[k].K != ' ' {
				hi = k
				break
			}
		}
		for k := i - 1; k >= lo; k-- {
			if s[k].K != ' ' {
				lo = k + 1
				break
			}
		}
		if n := len(groups); n > 0 {
			prev := &groups[n-1]
			gap := lo - prev.hi
			switch {
			case gap < 0 && loose && r.P(50):
				lo = prev.hi // share the gap without overlap
				groups = append(groups, rng{lo, hi})
			case gap < 0, gap == 0 && (!loose || r.P(50)), loose && gap > 0 && gap < 6 && r.P(20):
				prev.hi = hi
			default:
				groups = append(groups, rng{lo, hi})
			}
		} else {
			groups = append(groups, rng{lo, hi})
		}
		i = j
	}

	count := func(lo, hi int) (o, n int) {
		for _, op := range s[lo:hi] {
			if op.K != '+' {
				o++
			}
			if op.K != '-' {
				n++
			}
		}
		return
	}
	totalOld, totalNew := count(0, len(s))
	oldBefore, newBefore, pos := 0, 0, 0
	for gi := 0; gi < len(groups); gi++ {
		g := groups[gi]
		if g.lo < pos {
			g.lo = pos
		}
		o, n := count(pos, g.lo)
		oldBefore += o
		newBefore += n
		pos = g.lo
		o, n = count(g.lo, g.hi)
		if !atZero && (o == 0 && oldBefore == 0 && totalOld > 0 || n == 0 && newBefore == 0 && totalNew > 0) {
			// extend until it is anchored
			for g.hi < len(s) && (o == 0 || n == 0) {
				g.hi++
				o, n = count(g.lo, g.hi)
			}
			// absorb following groups that are now covered
			for gi+1 < len(groups) && groups[gi+1].lo <= g.hi {
				gi++
				if groups[gi].hi > g.hi {
					g.hi = groups[gi].hi
				}
			}
			o, n = count(g.lo, g.hi)
		}
		h := Hunk{OldLines: o, NewLines: n, OldPos: oldBefore + 1, NewPos: newBefore + 1}
		if o == 0 {
			h.OldPos = oldBefore
		}
		if n == 0 {
			h.NewPos = newBefore
		}
		h.Ops = append(h.Ops, s[g.lo:g.hi]...)
		if r.P(25) {
			h.Comment = r.Pick("func main() {", "@@ odd @@", "x", "class Foo(object):", "int f(void) /* -1,2 +3,4 @@ */", "caf\xc3\xa9", "+", "-1 +1")
		}
		if h.Comment != "" && r.P(20) || r.P(2) {
			h.Around = [2]string{r.Pick("", " ", "\t", "    "), r.Pick("", " ", "\t", "  ")}
		}
		out = append(out, h)
		oldBefore += o
		newBefore += n
		pos = g.hi
	}
	return out
}

func rangeStr(pos, lines int, short bool) string {
	if short && lines == 1 {
		return fmt.Sprint(pos)
	}
	return fmt.Sprintf("%d,%d", pos, lines)
}

const noEOL = "\\ No newline at end of file\n"

// The text of the marker for a missing newline depends on the language; git
// recognises it by its first two characters and its length of at least 12.
var markers = []string{noEOL, noEOL, noEOL, "\\ Kein Zeilenumbruch am Dateiende.\n", "\\ Pas de fin de ligne \u00e0 la fin du fichier\n", "\\ \u6587\u4ef6\u5c3e\u6ca1\u6709\u6362\u884c\u7b26\n", "\\ 123456789\n", "\\ 1234567890\n"}

// renderHunk prints a fragment like git does.
func renderHunk(b *strings.Builder, h Hunk, short, gnuEmpty bool, marker string) {
	fmt.Fprintf(b, "@@ -%s +%s @@", rangeStr(h.OldPos, h.OldLines, short), rangeStr(h.NewPos, h.NewLines, short))
	if h.Comment != "" {
		b.WriteString(" " + h.Around[0] + h.Comment + h.Around[1])
	} else {
		b.WriteString(h.Around[0] + h.Around[1])
	}
	b.WriteByte('\n')
	for _, o := range h.Ops {
		if gnuEmpty && o.K == ' ' && o.T == "\n" {
			b.WriteByte('\n')
			continue
		}
		b.WriteByte(o.K)
		b.WriteString(o.T)
		if !strings.HasSuffix(o.T, "\n") {
			b.WriteString("\n" + marker)
		}
	}
}

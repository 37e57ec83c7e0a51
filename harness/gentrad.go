package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// TradSpec is the ground truth for a file of a traditional unified diff.
type TradSpec struct {
	OldLine, NewLine string // after "--- " and "+++ "
	OldName, NewName string // expected names
	IsNew, IsDelete  bool
	A, B             string
	Hunks            []Hunk
	Lead             string // lines before the header
	short, gnuEmpty  bool
	marker           string
}

func (t *TradSpec) render() string {
	var b strings.Builder
	b.WriteString(t.Lead)
	fmt.Fprintf(&b, "--- %s\n+++ %s\n", t.OldLine, t.NewLine)
	for _, h := range t.Hunks {
		renderHunk(&b, h, t.short, t.gnuEmpty, t.marker)
	}
	return b.String()
}

func (t *TradSpec) expected() *gitdiff.File {
	return &gitdiff.File{OldName: t.OldName, NewName: t.NewName, IsNew: t.IsNew, IsDelete: t.IsDelete, TextFragments: toFragments(t.Hunks)}
}

// tradStamp makes the text after the tab of a file line.
func tradStamp(r *Rng, epoch bool) string {
	zone := r.Range(-14*4, 14*4) * 15 * 60
	if r.P(20) {
		zone = 0
	}
	if r.P(5) {
		zone = r.Range(-23*60-59, 23*60+59) * 60
	}
	t := time.Unix(0, 0)
	frac := int64(0)
	if !epoch {
		switch r.N(6) {
		case 0:
			t = time.Unix(int64(r.PickInt(1, -1, 60, -60, 3600, -3600, 86400, -86400, int(zone), -int(zone))), 0)
			if t.Unix() == 0 {
				t = time.Unix(1, 0)
			}
		case 1:
			frac = int64(1 + r.N(999999999))
			if r.P(30) {
				frac = 1
			}
		default:
			t = time.Unix(int64(r.U64()%2000000000), int64(r.N(1000000000)))
			frac = int64(t.Nanosecond())
		}
	}
	loc := time.FixedZone("", zone)
	s := t.In(loc).Format("2006-01-02 15:04:05")
	digits := r.PickInt(9, 9, 9, 0, 3, 6, 1)
	if frac != 0 {
		digits = 9
	}
	if digits > 0 {
		s += "." + fmt.Sprintf("%09d", frac)[:digits]
	}
	sign := '+'
	z := zone
	if z < 0 {
		sign, z = '-', -z
	}
	sep := ""
	if r.P(20) {
		sep = ":"
	}
	return s + fmt.Sprintf(" %c%02d%s%02d", sign, z/3600, sep, z/60%60)
}

func tradName(r *Rng) string {
	for {
		var s string
		switch k := r.N(10); {
		case k < 5:
			s = genSafeName(r)
		case k < 7:
			s = r.Pick("a/", "b/", "old/", "proj-1.0/", "./", "../", "") + genSafeName(r)
		default:
			s = genName(r)
		}
		if strings.ContainsAny(s, "\t\n\"") || strings.HasPrefix(s, "/") || strings.Contains(s, "//") {
			continue
		}
		return s
	}
}

func genTrad(r *Rng) *TradSpec {
	t := &TradSpec{short: r.P(90), gnuEmpty: r.P(20), marker: r.Pick(markers...)}
	name := tradName(r)
	kind := r.PickInt(0, 0, 0, 1, 2)
	s := genScript(r, r.N(15), false)
	if r.P(85) {
		s = s.gitOrder()
	}
	if kind != 0 {
		k := byte('+')
		if kind == 2 {
			k = '-'
		}
		u := Script{}
		for i, op := range s {
			if i < len(s)-1 && !strings.HasSuffix(op.T, "\n") {
				op.T += "\n"
			}
			u = append(u, Op{k, op.T})
		}
		s = u
	}
	t.A, t.B = s.Old(), s.New()
	t.Hunks = s.hunks(r, r.PickInt(3, 3, 3, 0, 1, 5), r.P(20), false)

	other := func() string { // something after the tab that is not the epoch
		switch r.N(8) {
		case 0:
			return ""
		case 1:
			return "\t" + r.Pick("(revision 12)", "(working copy)", "Thu Jan  1 00:00:00 1970", "1970-01-01", "1970-01-01 00:00:00", "0", "1970-01-01 00:00:00 UTC", "1970-13-01 00:00:00 +0000",
				"1970-01-01 00:00:00 +0000 x", "x 1970-01-01 00:00:00 +0000", "1970-01-01T00:00:00 +0000",
				// only the whole rest of the line is a stamp
				"1970-01-01 00:00:00 +0000 ", "1970-01-01 00:00:00 +0000\t", "1970-01-01 00:00:00.000000000 +0000\r", "1970-01-01 01:00:00 +01:00 ")
		default:
			return "\t" + tradStamp(r, false)
		}
	}
	quote := func(n string) string {
		if r.P(20) || strings.ContainsAny(n, "\t\r\n\"") {
			q := gitQuote("", n, true)
			if q[0] != '"' && !strings.ContainsAny(n, "\"\\") {
				q = `"` + n + `"`
			}
			return q
		}
		return n
	}
	oldName, newName := name, name
	switch kind {
	case 0:
		switch r.N(8) {
		case 0:
			oldName = name + r.Pick(".orig", "~", ".bak", ".old")
		case 1:
			newName = name + r.Pick(".orig", "~", ".new", "x", "/x", ".d/x")
		case 2:
			oldName, newName = "a/"+name, "b/"+name
		case 3:
			oldName = tradName(r)
		}
		t.OldLine, t.NewLine = quote(oldName)+other(), quote(newName)+other()
		if strings.HasPrefix(newName, oldName) {
			t.OldName, t.NewName = oldName, oldName
		} else {
			t.OldName, t.NewName = newName, newName
		}
	case 1:
		t.IsNew, t.NewName = true, newName
		if r.P(30) {
			oldName = tradName(r)
		}
		if r.P(50) {
			t.OldLine = "/dev/null" + r.Pick("", "\t"+tradStamp(r, true), "\t"+tradStamp(r, false))
		} else {
			t.OldLine = quote(oldName) + "\t" + tradStamp(r, true)
		}
		t.NewLine = quote(newName) + other()
	case 2:
		t.IsDelete, t.OldName = true, oldName
		if r.P(30) {
			newName = tradName(r)
		}
		if r.P(50) {
			t.NewLine = "/dev/null" + r.Pick("", "\t"+tradStamp(r, true), "\t"+tradStamp(r, false))
		} else {
			t.NewLine = quote(newName) + "\t" + tradStamp(r, true)
		}
		t.OldLine = quote(oldName) + other()
	}
	if r.P(15) {
		t.Lead = r.Pick("Index: "+genSafeName(r)+"\n===================================================================\n", "diff -u old/x new/x\n", "diff -ruN a/x b/x\n", "Only in b: foo\n")
	}
	return t
}

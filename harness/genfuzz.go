package main

import (
	"fmt"
	"strings"
)

var fuzzDict = []string{
	"diff --git ", "diff --git a/x b/x\n", "--- ", "+++ ", "--- a/x\n+++ b/x\n", "@@ -", "@@ -1 +1 @@\n", "@@ -0,0 +1 @@\n", "@@ -1,3 +1,3 @@ f\n", " @@", ",", "index ", "old mode ", "new mode ", "deleted file mode ", "new file mode ",
	"copy from ", "copy to ", "rename from ", "rename to ", "rename old ", "rename new ", "similarity index ", "dissimilarity index ", "100%", "\\ No newline at end of file\n", "\\ ", "\\", "GIT binary patch\n", "literal ", "delta ", "Binary files ", " differ\n", "Files ",
	"/dev/null", "/dev/null\n", "\"", "\\\"", "\\\\", "\\303", "\\x", "\n", "\n\n", "\t", "\r\n", " ", "-", "+", "\x00", "\xff", "a/", "b/", "zcmV", "A00000\n", "-0,0", "+0,0", "..", "\t1970-01-01 00:00:00 +0000\n", "\t1970-01-01 00:00:00.000000000 +0000",
	"9223372036854775807", "9223372036854775808", "-1", "18446744073709551616", "4294967296", "2147483648", "0", "1", "65536", "104857600", "104857601", "100644", "120000", "777777777777", "//", "@@ -9223372036854775807,9223372036854775807 +9223372036854775807,9223372036854775807 @@\n",
	"From 0123456789012345678901234567890123456789 Mon Sep 17 00:00:00 2001\n", "From: ", "Subject: ", "Date: ", "commit ", "Author: ", "<", ">", "@", "(", ")", "=?UTF-8?q?", "?=", "[PATCH]", "Re: ",
}

// mutateBytes changes a text at random places.
func mutateBytes(r *Rng, s string, other func() string) string {
	b := []byte(s)
	for n := r.PickInt(1, 1, 1, 2, 3, 5, 10); n > 0; n-- {
		if len(b) == 0 {
			b = []byte(fuzzDict[r.N(len(fuzzDict))])
			continue
		}
		i := r.N(len(b))
		switch r.N(15) {
		case 0:
			b[i] ^= 1 << uint(r.N(8))
		case 1:
			b[i] = byte(r.U64())
		case 2:
			b = append(b[:i:i], b[i+1:]...)
		case 3, 4: // insert from the dictionary
			d := fuzzDict[r.N(len(fuzzDict))]
			b = append(b[:i:i], append([]byte(d), b[i:]...)...)
		case 5: // overwrite
			copy(b[i:], fuzzDict[r.N(len(fuzzDict))])
		case 6: // truncate
			b = b[:i]
		case 7: // remove a line
			lines := strings.SplitAfter(string(b), "\n")
			j := r.N(len(lines))
			b = []byte(strings.Join(append(lines[:j:j], lines[j+1:]...), ""))
		case 8: // duplicate a line
			lines := strings.SplitAfter(string(b), "\n")
			j := r.N(len(lines))
			k := r.N(len(lines))
			l := lines[j]
			b = []byte(strings.Join(append(lines[:k:k], append([]string{l}, lines[k:]...)...), ""))
		case 9: // swap lines
			lines := strings.SplitAfter(string(b), "\n")
			j, k := r.N(len(lines)), r.N(len(lines))
			lines[j], lines[k] = lines[k], lines[j]
			b = []byte(strings.Join(lines, ""))
		case 10: // replace a number
			for i < len(b) && (b[i] < '0' || b[i] > '9') {
				i++
			}
			j := i
			for j < len(b) && b[j] >= '0' && b[j] <= '9' {
				j++
			}
			if j > i {
				v := r.Pick("0", "1", "2", "3", "-1", "9223372036854775807", "9223372036854775808", "99999999999999999999", "4294967296", "100", "", fmt.Sprint(r.N(20)))
				b = append(b[:i:i], append([]byte(v), b[j:]...)...)
			}
		case 11: // splice
			o := other()
			if len(o) > 0 {
				j := r.N(len(o))
				b = append(b[:i:i], o[j:]...)
			}
		case 12: // remove a range
			j := i + r.N(30)
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:i:i], b[j:]...)
		case 13: // repeat a range
			j := i + r.N(30)
			if j > len(b) {
				j = len(b)
			}
			part := string(b[i:j])
			b = append(b[:j:j], append([]byte(strings.Repeat(part, 1+r.N(4))), b[j:]...)...)
		case 14: // line ends
			if r.P(50) {
				b = []byte(strings.ReplaceAll(string(b), "\n", "\r\n"))
			} else {
				b = []byte(strings.TrimRight(string(b), "\n"))
			}
		}
		if len(b) > 1<<17 {
			b = b[:1<<17]
		}
	}
	return string(b)
}

// genAnyPatch makes a valid patch of any kind.
func genAnyPatch(r *Rng) string {
	var b strings.Builder
	if r.P(15) {
		b.WriteString(mailHead)
	}
	st := genStyle(r)
	open := false
	for i := 0; i < 1+r.N(3); i++ {
		if r.P(20) {
			if open {
				// its names would be read as part of the git header before
				b.WriteString("text\n")
			}
			b.WriteString(genTrad(r).render())
			open = false
		} else {
			f := genSpec(r, defaultSpecOpts(r))
			b.WriteString(f.renderGit(st))
			open = f.Binary == "" && len(f.Hunks) == 0
		}
	}
	return b.String()
}

// genMutated makes inputs close to patches.
func genMutated(r *Rng) string {
	switch r.N(12) {
	case 0: // dictionary soup
		var b strings.Builder
		for i := r.N(30); i > 0; i-- {
			b.WriteString(fuzzDict[r.N(len(fuzzDict))])
		}
		return b.String()
	case 1:
		return string(r.Bytes(r.N(200)))
	case 2: // header soup
		var b strings.Builder
		b.WriteString("diff --git a/x b/x\n")
		for i := r.N(12); i > 0; i-- {
			b.WriteString(fuzzDict[r.N(len(fuzzDict))] + r.Pick("x\n", "a/x\n", "b/x\n", "/dev/null\n", "100644\n", "50%\n", "a..b\n", "\n", ""))
		}
		return b.String()
	case 3: // fragment soup
		var b strings.Builder
		b.WriteString("--- a/x\n+++ b/x\n")
		for i := 1 + r.N(3); i > 0; i-- {
			fmt.Fprintf(&b, "@@ -%d,%d +%d,%d @@\n", r.N(4), r.N(4), r.N(4), r.N(4))
			for j := r.N(6); j > 0; j-- {
				b.WriteString(r.Pick(" a\n", "-a\n", "+a\n", "\n", "\\ No newline at end of file\n", "\\ x\n", "x\n", "-\n", "+", " "))
			}
		}
		return b.String()
	default:
		return mutateBytes(r, genAnyPatch(r), func() string { return genAnyPatch(r) })
	}
}

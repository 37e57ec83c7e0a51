package main

import (
	"fmt"
	"strings"
)

// gitQuote quotes a name the way git does, written from the description of
// core.quotePath in git-config(1): control characters, double quotes and
// backslashes are always escaped, bytes above 0x7f only with quotePath.
func gitQuote(prefix, name string, quotePath bool) string {
	s := prefix + name
	need := false
	var b strings.Builder
	for _, ch := range []byte(s) {
		esc := ""
		switch ch {
		case 7:
			esc = `\a`
		case 8:
			esc = `\b`
		case 9:
			esc = `\t`
		case 10:
			esc = `\n`
		case 11:
			esc = `\v`
		case 12:
			esc = `\f`
		case 13:
			esc = `\r`
		case '"':
			esc = `\"`
		case '\\':
			esc = `\\`
		default:
			if ch < 0x20 || ch == 0x7f || ch >= 0x80 && quotePath {
				esc = fmt.Sprintf(`\%03o`, ch)
			}
		}
		if esc != "" {
			need = true
			b.WriteString(esc)
		} else {
			b.WriteByte(ch)
		}
	}
	if need {
		return `"` + b.String() + `"`
	}
	return s
}

var oddParts = []string{
	" ", "  ", "\t", "\n", "\"", "\\", "\\\\", "\\\"", "'", "\x01", "\x7f", "\x1b", "\a\b\v\f\r", "\xc3\xa9", "\xe2\x98\x83", "\xff", "\xe9", "\xed\xa0\x80", "\xf0\x9f\xa4\x96",
	"b", "a", "->", "\\n", "\\303", "{", "}", "*", "?", "#", ":", "@@", "--", "..", "~", ".orig", "%", "=", " and ", " differ", "100644", "\\x41", "\\u00e9",
}

var hostileNames = []string{
	"x b/x", "a b/a", "a b/a b/a", " b/x", "x ", " x", "dev/null", "a/x", "b/x", "a/b/c", "x\\", "\\", "\"", "\"x\"", "x\t", "\tx", "new\nline", "d ir/fi le", "x y/x y",
	"-- x", "--- a", "+++", "@@ -1 +1 @@", "diff --git", "foo.txt b/foo.txt", "q q/q q", "x\x00y"[:1], "caf\xc3\xa9", "caf\xe9", "\xc3\xa9\\", "a\"b\\", "trailing\\\\", "x..y", "1", "100644",
	"Binary files", "x differ", "rename to y", "\r", "x\r", "\x0bx", " ", "  ", "a  b", "a\tb", "tab\tand space", "dev/null/x", ".gitignore", ".", // last is replaced
}

// genName makes a relative path as it can occur in a git tree.
func genName(r *Rng) string {
	for {
		var s string
		switch k := r.N(100); {
		case k < 30:
			s = fmt.Sprintf("f%d.txt", r.N(50))
		case k < 45:
			s = fmt.Sprintf("dir%d/sub/f%d.go", r.N(3), r.N(20))
		case k < 65:
			s = hostileNames[r.N(len(hostileNames))]
		case k < 97:
			n := 1 + r.N(5)
			for i := 0; i < n; i++ {
				switch r.N(4) {
				case 0:
					s += fmt.Sprintf("f%d", r.N(9))
				case 1:
					s += "/"
				default:
					s += oddParts[r.N(len(oddParts))]
				}
			}
		case k < 99:
			b := r.Bytes(1 + r.N(12))
			s = string(b)
		default:
			s = strings.Repeat(r.Pick("x", "\xc3\xa9", "\\", "y z"), 1+r.N(60))
		}
		if validName(s) {
			return s
		}
	}
}

func validName(s string) bool {
	if s == "" || strings.ContainsRune(s, 0) || len(s) > 3000 {
		return false
	}
	for _, part := range strings.Split(s, "/") {
		if part == "" || part == "." || part == ".." || strings.EqualFold(part, ".git") || len(part) > 200 || strings.HasPrefix(strings.ToLower(part), ".git") {
			return false
		}
	}
	return true
}

func genSafeName(r *Rng) string {
	return fmt.Sprintf("%s%d.%s", r.Pick("f", "dir/f", "src/main/g", "x_y-"), r.N(1000), r.Pick("txt", "go", "c", "bin"))
}

package main

import (
	"fmt"
	"strings"
	"time"
	"unicode"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// ---- dates, computed without the time package

// stamp is an instant with the offset of its time zone in minutes.
type stamp struct {
	Unix int64
	Off  int

	Minus bool // write a zero offset as -0000, which mail programs do
}

// civil converts days since 1970-01-01 to a date of the Gregorian calendar.
func civil(days int64) (y int64, m, d int) {
	// count years from March 0000 in eras of 400 years
	z := days + 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = int(doy - (153*mp+2)/5 + 1)
	m = int(mp + 3)
	if m > 12 {
		m -= 12
	}
	y = yoe + era*400
	if m <= 2 {
		y++
	}
	return
}

var monthNames = []string{"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}
var dayNames = []string{"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"} // 1970-01-01 was a Thursday

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func zoneStr(off int, sep string) string {
	sign := '+'
	if off < 0 {
		sign, off = '-', -off
	}
	return fmt.Sprintf("%c%02d%s%02d", sign, off/60, sep, off%60)
}

// format prints the stamp in a format of git's --date option.
func (s stamp) format(style string) string {
	local := s.Unix + int64(s.Off)*60
	days := floorDiv(local, 86400)
	sec := local - days*86400
	y, m, d := civil(days)
	wd := dayNames[((days%7)+7)%7]
	zoneStr := zoneStr
	if s.Off == 0 && s.Minus {
		zoneStr = func(off int, sep string) string { return "-00" + sep + "00" }
	}
	clock := fmt.Sprintf("%02d:%02d:%02d", sec/3600, sec/60%60, sec%60)
	switch style {
	case "default":
		return fmt.Sprintf("%s %s %d %s %d %s", wd, monthNames[m-1], d, clock, y, zoneStr(s.Off, ""))
	case "default-local":
		return fmt.Sprintf("%s %s %d %s %d", wd, monthNames[m-1], d, clock, y)
	case "iso":
		return fmt.Sprintf("%04d-%02d-%02d %s %s", y, m, d, clock, zoneStr(s.Off, ""))
	case "iso-strict":
		return fmt.Sprintf("%04d-%02d-%02dT%s%s", y, m, d, clock, zoneStr(s.Off, ":"))
	case "iso-strict-z":
		return fmt.Sprintf("%04d-%02d-%02dT%sZ", y, m, d, clock)
	case "rfc":
		return fmt.Sprintf("%s, %d %s %d %s %s", wd, d, monthNames[m-1], y, clock, zoneStr(s.Off, ""))
	case "short":
		return fmt.Sprintf("%04d-%02d-%02d", y, m, d)
	case "raw":
		return fmt.Sprintf("%d %s", s.Unix, zoneStr(s.Off, ""))
	case "unix":
		return fmt.Sprint(s.Unix)
	}
	panic("date style " + style)
}

const lastSecond = 253402300799 // 9999-12-31 23:59:59

// genStamp makes an instant git can store, with a year of four digits.
func genStamp(r *Rng) stamp {
	var s stamp
	switch r.N(6) {
	case 0:
		s.Unix = int64(r.N(3 * 86400))
	case 1:
		s.Unix = int64(r.U64() % (lastSecond - 2*86400))
	case 2: // around the end of February and of years
		y := int64(1972 + r.N(300))
		days := (y-1970)*365 + (y-1969)/4 - (y-1901)/100 + (y-1601)/400
		s.Unix = (days+int64(r.PickInt(-1, 0, 1, 57, 58, 59, 60)))*86400 + int64(r.Range(-3, 3))*r64(r, 1, 3600, 43200)
	case 3:
		s.Unix = r64(r, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1000000000, 9999999999, 946684799, 951782400, 1234567890) + int64(r.Range(-1, 1))
	default:
		s.Unix = int64(r.U64() % 2200000000)
	}
	s.Off = r.PickInt(0, 0, 60, -60, -420, -480, 120, 330, 345, -210, 765, 840, -720, 1, -1, -59, 59, 599, -599, r.Range(-720, 840))
	if s.Off == -1 {
		s.Off = -2 // git omits the zone -0001 in its default format
	}
	if s.Unix+int64(s.Off)*60 < 0 {
		s.Unix = 86400 * 2
	}
	if s.Unix < 0 {
		s.Unix = 1
	}
	return s
}

func r64(r *Rng, v ...int64) int64 { return v[r.N(len(v))] }

func sameStamp(want stamp, got time.Time) string {
	if got.Unix() != want.Unix || got.Nanosecond() != 0 {
		return fmt.Sprintf("want the instant %d, got %d (%v)", want.Unix, got.Unix(), got)
	}
	if _, off := got.Zone(); off != want.Off*60 {
		return fmt.Sprintf("want the zone offset %s, got %d s (%v)", zoneStr(want.Off, ""), off, got)
	}
	return ""
}

// ---- identities

var namePool = []string{
	"A U Thor", "Joe Developer", "J\xc3\xb6rg M\xc3\xbcller", "Dr. Who", "O'Brien", "\xe5\xb1\xb1\xe7\x94\xb0 \xe5\xa4\xaa\xe9\x83\x8e", "\xf0\x9f\xa4\x96 Bot", "x", "X Y", "Jean-Luc Picard", "first.last", "a b c d e f", "\xc3\x89mile",
	"Name With A Quite Long Sequence Of Words That Goes On And On Beyond Eighty Characters", "\xc3\x81 Very L\xc3\xb6ng N\xc3\xa4me W\xc3\xaeth M\xc3\xa1ny W\xc3\xb6rds And S\xc3\xb6me M\xc3\xb6re Of Th\xc3\xa9m To F\xc3\xb6ld The Line Twice Or Thrice", "user_name", "foo+bar", "A=B", "?", "=?x?=", "1234", "von der Tann, Fritz", "Doe; John", "name: x", "bot[bot]", "r\xc3\xa9 [x]", "Foo, Inc.", "\xc3\xb6", "a.b.c",
}

var oddNamePool = []string{
	"Joe \"Nick\" Doe", "Joe (at Home) Doe", "Back\\slash", "\"Quoted\"", "a\\\"b", "J\xc3\xb6rg \"X\" \xc3\x84", "J\xc3\xb6rg (X) \xc3\x84", "Pa(ren", "Pa)ren", "\\", "J\xc3\xb6rg \\ X",
}

var emailPool = []string{
	"author@example.com", "a@b", "12345+dependabot[bot]@users.noreply.github.com", "j\xc3\xb6rg@example.org", "x.y-z_w@sub.domain.example", "root@localhost", "a=b@c", "'q'@x", "root", "none", "", "u!v!w", "x%y@z",
}

func genIdent(r *Rng, odd bool) gitdiff.PatchIdentity {
	id := gitdiff.PatchIdentity{Name: namePool[r.N(len(namePool))], Email: emailPool[r.N(len(emailPool))]}
	if r.P(20) {
		id.Name = fmt.Sprintf("%s %s", r.Pick("Ann", "Bob", "Cl\xc3\xa9o", "D."), r.Pick("One", "Two-Three", "Z\xc3\xb3", "von X"))
	}
	if odd && r.P(25) {
		id.Name = oddNamePool[r.N(len(oddNamePool))]
	}
	return id
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func squeeze(s string) string {
	return strings.Join(strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }), " ")
}

// refIdentity reads an identity the way git does for mails: quoting is
// removed, the address is the word around the first @, the rest is the name.
func refIdentity(s string) (id gitdiff.PatchIdentity, ok bool) {
	// quoted strings and comments
	var b []byte
	quoted, depth := false, 0
	s = squeeze(s)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '\\' && (quoted || depth > 0):
			if i+1 < len(s) {
				i++
				b = append(b, s[i])
			}
			continue
		case ch == '"' && depth == 0:
			quoted = !quoted
			continue
		case ch == '(' && !quoted:
			depth++
		case ch == ')' && depth > 0:
			depth--
		}
		b = append(b, ch)
	}
	t := string(b)
	name, email := "", ""
	if at := strings.IndexByte(t, '@'); at >= 0 {
		i, j := at, at
		for i > 0 && !isWS(t[i-1]) && t[i-1] != '<' {
			i--
		}
		for j < len(t) && !isWS(t[j]) && t[j] != '>' {
			j++
		}
		email = t[i:j]
		if i > 0 && t[i-1] == '<' {
			i--
		}
		if j < len(t) && t[j] == '>' {
			j++
		}
		name = t[:i] + t[j:]
	} else if i := strings.IndexByte(t, '<'); i >= 0 {
		if j := strings.IndexByte(t[i:], '>'); j >= 0 {
			email = strings.TrimSpace(t[i+1 : i+j])
			name = t[:i]
		}
	}
	name = squeeze(name)
	if strings.HasPrefix(name, "(") && strings.HasSuffix(name, ")") {
		name = name[1 : len(name)-1]
	}
	name = strings.Trim(name, " ")
	if name == "" || strings.ContainsAny(name, "@<>") {
		name = email
	}
	return gitdiff.PatchIdentity{Name: name, Email: email}, name != "" || email != ""
}

// ---- commits

type commitSpec struct {
	SHA               string
	Author, Committer gitdiff.PatchIdentity
	ADate, CDate      stamp
	Title             []string
	Body              string
}

func (c *commitSpec) message() string {
	return strings.Join(c.Title, "\n") + "\n\n" + c.Body
}

var titleWords = []string{"fix", "the", "parser", "add", "feature", "\xc3\xb6", "na\xc3\xafve", "\xf0\x9f\xa4\x96", "foo()", "a:b", "x", "Re:", "[x]", "--", "=?", "?=", "=20", "_", "#12", "\"q\"", "<x@y>", "c++", "reX", "PATCH", "r", "long-word-" + "abcdefghijklmnopqrstuvwxyz", "~", "%s", "\\n", "50%", "=?UTF-8?q?x?="}

func genTitle(r *Rng) string {
	n := 1 + r.N(6)
	if r.P(15) {
		n = 10 + r.N(25)
	}
	var ws []string
	if r.P(25) {
		ws = append(ws, r.Pick("[x] y", "Re: z", "[PATCH] inner", "[foo][bar] z", "re:re: x", ": x", "[unclosed", "RE:x", "r", "re", "rE: [a]", "[a]b", "[PATCH", "[]", "[] e", "\xc3\xa9[x]", "[\xc3\xa9] z", "[RFC PATCH 1/2] z", "Release", "[PATCH v2][RFC] q", "---", "commit x", "Author: x"))
	}
	for i := 0; i < n; i++ {
		ws = append(ws, titleWords[r.N(len(titleWords))])
	}
	return strings.Join(ws, " ")
}

func genBody(r *Rng, mail bool) string {
	if r.P(20) {
		return ""
	}
	var b strings.Builder
	for i := 1 + r.N(8); i > 0; i-- {
		switch k := r.N(14); {
		case k < 5:
			fmt.Fprintf(&b, "%s\n", genTitle(r))
		case k < 8:
			b.WriteString(r.Pick("\n", "\n", "\n\n", "  \n", "\n\n\n"))
		case k < 10:
			b.WriteString(r.Pick("  * item", "    code", " x", "\ttab", "- a", "        deep", "  --- no", "   [1] ref") + "\n")
		case k < 11:
			b.WriteString(r.Pick("---", "--- ", "----", "--", " ---", "-- ", "---x", "x---", "--- x") + "\n")
		case k < 12:
			b.WriteString(r.Pick("Signed-off-by: A <a@b>", "Author: x", "Date: nothing", "From: x", "Subject: y", "commit 123", "From 123 x", "AuthorDate: z", "Cc: a", "index 12..34", "Index: x", ">From a") + "\n")
		case k < 13 && !mail:
			b.WriteString(r.Pick("diff --git a/x b/x", "--- a/x\n+++ b/x\n@@ -1 +1 @@\n-a\n+b", "@@ -1 +1 @@") + "\n")
		case k < 13:
			b.WriteString("trailing space  \t\n")
		default:
			if r.P(10) {
				b.WriteString(strings.Repeat("long ", r.PickInt(1000, 13107, 14000, 30000)) + "\n")
			} else {
				b.WriteString("e\xc3\xa9\xe2\x98\x83 \xff\n")
			}
		}
	}
	return b.String()
}

func genCommit(r *Rng, mail bool) *commitSpec {
	c := &commitSpec{Author: genIdent(r, true), Committer: genIdent(r, false), ADate: genStamp(r), CDate: genStamp(r)}
	n := 40
	if r.P(10) {
		n = 64
	}
	c.SHA = fmt.Sprintf("%x", r.Bytes(n/2))
	c.Title = []string{genTitle(r)}
	for r.P(15) {
		c.Title = append(c.Title, genTitle(r))
	}
	c.Body = genBody(r, mail)
	return c
}

// normText removes what the format of headers does not preserve: trailing
// space in lines, and repeated, leading and trailing empty lines.
func normText(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimRightFunc(l, unicode.IsSpace)
		if l == "" && (len(out) == 0 || out[len(out)-1] == "") {
			continue
		}
		out = append(out, l)
	}
	for len(out) > 0 && out[len(out)-1] == "" {
		out = out[:len(out)-1]
	}
	return strings.Join(out, "\n")
}

func (c *commitSpec) titleLine() string {
	var ls []string
	for _, l := range c.Title {
		ls = append(ls, strings.TrimSpace(l))
	}
	return strings.Join(ls, " ")
}

// pretty prints the commit as git log does, without a diff.
func (c *commitSpec) pretty(r *Rng, format, date string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "commit %s%s\n", c.SHA, r.Pick("", "", " (HEAD -> main)", " (tag: v1.0, origin/main)", " (from 0123456)", " 0123456789012345678901234567890123456789", " (HEAD)"))
	if r.P(10) {
		b.WriteString("Merge: 1234567 89abcde\n")
	}
	if r.P(5) {
		b.WriteString("Reflog: HEAD@{0} (A U Thor <author@example.com>)\nReflog message: commit: x\n")
	}
	a, k := c.Author.Name+" <"+c.Author.Email+">", c.Committer.Name+" <"+c.Committer.Email+">"
	switch format {
	case "short":
		fmt.Fprintf(&b, "Author: %s\n", a)
	case "medium":
		fmt.Fprintf(&b, "Author: %s\nDate:   %s\n", a, c.ADate.format(date))
	case "full":
		fmt.Fprintf(&b, "Author: %s\nCommit: %s\n", a, k)
	case "fuller":
		fmt.Fprintf(&b, "Author:     %s\nAuthorDate: %s\nCommit:     %s\nCommitDate: %s\n", a, c.ADate.format(date), k, c.CDate.format(date))
	}
	b.WriteString("\n")
	text := c.message()
	if format == "short" {
		text = strings.Join(c.Title, "\n")
	}
	indent := "    "
	if r.P(20) {
		indent = r.Pick("\t", "\t", "  ", "        ", " \t ", "\u3000", "")
	}
	fill := r.Pick("", indent)
	for _, l := range strings.Split(strings.TrimRight(text, "\n"), "\n") {
		if l == "" {
			b.WriteString(fill + "\n")
		} else {
			b.WriteString(indent + l + "\n")
		}
	}
	if r.P(50) {
		b.WriteString("\n")
	}
	return b.String()
}

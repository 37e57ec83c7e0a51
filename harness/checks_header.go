package main

import (
	"fmt"
	"strings"
	"time"
	"unicode"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C21", Quick: 120000, Thorough: 1000000,
		Rule:   "A case parses the header of one generated commit in one of git's log formats, rendered by the harness or, every hundredth case, by git itself for a history of several commits, and compares it with the commit. Distinct by header text.",
		Run:    runC21,
		Floors: map[string]int{"short": 100, "medium": 100, "full": 100, "fuller": 100, "git": 30, "body": 300, "no body": 50, "title on several lines": 50, "body with ---": 20, "paragraphs": 50, "indented body": 50, "non-ASCII name": 50, "long line": 2, "spaces in title": 20},
		Assumptions: []string{
			"Titles do not begin with white space; git removes it from messages by default.",
			"Repeated empty lines and trailing white space in messages are not compared; git removes them by default.",
		},
	})
	register(&Check{
		ID: "C22", Quick: 120000, Thorough: 1000000,
		Rule:   "A case parses the header of one generated commit as a mail, rendered by the harness or, every hundredth case, by git format-patch, log and show for a history of several commits, and compares it with the commit, under each subject clean mode; real mails are also compared with git mailinfo. Distinct by header text.",
		Run:    runC22,
		Floors: map[string]int{"mode all": 100, "mode patch only": 100, "mode whitespace": 100, "git": 20, "encoded title": 50, "encoded author": 50, "folded": 50, "appendix": 100, "no appendix": 50, "--- in body": 20, "mailinfo": 10, "prefix": 100, "quoted author": 20, "minimal": 20},
	})
	register(&Check{
		ID: "C23", Quick: 50000, Thorough: 5000000, Workers: 1,
		Rule:   "A case formats one instant in a zone in all of git's date formats, computed by independent calendar arithmetic and, every five hundredth case, by git for a history of many instants, and compares what parsing returns; or it damages a date and expects an error. The local zone changes with every case. Distinct by text.",
		Run:    runC23,
		Floors: map[string]int{"default": 80, "iso": 80, "iso-strict": 80, "rfc": 80, "short": 80, "raw": 80, "unix": 80, "default-local": 60, "rejected": 120, "git": 30, "negative offset": 200, "leap day": 5, "year end": 5},
	})
	register(&Check{
		ID: "C24", Quick: 600000, Thorough: 5000000,
		Rule:   "A case writes one name and address in one of the supported forms and compares what parsing returns with them, or compares an arbitrary string with a reference reader that follows git mailinfo; every two hundredth case compares with git mailinfo itself. Distinct by text.",
		Run:    runC24,
		Floors: map[string]int{"name <email>": 100, "quoted": 100, "comment": 50, "plain": 50, "missing": 20, "arbitrary": 120, "mailinfo": 3, "round trip": 200, "white space": 100, "no @": 50},
	})
}

// ---- C21

var logDates = []string{"default", "iso", "iso-strict", "rfc", "raw", "unix", "short"}

func checkDate(c *Ctx, what, style string, want stamp, got time.Time) {
	switch style {
	case "unix":
		if got.Unix() != want.Unix {
			c.Fail("%s: want the instant %d, got %d", what, want.Unix, got.Unix())
		}
	case "short":
		if s := got.Format("2006-01-02"); s != want.format("short") {
			c.Fail("%s: want the day %s, got %s", what, want.format("short"), s)
		}
	default:
		if d := sameStamp(want, got); d != "" {
			c.Fail("%s: %s", what, d)
		}
	}
}

func judgePretty(c *Ctx, text, format, date string, k *commitSpec, abbrev bool) {
	c.ResetInputs()
	c.Input("header", text)
	c.Nontrivial(fnv64(text), func() string { return text })
	c.Note(format)
	h, err := gitdiff.ParsePatchHeader(text)
	c.Eval()
	if err != nil {
		c.Fail("parsing failed: %v", err)
	}
	if h.SHA != k.SHA && !(abbrev && len(h.SHA) >= 4 && strings.HasPrefix(k.SHA, h.SHA)) {
		c.Fail("SHA: want %q, got %q", k.SHA, h.SHA)
	}
	ident := func(what string, want gitdiff.PatchIdentity, got *gitdiff.PatchIdentity) {
		if got == nil {
			c.Fail("%s is missing", what)
		}
		w, ok := refIdentity(want.Name + " <" + want.Email + ">")
		if !ok {
			panic("identity without content")
		}
		if *got != w {
			c.Fail("%s: want %q, got %q", what, w, *got)
		}
	}
	ident("author", k.Author, h.Author)
	if strings.IndexFunc(k.Author.Name, func(r rune) bool { return r > 0x7f }) >= 0 {
		c.Note("non-ASCII name")
	}
	if format == "full" || format == "fuller" {
		ident("committer", k.Committer, h.Committer)
	} else if h.Committer != nil {
		c.Fail("committer is %v, the format has none", h.Committer)
	}
	if format == "medium" || format == "fuller" {
		checkDate(c, "author date", date, k.ADate, h.AuthorDate)
	} else if !h.AuthorDate.IsZero() {
		c.Fail("author date is %v, the format has none", h.AuthorDate)
	}
	if format == "fuller" {
		checkDate(c, "committer date", date, k.CDate, h.CommitterDate)
	} else if !h.CommitterDate.IsZero() {
		c.Fail("committer date is %v, the format has none", h.CommitterDate)
	}
	if want := k.titleLine(); h.Title != want {
		c.Fail("title: %s", diffAt(want, h.Title))
	}
	want := normText(k.Body)
	if format == "short" {
		want = ""
	}
	if got := normText(h.Body); got != want {
		c.Fail("body: %s", diffAt(want, got))
	}
	if h.BodyAppendix != "" || h.SubjectPrefix != "" {
		c.Fail("appendix %q, subject prefix %q", h.BodyAppendix, h.SubjectPrefix)
	}
	judgeMessage(c, h)
	if want == "" {
		c.Note("no body")
	} else {
		c.Note("body")
		if strings.Contains("\n"+want+"\n", "\n---\n") {
			c.Note("body with ---")
		}
		if strings.Contains(want, "\n\n") {
			c.Note("paragraphs")
		}
		if strings.Contains("\n"+want, "\n ") {
			c.Note("indented body")
		}
	}
	if len(k.Title) > 1 {
		c.Note("title on several lines")
	}
	if len(text) > 64*1024 {
		c.Note("long line")
	}
}

func judgeMessage(c *Ctx, h *gitdiff.PatchHeader) {
	want := h.Title
	if h.Body != "" {
		want += "\n\n" + h.Body
	}
	if m := h.Message(); m != want {
		c.Fail("message: %s", diffAt(want, m))
	}
}

// importCommits makes a linear history of the commits in a repository and
// sets their ids.
func importCommits(g *gitRepo, cs []*commitSpec) {
	var b strings.Builder
	for i, k := range cs {
		fmt.Fprintf(&b, "commit refs/heads/main\nmark :%d\n", i+1)
		fmt.Fprintf(&b, "author %s <%s> %d %s\n", k.Author.Name, k.Author.Email, k.ADate.Unix, zoneStr(k.ADate.Off, ""))
		fmt.Fprintf(&b, "committer %s <%s> %d %s\n", k.Committer.Name, k.Committer.Email, k.CDate.Unix, zoneStr(k.CDate.Off, ""))
		b.WriteString(importData(k.message()))
		fmt.Fprintf(&b, "M 100644 inline f%d\n%s\n", i%3, importData(fmt.Sprintf("line %d\n", i)))
	}
	marks := g.fastImport(b.String())
	for i, k := range cs {
		k.SHA = marks[i+1]
	}
}

// spaceTitle sometimes puts more spaces between words of the title.
func spaceTitle(c *Ctx, k *commitSpec) {
	if !c.R.P(8) {
		return
	}
	i := c.R.N(len(k.Title))
	if t := strings.TrimSpace(k.Title[i]); strings.Contains(t, " ") {
		k.Title[i] = strings.ReplaceAll(t, " ", c.R.Pick("  ", "   ", "     "))
		c.Note("spaces in title")
	}
}

func runC21(c *Ctx) {
	r := c.R
	if c.Idx%100 != 0 {
		k := genCommit(r, false)
		spaceTitle(c, k)
		if c.Idx%20000 == 7 {
			k.Body += hugeLine(r)
			c.Note("huge line")
		}
		format := r.Pick("short", "medium", "full", "fuller")
		date := logDates[r.N(len(logDates))]
		text := k.pretty(r, format, date)
		if r.P(20) {
			text = r.Pick("\n", "\n\n", " \n") + text
		}
		judgePretty(c, text, format, date, k, false)
		return
	}
	format := ""
	if r.P(10) {
		format = "sha256"
	}
	g := newGitRepo(format)
	defer g.remove()
	var cs []*commitSpec
	for i := 0; i < 8; i++ {
		cs = append(cs, genCommit(r, false))
		spaceTitle(c, cs[i])
	}
	importCommits(g, cs)
	if r.P(50) {
		g.run("", "tag", "v1", cs[len(cs)-1].SHA)
		g.run("", "tag", "v0", cs[2].SHA)
	}
	for _, k := range cs {
		format := r.Pick("short", "medium", "full", "fuller")
		date := logDates[r.N(len(logDates))]
		args := []string{"show"}
		if r.P(50) {
			args = []string{"log", "-1", "-p"}
		}
		args = append(args, "--no-color", "--no-expand-tabs", "--pretty="+format, "--date="+date, "--decorate="+r.Pick("no", "short", "full"))
		if r.P(20) {
			args = append(args, "--parents")
		}
		abbrev := r.P(20)
		if abbrev {
			args = append(args, "--abbrev-commit")
		}
		if r.P(20) {
			args = append(args, "--stat", "-p")
		}
		stat := args[len(args)-1] == "-p"
		args = append(args, k.SHA)
		out := g.run("", args...)
		c.ResetInputs()
		c.Input("git output", out)
		files, pre, err := parse(out)
		c.Eval()
		if err != nil {
			c.Fail("parsing git output failed: %v", err)
		}
		if len(files) != 1 {
			c.Fail("%d files", len(files))
		}
		if stat {
			// the statistics are part of the preamble, after the message
			i := strings.LastIndex(pre, "\n---\n")
			if i < 0 {
				c.Fail("no statistics in the preamble %q", clip(pre, 500))
			}
			pre = pre[:i+1]
		}
		c.Note("git")
		judgePretty(c, pre, format, date, k, abbrev)
	}
}

// ---- C22

// refClean splits a subject as the clean mode says. Only the first limit bytes
// are considered for the prefix.
func refClean(s string, mode gitdiff.SubjectCleanMode, limit int) (prefix, title string) {
	if mode == gitdiff.SubjectCleanWhitespace {
		return "", strings.TrimSpace(s)
	}
	i := 0
	for i < limit {
		rest := s[i:]
		if c := rest[0]; c == ' ' || c == '\t' || c == ':' {
			i++
			continue
		}
		if len(rest) >= 3 && strings.EqualFold(rest[:3], "re:") {
			i += 3
			continue
		}
		if rest[0] == '[' {
			if j := strings.IndexByte(rest, ']'); j > 0 && (mode == gitdiff.SubjectCleanAll || strings.Contains(rest[:j+1], "PATCH")) {
				i += j + 1
				continue
			}
		}
		break
	}
	return strings.TrimLeft(s[:i], " \t"), strings.TrimRightFunc(s[i:], unicode.IsSpace)
}

// qEncode encodes text as git does: one or more encoded words of at most 76
// characters, split between characters.
func qEncode(s, first string) string {
	var b strings.Builder
	b.WriteString("=?UTF-8?q?")
	n := len(first) + 10
	for _, ch := range s {
		cs := string(ch)
		enc := ""
		for i := 0; i < len(cs); i++ {
			c := cs[i]
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("[]/.:;,!#$%&'*+-~^`{|}()<>@\\", c) >= 0 && c != '"' {
				enc += string(c)
			} else {
				enc += fmt.Sprintf("=%02X", c)
			}
		}
		if n+len(enc)+2 > 76 {
			b.WriteString("?=\n =?UTF-8?q?")
			n = 11
		}
		b.WriteString(enc)
		n += len(enc)
	}
	b.WriteString("?=")
	return b.String()
}

func nonASCII(s string) bool {
	return strings.IndexFunc(s, func(r rune) bool { return r > 0x7f }) >= 0
}

func needsEncoding(s string) bool { return nonASCII(s) || strings.Contains(s, "=?") }

// fold breaks a header at some of its spaces.
func fold(r *Rng, s string) string {
	var b strings.Builder
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' && n > 60 && i+1 < len(s) && s[i+1] != ' ' {
			b.WriteString("\n ")
			n = 0
			continue
		}
		b.WriteByte(s[i])
		n++
	}
	return b.String()
}

func mailFrom(r *Rng, id gitdiff.PatchIdentity) string {
	name := id.Name
	switch {
	case needsEncoding(name):
		name = qEncode(name, "From: ")
	case strings.ContainsAny(name, "()<>[]:;@\\,.\""):
		name = strings.ReplaceAll(strings.ReplaceAll(name, "\\", "\\\\"), "\"", "\\\"")
		name = "\"" + name + "\""
	}
	return name + " <" + id.Email + ">"
}

// mailIdentity is what must be read from the From header of a commit.
func mailIdentity(id gitdiff.PatchIdentity) gitdiff.PatchIdentity {
	id.Name = squeeze(id.Name)
	return id
}

var cleanModes = []struct {
	mode gitdiff.SubjectCleanMode
	name string
}{
	{gitdiff.SubjectCleanAll, "mode all"},
	{gitdiff.SubjectCleanPatchOnly, "mode patch only"},
	{gitdiff.SubjectCleanWhitespace, "mode whitespace"},
}

type mailExpect struct {
	k        *commitSpec
	subject  string // decoded, unfolded
	limit    int    // start of encoded text in subject
	sha      string
	loose    bool // compare the subject up to white space
	appendix string
	hasBody  bool
	body     string
}

func judgeMail(c *Ctx, text string, e mailExpect) {
	r := c.R
	c.ResetInputs()
	c.Input("header", text)
	c.Nontrivial(fnv64(text), func() string { return text })
	for _, m := range cleanModes {
		opts := []gitdiff.PatchHeaderOption{gitdiff.WithSubjectCleanMode(m.mode)}
		if m.mode == gitdiff.SubjectCleanAll && r.P(50) {
			opts = nil
		}
		h, err := gitdiff.ParsePatchHeader(text, opts...)
		c.Eval()
		if err != nil {
			c.Fail("%s: parsing failed: %v", m.name, err)
		}
		c.Note(m.name)
		if h.SHA != e.sha {
			c.Fail("SHA: want %q, got %q", e.sha, h.SHA)
		}
		if h.Author == nil {
			c.Fail("author is missing")
		}
		if w := mailIdentity(e.k.Author); *h.Author != w {
			c.Fail("author: want %q, got %q", w, *h.Author)
		}
		if d := sameStamp(e.k.ADate, h.AuthorDate); d != "" {
			c.Fail("author date: %s", d)
		}
		if h.Committer != nil || !h.CommitterDate.IsZero() {
			c.Fail("committer %v, %v", h.Committer, h.CommitterDate)
		}
		prefix, title := refClean(e.subject, m.mode, e.limit)
		if e.loose {
			if squeeze(title) != squeeze(h.Title) || squeeze(prefix) != squeeze(h.SubjectPrefix) {
				c.Fail("%s: want prefix %q and title %q, got %q and %q", m.name, prefix, title, h.SubjectPrefix, h.Title)
			}
		} else {
			if title != h.Title || prefix != h.SubjectPrefix {
				c.Fail("%s: want prefix %q and title %q, got %q and %q", m.name, prefix, title, h.SubjectPrefix, h.Title)
			}
		}
		if prefix != "" {
			c.Note("prefix")
		}
		if got := normText(h.Body); got != e.body {
			c.Fail("body: %s", diffAt(e.body, got))
		}
		if got := normText(h.BodyAppendix); got != e.appendix {
			c.Fail("appendix: %s", diffAt(e.appendix, got))
		}
		judgeMessage(c, h)
	}
	if e.appendix != "" {
		c.Note("appendix")
	} else {
		c.Note("no appendix")
	}
	if nonASCII(e.k.Author.Name) {
		c.Note("encoded author")
	}
	if strings.Contains(text, "\nFrom: \"") {
		c.Note("quoted author")
	}
	if e.limit < len(e.subject) {
		c.Note("encoded title")
	}
	if i := strings.Index(text, "\nSubject: "); i >= 0 && strings.Contains(text[i:], "\n ") {
		c.Note("folded")
	}
}

// cutAppendix splits text at the first line of three hyphens.
func cutAppendix(s string) (before, after string) {
	pos := 0
	for _, l := range strings.SplitAfter(s, "\n") {
		if strings.TrimRightFunc(l, unicode.IsSpace) == "---" {
			return s[:pos], s[pos+len(l):]
		}
		pos += len(l)
	}
	return s, ""
}

// hugeLine is longer than any buffer.
func hugeLine(r *Rng) string {
	return strings.Repeat("huge ", r.PickInt(250000, 900000, 3500000)) + "\nend\n"
}

func genMailCommit(r *Rng) *commitSpec {
	k := genCommit(r, true)
	for strings.HasPrefix(k.Author.Name, "(") || strings.Contains(k.Author.Name, "@") {
		k.Author = genIdent(r, true)
	}
	return k
}

func runC22(c *Ctx) {
	r := c.R
	if c.Idx%100 == 0 {
		runRealMail(c)
		return
	}
	k := genMailCommit(r)
	if c.Idx%20000 == 7 {
		k.Body += hugeLine(r)
		c.Note("huge line")
	}
	prefix := r.Pick("[PATCH] ", "[PATCH] ", "[PATCH 3/17] ", "", "[RFC PATCH v2 1/2] ", "Re: [PATCH] ", "[foo] [PATCH] ", "[PATCH][DRAFT] ", "re: Re:  ", "[x] ", "RE: RE: ", ":: ", "[] ", "Re:[PATCH v3] : ", "Re:\t[PATCH] ", "[PATCH]\t", "\t[PATCH]\t:\t", "[ATCH] ", "[PATC] ", "[patch] ", "Ra: ", "ae: ", "Re; ", "R: ", "re :[x]", "]PATCH ", "[PATCHES] [x]", "Re:re:RE:rE:", "(PATCH) ")
	title := k.titleLine()
	e := mailExpect{k: k, sha: k.SHA, subject: strings.TrimSpace(prefix + title)}
	enc := title
	e.limit = len(e.subject)
	if needsEncoding(title) && r.P(85) || r.P(5) {
		enc = qEncode(title, "Subject: "+prefix)
		e.limit = len(e.subject) - len(strings.TrimSpace(title))
		if strings.Contains(strings.TrimSpace(enc), "\n") {
			c.Note("folded")
		}
	} else if strings.Contains(title, "=?UTF-8?q?") {
		// would be decoded; git always encodes such titles
		title = strings.ReplaceAll(title, "=?", "=!")
		k.Title = []string{title}
		e.subject = strings.TrimSpace(prefix + title)
		e.limit = len(e.subject)
		enc = title
	}
	if strings.TrimSpace(e.subject) == "" {
		return
	}
	subject := prefix + enc
	if !strings.Contains(enc, "\n") && r.P(50) {
		subject = fold(r, subject)
	}
	var b strings.Builder
	minimal := r.P(10)
	if minimal {
		e.sha = ""
		c.Note("minimal")
	} else {
		fmt.Fprintf(&b, "From %s Mon Sep 17 00:00:00 2001\n", k.SHA)
	}
	headers := []string{"From: " + mailFrom(r, k.Author), "Date: " + k.ADate.format("rfc"), "Subject: " + subject}
	extra := []string{"Message-Id: <x@y>", "MIME-Version: 1.0", "Content-Type: text/plain; charset=UTF-8", "Content-Transfer-Encoding: 8bit", "Cc: a@b,\n    c@d", "To: list@example.com", "X-Long: " + strings.Repeat("x", 300), "In-Reply-To: <a@b>"}
	for r.P(30) {
		headers = append(headers, extra[r.N(len(extra))])
	}
	if !minimal && r.P(20) {
		r.Shuffle(len(headers), func(i, j int) { headers[i], headers[j] = headers[j], headers[i] })
	}
	b.WriteString(strings.Join(headers, "\n") + "\n\n")
	text := k.Body
	before, after := cutAppendix(text)
	if after != "" || before != text {
		c.Note("--- in body")
	}
	b.WriteString(text)
	if r.P(70) {
		tail := r.Pick("---\n", "--- \n", "---\r\n") + r.Pick(" x | 2 +-\n 1 file changed, 1 insertion(+), 1 deletion(-)\n\n", "\n", "notes\n\n more\n---\nx\n x | 1 +\n")
		b.WriteString(tail)
		if before == text {
			_, after = cutAppendix(tail)
		} else {
			after += tail
		}
	}
	e.body, e.appendix = normText(before), normText(after)
	out := b.String()
	if r.P(10) {
		out = "\n" + out
	}
	judgeMail(c, out, e)
}

func runRealMail(c *Ctx) {
	r := c.R
	g := newGitRepo("")
	defer g.remove()
	var cs []*commitSpec
	for i := 0; i < 6; i++ {
		k := genMailCommit(r)
		for strings.Contains(k.Body, "\xff") || k.Author.Email == "" {
			k = genMailCommit(r)
		}
		cs = append(cs, k)
	}
	importCommits(g, cs)
	for i, k := range cs {
		var args []string
		prefix := "[PATCH] "
		encode := true
		encOpt := func() {
			if r.P(20) {
				encode = false
				args = append(args, "--no-encode-email-headers")
			}
		}
		switch r.N(5) {
		case 0:
			args = []string{"show", "--no-color", "--pretty=email"}
			encOpt()
			args = append(args, k.SHA)
		case 1:
			args = []string{"log", "-1", "-p", "--no-color", "--pretty=email"}
			encOpt()
			if r.P(30) {
				args = append(args, "--stat")
			}
			args = append(args, k.SHA)
		default:
			args = []string{"format-patch", "--stdout", "--no-color", "--root"}
			encOpt()
			switch r.N(9) {
			case 0:
				args, prefix = append(args, "-v2"), "[PATCH v2] "
			case 1:
				args, prefix = append(args, "-n"), "[PATCH 1/1] "
			case 2:
				args, prefix = append(args, "--subject-prefix=RFC PATCH"), "[RFC PATCH] "
			case 3:
				args, prefix = append(args, "--subject-prefix="), ""
			case 4:
				if len(k.Title) == 1 { // otherwise the subject has line breaks
					args, prefix = append(args, "-k"), ""
				}
			case 5:
				args = append(args, "--no-stat", "--no-signature")
			case 6:
				args = append(args, "--thread", "--to=a@b", "--cc=c@d,J\xc3\xb6rg <e@f>")
			case 7:
				args, prefix = append(args, "-n", "--start-number=99"), "[PATCH 99/99] "
			}
			args = append(args, "-1", k.SHA)
		}
		out := g.run("", args...)
		c.ResetInputs()
		c.Input("git "+strings.Join(args, " "), out)
		files, pre, err := parse(out)
		c.Eval()
		if err != nil {
			c.Fail("parsing git output failed: %v", err)
		}
		if len(files) != 1 {
			c.Fail("%d files", len(files))
		}
		c.Note("git")
		title := strings.Join(k.Title, " ")
		e := mailExpect{k: k, sha: k.SHA, loose: true, subject: squeeze(prefix + title)}
		e.limit = len(e.subject)
		if encode && needsEncoding(title) {
			e.limit -= len(squeeze(title))
		}
		if !encode && (strings.Contains(title, "=?") || strings.Contains(k.Author.Name, "=?")) {
			c.Note("excluded: unencoded text looks encoded")
			continue
		}
		if !encode && nonASCII(k.Author.Name) && strings.ContainsAny(k.Author.Name, "()\\\"") {
			// git does not quote these
		}
		_, rest, ok := strings.Cut(pre, "\n\n")
		if !ok {
			rest = ""
		}
		body, _ := cutAppendix(k.Body)
		_, after := cutAppendix(rest)
		e.body, e.appendix = normText(body), normText(after)
		judgeMail(c, pre, e)

		if i < 3 && e.limit == len(e.subject) {
			judgeMailinfo(c, g, out, pre, k)
		}
	}
}

// judgeMailinfo compares a header with what git mailinfo reads from a mail.
func judgeMailinfo(c *Ctx, g *gitRepo, mail, pre string, k *commitSpec) {
	_, sub, ok := strings.Cut(pre, "\nSubject: ")
	if !ok {
		return
	}
	if line := strings.ToLower(strings.TrimSpace(firstLine(sub))); strings.HasSuffix(line, "re:") {
		return // mailinfo keeps the last marker of an otherwise empty subject
	}
	// the body may have headers of its own, which mailinfo uses
	if i := strings.Index(sub, "\n\n"); i >= 0 {
		for _, l := range strings.Split(sub[i:], "\n") {
			for _, p := range []string{"From", "Subject", "Date", "diff ", "Index", "--- ", ">From", "[PATCH]"} {
				if strings.HasPrefix(strings.TrimSpace(l), p) {
					return
				}
			}
		}
	}
	out, _, code := g.try(mail, nil, "mailinfo", g.dir+"/msg", g.dir+"/patch")
	if code != 0 {
		c.Note("mailinfo refused")
		return
	}
	fields := map[string]string{}
	for _, l := range strings.Split(out, "\n") {
		if n, v, ok := strings.Cut(l, ": "); ok {
			fields[n] = v
		}
	}
	h, err := gitdiff.ParsePatchHeader(pre)
	c.Eval()
	if err != nil {
		c.Fail("parsing failed: %v", err)
	}
	if s := squeeze(h.Title); s != squeeze(fields["Subject"]) {
		c.Fail("title: git mailinfo has %q, got %q", fields["Subject"], s)
	}
	name := fields["Author"]
	if strings.ContainsAny(k.Author.Name, "\"\\()") && nonASCII(k.Author.Name) || len(k.Author.Name) < 3 || len(k.Author.Name) > 60 {
		name = h.Author.Name // mailinfo changes these names
	}
	if strings.Contains(k.Author.Email, "@") && (h.Author.Email != fields["Email"] || h.Author.Name != name) {
		c.Fail("author: git mailinfo has %q and %q, got %q", fields["Author"], fields["Email"], *h.Author)
	}
	c.Note("mailinfo")
}

// ---- C23

var zoneList = []string{"UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati", "Pacific/Apia", "Australia/Lord_Howe", "Africa/Casablanca", "America/Los_Angeles", "Asia/Tokyo", "Pacific/Chatham", "America/Sao_Paulo", "Europe/Dublin", "Antarctica/Troll"}

var zones = map[string]*time.Location{} // used by one case at a time

func loadZone(r *Rng) (string, *time.Location) {
	name := zoneList[r.N(len(zoneList))]
	if loc := zones[name]; loc != nil {
		return name, loc
	}
	loc, err := time.LoadLocation(name)
	if err != nil {
		return "UTC", time.UTC
	}
	zones[name] = loc
	return name, loc
}

// localStamp returns the stamp of an instant in a zone; ok is false if the
// offset is not a whole number of minutes.
func localStamp(unix int64, loc *time.Location) (stamp, bool) {
	_, off := time.Unix(unix, 0).In(loc).Zone()
	return stamp{Unix: unix, Off: off / 60}, off%60 == 0
}

func judgeStamp(c *Ctx, text, style string, s stamp, loc *time.Location) {
	c.ResetInputs()
	c.Input("date", text)
	c.Input("local zone", loc.String())
	c.Nontrivial(fnv64(text, loc.String()), func() string { return style + ": " + text })
	got, err := gitdiff.ParsePatchDate(text)
	c.Eval()
	c.Note(strings.TrimSuffix(style, "-z"))
	if err != nil {
		c.Fail("%s: parsing %q failed: %v", style, text, err)
	}
	switch style {
	case "unix":
		if got.Unix() != s.Unix || got.Nanosecond() != 0 {
			c.Fail("%s: %q parses to the instant %d", style, text, got.Unix())
		}
	case "short":
		// the day in the local zone; midnight may not exist there, or, where
		// the date line moved, the whole day
		if !dayExists(text, loc) {
			c.Note("excluded: no such day in the local zone")
			return
		}
		if d := got.In(loc).Format("2006-01-02"); d != text && got.In(loc).Add(2*time.Hour).Format("2006-01-02") != text {
			c.Fail("%s: %q parses to %v", style, text, got)
		}
		if h := got.In(loc).Hour(); h != 0 && h != 1 && h != 23 {
			c.Fail("%s: %q parses to %v", style, text, got)
		}
	case "default-local":
		_, off := got.In(loc).Zone()
		if w := (stamp{Unix: got.Unix(), Off: off / 60}).format("default-local"); w != text {
			c.Fail("%s: %q parses to %v, which is %q in the local zone", style, text, got, w)
		}
		if d := got.Unix() - s.Unix; d < -3600*2 || d > 3600*2 {
			c.Fail("%s: %q parses to the instant %d, want %d", style, text, got.Unix(), s.Unix)
		}
	default:
		if d := sameStamp(s, got); d != "" {
			c.Fail("%s: parsing %q: %s", style, text, d)
		}
	}
}

func dayExists(day string, loc *time.Location) bool {
	t, err := time.Parse("2006-01-02", day)
	if err != nil {
		panic(err)
	}
	for h := -14; h <= 38; h++ {
		if t.Add(time.Duration(h)*time.Hour).In(loc).Format("2006-01-02") == day {
			return true
		}
	}
	return false
}

func runC23(c *Ctx) {
	r := c.R
	zone, loc := loadZone(r)
	old := time.Local
	time.Local = loc // this check runs one case at a time
	defer func() { time.Local = old }()

	if c.Idx%500 == 0 {
		g := newGitRepo("")
		defer g.remove()
		g.tz = zone
		var cs []*commitSpec
		for i := 0; i < 20; i++ {
			k := genCommit(r, false)
			k.Title, k.Body = []string{fmt.Sprint(i)}, ""
			if k.ADate.Unix > 4e9 {
				k.ADate.Unix %= 4e9 // zone rules of the far future differ between libraries
			}
			cs = append(cs, k)
		}
		importCommits(g, cs)
		for _, style := range []string{"default", "iso", "iso-strict", "rfc", "short", "raw", "unix", "default-local", "iso-local", "iso-strict-local", "rfc-local", "short-local", "raw-local", "unix-local"} {
			out := g.run("", "log", "--reverse", "--topo-order", "--date="+style, "--pretty=%ad", "main")
			lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
			if len(lines) != len(cs) {
				panic("git log output")
			}
			for i, l := range lines {
				s := cs[i].ADate
				base := style
				if strings.HasSuffix(style, "-local") {
					ls, whole := localStamp(s.Unix, loc)
					if !whole || ls.Unix+int64(ls.Off)*60 < 86400 {
						continue
					}
					s = ls
					if style != "default-local" {
						base = strings.TrimSuffix(style, "-local")
					}
				}
				c.Note("git")
				judgeStamp(c, l, base, s, loc)
			}
		}
		return
	}

	s := genStamp(r)
	style := r.Pick("default", "iso", "iso-strict", "rfc", "short", "raw", "unix", "default-local")
	if r.P(25) {
		badDate(c, s, style)
		return
	}
	if style == "default-local" {
		s.Unix %= 4e9
		ls, whole := localStamp(s.Unix, loc)
		if !whole || ls.Unix+int64(ls.Off)*60 < 0 {
			return
		}
		s = ls
	}
	if style == "iso-strict" && s.Off == 0 && r.P(50) {
		style = "iso-strict-z"
	}
	if s.Minus = s.Off == 0 && r.P(20); s.Minus {
		c.Note("minus zero")
	}
	text := s.format(style)
	if s.Off < 0 {
		c.Note("negative offset")
	}
	if iso := s.format("iso"); strings.Contains(iso, "-02-29 ") {
		c.Note("leap day")
	} else if strings.Contains(iso, "-12-31 ") || strings.Contains(iso, "-01-01 ") {
		c.Note("year end")
	}
	judgeStamp(c, text, style, s, loc)
}

// badDate damages a date so that no format matches.
func badDate(c *Ctx, s stamp, style string) {
	r := c.R
	text := s.format(style)
	switch r.N(6) {
	case 0:
		text += r.Pick("x", " x", " UTC", "+", " (CET)", " +0000 +0000", " PM", ".", " -", "\x00", "Z ", " ago")
	case 1:
		text = r.Pick("x", "@", "#", "on ", "Date: ", "a ", "~", "\x00") + text
	case 2: // out of range
		y, m, d := civil(floorDiv(s.Unix, 86400))
		_ = d
		bad := []string{
			fmt.Sprintf("%04d-13-01", y), fmt.Sprintf("%04d-00-01", y), fmt.Sprintf("%04d-%02d-32", y, m), fmt.Sprintf("%04d-%02d-00", y, m), "2001-02-29", "2100-02-29", "2023-04-31", "23-04-01", "12023-04-01",
			fmt.Sprintf("%04d-%02d-01 24:00:00 +0000", y, m), fmt.Sprintf("%04d-%02d-01 10:60:00 +0000", y, m), fmt.Sprintf("%04d-%02d-01 10:00:61 +0000", y, m), fmt.Sprintf("%04d-%02d-01T25:00:00+00:00", y, m),
			fmt.Sprintf("Thu Apr 31 10:00:00 %d +0000", y), fmt.Sprintf("Thu Foo 1 10:00:00 %d +0000", y), fmt.Sprintf("Xyz Apr 1 10:00:00 %d +0000", y), "Thu, 30 Feb 2020 10:00:00 +0000", "Thu, 1 Xxx 2020 10:00:00 +0000",
			fmt.Sprintf("%d 0000", s.Unix), fmt.Sprintf("%d +000", s.Unix), fmt.Sprintf("%d +00000", s.Unix), fmt.Sprintf("%d +0060x", s.Unix), fmt.Sprintf("%d +00:00", s.Unix), fmt.Sprintf("%d UTC", s.Unix), fmt.Sprintf("%d ", s.Unix), fmt.Sprintf("%dx +0000", s.Unix),
			"9223372036854775808", "99999999999999999999 +0000", "0x10", "1e9", "1.5", "1_000", " 1", "1 2", "--1",
		}
		text = bad[r.N(len(bad))]
	case 3:
		text = r.Pick("now", "yesterday", "2 days ago", "3 weeks ago", "noon", "today", "never", "2020", "2020-04", "04/09/2020", "4/9/2020 01:07:06 PDT", "2020.04.09", "20200409", "20200409T010203Z", "10:00:00", "Thu", "Thu Apr 9", "Apr 9 2020", "9 Apr 2020", "Thursday, 9 April 2020 01:07:06 +0000", "2020-W15", "2020-100", "Thu Apr  9 01:07:06 PDT 2020", "2020-04-09 01:07", "2020-04-09T01:07:06", "2020-04-09 01:07:06", "Thu, 9 Apr 2020 01:07:06 GMT", "Thu, 9 Apr 20 01:07:06 +0000", "Thu Apr 9 2020 01:07:06 +0000", "\n", "\t", "-", "+", ":", "Z")
		if text == "20200409" { // a unix time
			text = "2020040a"
		}
		if text == "2020" {
			text = "2020y"
		}
	case 4: // a letter inside
		i := 1 + r.N(len(text)-1)
		if style == "unix" || style == "raw" || style == "short" || style == "iso" {
			text = text[:i] + r.Pick("x", "_", "\xc2\xa0", "o") + text[i:]
		} else {
			text = text[:i] + r.Pick("_", "\x01", "\xc2\xa0", "%") + text[i:]
		}
	case 5: // part missing
		fields := strings.Fields(text)
		if len(fields) < 3 || style == "default" && false {
			return
		}
		i := r.N(len(fields))
		if style == "default" && i == len(fields)-1 || style == "iso" && i > 0 && len(fields) == 3 && false {
			return // the local format
		}
		fields = append(fields[:i:i], fields[i+1:]...)
		text = strings.Join(fields, " ")
	}
	c.ResetInputs()
	c.Input("date", text)
	c.Nontrivial(fnv64(text), func() string { return "rejected: " + text })
	got, err := gitdiff.ParsePatchDate(text)
	c.Eval()
	if err == nil {
		c.Fail("%q is not a date but parses to %v", text, got)
	}
	if !got.IsZero() {
		c.Fail("%q is rejected with the time %v", text, got)
	}
	c.Note("rejected")
	if t, err := gitdiff.ParsePatchDate(""); err != nil || !t.IsZero() {
		c.Fail("an empty date parses to %v, %v", t, err)
	}
}

// ---- C24

func genSpace(r *Rng) string {
	return r.Pick(" ", " ", "  ", "\t", "\n", "\r\n ", " \t ")
}

// spread replaces single spaces by other white space.
func spread(r *Rng, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			b.WriteString(genSpace(r))
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func plainName(r *Rng) string {
	for {
		s := namePool[r.N(len(namePool))]
		if r.P(40) {
			var ws []string
			for i := 0; i < 1+r.N(4); i++ {
				ws = append(ws, r.Pick("Ann", "B.", "C-D", "\xc3\xa9", "x'y", "[z]", "#1", "\xff", "a,b", "=", "\x01", "\xe3\x80\x80", "\xc2\xa0", "\x0b", "!", "&", "e;f", ":"))
			}
			s = strings.Join(ws, " ")
		}
		if strings.Trim(s, " ") == s && strings.TrimSpace(s) == s {
			return s
		}
	}
}

func runC24(c *Ctx) {
	r := c.R
	if c.Idx%200 == 0 {
		runMailinfoIdentity(c)
		return
	}
	email := emailPool[r.N(len(emailPool))]
	if r.P(30) {
		email = r.Pick("x", "a.b", "c+d", "e_f", "1", "\xc3\xa9", "a,b", ",", ";", "a:b", "a/b=c", "'q'", "[x]", "=?x?=") + "@" + r.Pick("y", "example.com", "z.z.z", "[127.0.0.1]", "x@y", "", "a,b", "y;", "y,", "x:1", "y.", "y-", "]")
	}
	if r.P(10) {
		email = r.Pick("root", "nobody", "x.y", "", "a b", "-")
	}
	at := strings.Contains(email, "@")
	name := plainName(r)
	want := gitdiff.PatchIdentity{Name: squeeze(name), Email: email}
	var text string
	form := r.N(12)
	ordinary := false
	switch form {
	case 0, 1, 2:
		text = name + " <" + email + ">"
		c.Note("name <email>")
		ordinary = true
	case 3, 4: // a quoted name, with quoted pairs
		name = name + r.Pick("", " \"Nick\" X", " (c) X", "\\ X", ", Jr.", " <x", " >x", " a@b X", "\"")
		q := strings.ReplaceAll(strings.ReplaceAll(name, "\\", "\\\\"), "\"", "\\\"")
		if strings.Contains(name, "@") {
			c.Note("excluded: @ in name")
			return
		}
		text = "\"" + q + "\" <" + email + ">"
		want.Name = squeeze(name)
		if strings.ContainsAny(name, "<>") {
			want.Name = email
			if !at {
				c.Note("excluded: brackets in name")
				return
			}
		}
		c.Note("quoted")
	case 5: // email (name)
		if !at || strings.ContainsAny(name, "\\\"") {
			return
		}
		text = email + " (" + name + ")"
		c.Note("comment")
	case 6: // name <email> (comment)
		if !at {
			return
		}
		text = name + " <" + email + "> (a comment)"
		want.Name = squeeze(name + " (a comment)")
		c.Note("comment")
	case 7:
		if !at {
			return
		}
		text = r.Pick(email, "<"+email+">", "\"\" <"+email+">", "( ) <"+email+">")
		want.Name = email
		c.Note("plain")
	case 8:
		text = r.Pick("", " ", "\n", "<>", " < > ", "\"\" <>", "<  >", "\"\"", "\t<\t>\n", "\" \" <>", "() <>", "< >")
		c.Input("identity", text)
		id, err := gitdiff.ParsePatchIdentity(text)
		c.Eval()
		if err == nil {
			c.Fail("%q has no name and no address but parses to %q", text, id)
		}
		if id != (gitdiff.PatchIdentity{}) {
			c.Fail("%q is rejected with the identity %q", text, id)
		}
		c.Note("missing")
		return
	case 9:
		// name and address written by String
		text = want.String()
		c.Note("name <email>")
		ordinary = true
	default:
		var b strings.Builder
		for i := 1 + r.N(10); i > 0; i-- {
			b.WriteString(r.Pick("a", "B", " ", "  ", "\t", "\n", "<", ">", "@", "@x", "a@b", "\"", "\\", "(", ")", "Name", ".", "\xc3\xa9", "<a@b>", "\"q\"", "(c)", "\\\"", "<>", "\r", "\xff", "x", ",", ";", ":", "[", "]", "'", "=", ",@", "@,", "\x00"))
		}
		text = b.String()
		ref, ok := refIdentity(text)
		c.Input("identity", text)
		c.Nontrivial(fnv64(text), func() string { return text })
		id, err := gitdiff.ParsePatchIdentity(text)
		c.Eval()
		c.Note("arbitrary")
		if ok != (err == nil) {
			c.Fail("%q: the reference reads %q (valid: %v), got %q, %v", text, ref, ok, id, err)
		}
		if ok && id != ref {
			c.Fail("%q: the reference reads %q, got %q", text, ref, id)
		}
		return
	}
	if r.P(40) && !strings.ContainsAny(email, " ") {
		text = spread(r, text)
		if r.P(50) {
			text = genSpace(r) + text + genSpace(r)
		}
		c.Note("white space")
	}
	if !at {
		c.Note("no @")
	}
	if want.Name == "" && want.Email == "" {
		return
	}
	c.Input("identity", text)
	c.Nontrivial(fnv64(text), func() string { return text })
	id, err := gitdiff.ParsePatchIdentity(text)
	c.Eval()
	if err != nil {
		c.Fail("parsing %q failed: %v", text, err)
	}
	if id != want {
		c.Fail("%q: want %q, got %q", text, want, id)
	}
	if ref, ok := refIdentity(text); !ok || ref != id {
		panic(fmt.Sprintf("reference reads %q as %q", text, ref))
	}
	if ordinary {
		again, err := gitdiff.ParsePatchIdentity(id.String())
		c.Eval()
		if err != nil || again != id {
			c.Fail("%q formats to %q, which parses to %q, %v", id, id.String(), again, err)
		}
		c.Note("round trip")
	}
}

// runMailinfoIdentity compares identities with git mailinfo.
func runMailinfoIdentity(c *Ctx) {
	r := c.R
	g := newGitRepo("")
	defer g.remove()
	for i := 0; i < 4; i++ {
		var text string
		if r.P(50) {
			text = r.Pick(namePool...) + " <" + r.Pick("a@b", "author@example.com", "x.y@z", "1+b[bot]@c") + ">"
		} else {
			for j := 1 + r.N(8); j > 0; j-- {
				text += r.Pick("ab", "Bob", " ", "  ", "<", "\"", "\\", "(", ")", "Name", ".", "\xc3\xa9", "<a@b>", "\"q\"", "(c)", "\\\"", "xyz")
			}
			text = strings.TrimSpace(text) + r.Pick("", " ") + r.Pick("<a@b>", "a@b", "<a@b> (x)", "a@b (Foo Bar)", "<a@b> II", "<a@b")
		}
		if strings.Contains(text, "=?") || strings.HasPrefix(text, ">") || !balanced(text) {
			continue // git reads uninitialized memory if quoting is not balanced
		}
		mail := "From 0123456789012345678901234567890123456789 Mon Sep 17 00:00:00 2001\nFrom: " + text + "\nDate: Thu, 7 Apr 2005 22:14:13 -0700\nSubject: x\n\nbody\n---\n"
		out, _, code := g.try(mail, nil, "mailinfo", g.dir+"/msg", g.dir+"/patch")
		if code != 0 {
			continue
		}
		name, email := "", ""
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "Author: ") {
				name = l[8:]
			}
			if strings.HasPrefix(l, "Email: ") {
				email = l[7:]
			}
		}
		c.Input("identity", text)
		id, err := gitdiff.ParsePatchIdentity(text)
		c.Eval()
		if err != nil {
			c.Fail("parsing %q failed: %v", text, err)
		}
		if id.Email != email {
			c.Fail("%q: git mailinfo has the address %q, got %q", text, email, id.Email)
		}
		// space alone is no name
		if name = strings.TrimSpace(name); name == "" {
			name = email
		}
		// mailinfo replaces names that are very short or long
		if len(id.Name) >= 3 && len(id.Name) <= 60 && id.Name != name {
			c.Fail("%q: git mailinfo has the name %q, got %q", text, name, id.Name)
		}
		c.Note("mailinfo")
	}
}

func balanced(s string) bool {
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\', '"':
			return strings.Count(s, "\"")%2 == 0 && !strings.Contains(s, "\\") && !strings.ContainsAny(s, "()")
		case '(':
			depth++
		case ')':
			depth--
			if depth < 0 {
				return false
			}
		}
	}
	return depth == 0
}

package main

import (
	"strings"
	"time"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C32", Quick: 400000, Thorough: 4000000,
		Rule: "A case makes a log or mail header of fields in any order, with valid or invalid identities and dates, among lines that are no fields, and compares what parsing returns with the parts. Distinct by header text.",
		Run:  runC32,
		Floors: map[string]int{
			"log": 200, "mail": 150, "refused: identity": 20, "refused: date": 20, "refused: first line": 20, "empty": 5,
			"accepted": 200, "line that is no field": 100, "look-alike": 50, "no fields": 10, "CRLF": 30, "without id": 20, "field in the message": 30,
		},
		Assumptions: []string{"Whether an identity or a date is valid, and what it means, is what ParsePatchIdentity and ParsePatchDate say about it alone; C23 and C24 judge these."},
	})
}

// valueText returns the value of a field; most are valid.
func identValue(r *Rng) string {
	switch r.N(12) {
	case 0:
		return r.Pick("<>", "A U Thor", "x", "A <", "A >", "()", "<", "nobody <>", "\"A\" (b)", "A U Thor < >", "a@", "@", "\"\"")
	case 1:
		return oneLine(genIdentText(r))
	}
	id := genIdent(r, false)
	return id.Name + " <" + id.Email + ">"
}

func dateValue(r *Rng) string {
	switch r.N(12) {
	case 0:
		return r.Pick("yesterday", "x", "Thu Apr 31 22:12:13 2009 +0000", "2009-13-01 00:00:00 +0000", "Thu Apr 9", "12h", "2009", "2009/04/09", "9 Apr 2009", "0x10", "2 days ago", "Thu, 9 Apr", "1257894000 +25", "1257894000+0100", "-", "+0000", "20090409")
	case 1:
		return oneLine(genDateText(r))
	}
	return genStamp(r).format(r.Pick("default", "default-local", "iso", "iso-strict", "iso-strict-z", "rfc", "short", "raw", "unix"))
}

// oneLine makes a value that a field can have.
func oneLine(s string) string {
	s = strings.Map(func(c rune) rune {
		if c < 0x20 || c > 0x7e {
			return -1
		}
		return c
	}, s)
	return strings.TrimSpace(strings.ReplaceAll(s, "=?", "="))
}

// lines before the message of a log entry that are no fields
var notFields = []string{
	"Merge: 1234567 89abcde", "Reflog: HEAD@{0} (A U Thor <author@example.com>)", "Reflog message: commit: x",
	"gpg: Signature made Thu 09 Apr 2009 10:12:13 PM UTC", "gpg:                using RSA key 0123456789ABCDEF",
	"Notes:", "x", ":", "Signed", "Change-Id: I0123", "Link", "commit 0123456", "Subject: x",
}

// lookAlike makes a line that contains a field but is none.
func lookAlike(r *Rng) string {
	name := r.Pick("Author", "Commit", "Date", "AuthorDate", "CommitDate")
	v := "bad"
	if r.P(20) {
		v = r.Pick(identValue(r), dateValue(r))
	}
	switch r.N(8) {
	case 0:
		return r.Pick(" ", "\t", "    ") + name + ": " + v
	case 1:
		return r.Pick("Co-", "Not", "X-", "X", "-", "Re", ".", "gpg: ", "gpg: Good signature from \"", "Merge: ", ":") + name + ": " + v
	case 2:
		return strings.ToLower(name) + ": " + v
	case 3:
		return strings.ToUpper(name) + ": " + v
	case 4:
		return name + r.Pick(" ", "\t", "-", ".", "s", "ted", "ter", "-Date", "=") + ": " + v
	case 5:
		return name + r.Pick(";", "", " ", "=", "\t") + " " + strings.ReplaceAll(v, ":", "")
	case 6:
		return r.Pick("CommitterDate", "Committer", "AuthoredDate", "DateAuthor", "Autho", "ommit", "ate") + ": " + v
	default:
		return "Merge: 1 2 " + name + ": " + v
	}
}

func runC32(c *Ctx) {
	r := c.R
	want := &gitdiff.PatchHeader{}
	refused := ""
	eol := "\n"
	if r.P(15) {
		eol = "\r\n"
		c.Note("CRLF")
	}
	sha := hexText(r, 40)
	if r.P(20) {
		sha = hexText(r, r.Range(4, 64))
	}
	var b strings.Builder
	line := func(s string) { b.WriteString(s + eol) }
	fields := 0
	ident := func(v string) *gitdiff.PatchIdentity {
		fields++
		u, err := gitdiff.ParsePatchIdentity(v)
		if err != nil {
			refused = "identity"
		}
		return &u
	}
	date := func(v string) time.Time {
		fields++
		t, err := gitdiff.ParsePatchDate(v)
		if err != nil {
			refused = "date"
		}
		return t
	}
	title := r.Pick("", "fix it", "x", "add a thing: now", "Author", "Date: bad")
	body := r.Pick("", "one", "one\ntwo", "one\n\ntwo", "Author: bad", "Date: bad\nCommitDate: bad", "commit 1234567\nAuthor: bad\nDate:   bad", "From: bad\nSubject: bad", "CommitDate: bad\n\nAuthorDate: bad")
	if title == "" {
		body = ""
	}
	want.Title, want.Body = title, body
	kind := ""
	switch k := r.N(100); {
	case k < 1:
		text := r.Pick("", " ", "\n", "\n\n \t\n", "\r\n", "\t")
		h, err := gitdiff.ParsePatchHeader(text)
		c.Eval()
		c.Note("empty")
		if err != nil || h == nil || headerDiff(h, &gitdiff.PatchHeader{}) != "" {
			c.Fail("white space %q gives %+v, %v", text, h, err)
		}
		return
	case k < 8: // text that is no header
		first := r.Pick("commit", "Commit 0123456", "committed", "commit\t0123", "X commit 0123456", "from a@b", "Fromage", "From", "> From x", "Subject: x", "Author: a <a@b>", "Date: 1", "From\tx", "FROM: a@b", "A From: a@b", "x From 0123456 Mon", "-- ", "diff", "Index: x", "hello", "\x00", "\xff\xfe", "tree 0123456", "# HG changeset patch", "X-From: a@b", "Return-Path: <a@b>", "---")
		line(first)
		if strings.Contains(first, ":") || r.P(50) {
			line("Author: a <a@b>")
			line("Subject: x")
			line("")
			line("    x")
		}
		refused = "first line"
		kind = "log"
	case k < 58: // log
		kind = "log"
		want.SHA = sha
		line("commit " + sha + r.Pick("", "", "", " (HEAD -> main)", " (from 0123456)", " 0123456"))
		pad := func(s string) string { return s + r.Pick(" ", " ", "   ", "    ", "", "\t") }
		var fs []func()
		if r.P(80) {
			v := identValue(r)
			fs = append(fs, func() { line(pad("Author:") + v); want.Author = ident(v) })
		}
		if r.P(40) {
			v := identValue(r)
			fs = append(fs, func() { line(pad("Commit:") + v); want.Committer = ident(v) })
		}
		if r.P(60) {
			v := dateValue(r)
			name := r.Pick("Date:", "AuthorDate:")
			fs = append(fs, func() { line(pad(name) + v); want.AuthorDate = date(v) })
		}
		if r.P(40) {
			v := dateValue(r)
			fs = append(fs, func() { line(pad("CommitDate:") + v); want.CommitterDate = date(v) })
		}
		for r.P(30) {
			s := r.Pick(notFields...)
			if r.P(40) {
				s = lookAlike(r)
				c.Note("look-alike")
			}
			c.Note("line that is no field")
			fs = append(fs, func() { line(s) })
		}
		if r.P(50) {
			r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		}
		for _, f := range fs {
			f()
		}
		if title != "" {
			line(r.Pick("", "", "", " ", "    ", "\t"))
			indent := "    "
			line(indent + title)
			if body != "" {
				line("")
				for _, l := range strings.Split(body, "\n") {
					if l != "" {
						l = indent + l
					}
					line(l)
				}
			}
		}
	default: // mail
		kind = "mail"
		first := r.P(75)
		if first {
			want.SHA = sha
			line("From " + sha + " Mon Sep 17 00:00:00 2001")
		} else {
			c.Note("without id")
		}
		pad := func(s string) string {
			return s + r.Pick(" ", " ", " ", "", "  ", "\t", eol+" ", " "+eol+"\t")
		}
		var fs []func()
		if r.P(85) || !first {
			v := ""
			for v == "" {
				v = identValue(r)
			}
			fs = append(fs, func() { line(pad("From:") + v); want.Author = ident(v) })
		}
		if r.P(60) {
			v := ""
			for v == "" {
				v = dateValue(r)
			}
			fs = append(fs, func() { line(pad(r.Pick("Date:", "date:", "DATE:")) + v); want.AuthorDate = date(v) })
		}
		if title != "" {
			fs = append(fs, func() { line(pad("Subject:") + title) })
		}
		for r.P(30) {
			s := r.Pick("To: x", "Message-Id: <x@y>", "X-Date: bad", "X-From: bad", "Sender: bad", "Resent-Date: bad", "Delivery-Date: bad", "Author: bad", "AuthorDate: bad", "CommitDate: bad", "Commit: bad", "Received: from x by y; bad", "Cc: Date: bad", "X: From: bad", "Mime-Version: 1.0", "Content-Type: text/plain; charset=UTF-8")
			if strings.Contains(s, "bad") {
				c.Note("look-alike")
			}
			c.Note("line that is no field")
			fs = append(fs, func() { line(s) })
		}
		if first && r.P(50) {
			r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		}
		for _, f := range fs {
			f()
		}
		if len(fs) == 0 {
			line("To: x")
		}
		if body != "" {
			line("")
			for _, l := range strings.Split(body, "\n") {
				line(l)
			}
		}
	}
	text := b.String()
	if r.P(20) {
		text = r.Pick("\n", " \n", "\n\n", "\r\n") + text
	}
	if r.P(30) {
		text = strings.TrimRight(text, "\r\n")
	}
	if r.P(20) {
		text += r.Pick("\n", "\n\n", " \n")
	}
	c.Input("header", text)
	c.Nontrivial(fnv64(text), func() string { return text })
	c.Note(kind)
	if strings.Contains(body+title, "bad") {
		c.Note("field in the message")
	}
	if fields == 0 {
		c.Note("no fields")
	}
	mode := cleanModes[r.N(len(cleanModes))]
	h, err := gitdiff.ParsePatchHeader(text, gitdiff.WithSubjectCleanMode(mode.mode))
	c.Eval()
	if refused != "" {
		c.Note("refused: " + refused)
		if err == nil {
			c.Fail("invalid %s, but parsing succeeded: %+v", refused, h)
		}
		return
	}
	c.Note("accepted")
	if err != nil {
		c.Fail("parsing failed: %v", err)
	}
	if d := headerDiff(want, h); d != "" {
		c.Fail("%s", d)
	}
	judgeMessage(c, h)
}

// headerDiff describes the first difference.
func headerDiff(want, got *gitdiff.PatchHeader) string {
	ident := func(what string, w, g *gitdiff.PatchIdentity) string {
		switch {
		case w == nil && g != nil:
			return what + " is " + g.String() + ", the header has none"
		case w != nil && g == nil:
			return what + " is missing"
		case w != nil && *w != *g:
			return what + ": " + diffAt(w.String(), g.String())
		}
		return ""
	}
	when := func(what string, w, g time.Time) string {
		_, a := w.Zone()
		_, b := g.Zone()
		if !w.Equal(g) || a != b {
			return what + ": want " + w.String() + ", got " + g.String()
		}
		return ""
	}
	for _, s := range []struct{ what, w, g string }{
		{"SHA", want.SHA, got.SHA}, {"title", want.Title, got.Title}, {"body", want.Body, got.Body},
		{"subject prefix", want.SubjectPrefix, got.SubjectPrefix}, {"appendix", want.BodyAppendix, got.BodyAppendix},
	} {
		if s.w != s.g {
			return s.what + ": " + diffAt(s.w, s.g)
		}
	}
	for _, d := range []string{
		ident("author", want.Author, got.Author), ident("committer", want.Committer, got.Committer),
		when("author date", want.AuthorDate, got.AuthorDate), when("committer date", want.CommitterDate, got.CommitterDate),
	} {
		if d != "" {
			return d
		}
	}
	return ""
}

func hexText(r *Rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "0123456789abcdef"[r.N(16)]
	}
	return string(b)
}

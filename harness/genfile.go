package main

import (
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

// FileSpec is the ground truth for one file of a patch.
type FileSpec struct {
	Kind             string // modify, create, delete, rename, copy
	Old, New         string
	OldMode, NewMode int // full modes; equal if unchanged
	Score            int // similarity or dissimilarity
	OldOID, NewOID   string
	A, B             []byte
	Script           Script
	Hunks            []Hunk
	Binary           string // "", "literal", "delta", "nodata"
	BinRaw, BinRev   []byte
	BinSize, RevSize int64
	RevMethod        string
	NoIndex          bool
	sha256           bool
}

// Style selects among the formats git can print.
type Style struct {
	QuotePath bool
	OldPrefix string
	NewPrefix string
	GnuEmpty  bool
	LongRange bool
	Marker    string // line after a line without newline
}

func genStyle(r *Rng) Style {
	st := Style{QuotePath: r.P(70), OldPrefix: "a/", NewPrefix: "b/"}
	if r.P(15) {
		p := [][2]string{{"i/", "w/"}, {"c/", "i/"}, {"old/", "new/"}, {"1/", "2/"}, {"o/", "w/"}, {"b/", "a/"}}[r.N(6)]
		st.OldPrefix, st.NewPrefix = p[0], p[1]
	}
	st.LongRange = r.P(10)
	st.GnuEmpty = r.P(10)
	st.Marker = noEOL
	if r.P(15) {
		st.Marker = r.Pick(markers...)
	}
	return st
}

func oid(data []byte) string {
	h := sha1.New()
	fmt.Fprintf(h, "blob %d\x00", len(data))
	h.Write(data)
	return hex.EncodeToString(h.Sum(nil))
}

func oid256(data []byte) string {
	h := sha256.New()
	fmt.Fprintf(h, "blob %d\x00", len(data))
	h.Write(data)
	return hex.EncodeToString(h.Sum(nil))
}

type specOpts struct {
	name      func(*Rng) string
	maxLines  int
	big       bool
	binary    bool
	fullOID   bool
	ctx       int // -1: random
	loose     bool
	atZero    bool
	noNoData  bool
	plainMode bool
	foreign   bool // submodules, SHA-256 ids
}

func genSpec(r *Rng, o specOpts) *FileSpec {
	f := &FileSpec{}
	switch k := r.N(100); {
	case k < 45:
		f.Kind = "modify"
	case k < 60:
		f.Kind = "create"
	case k < 75:
		f.Kind = "delete"
	case k < 88:
		f.Kind = "rename"
	default:
		f.Kind = "copy"
	}
	f.Old = o.name(r)
	f.New = f.Old
	if f.Kind == "rename" || f.Kind == "copy" {
		for f.New == f.Old {
			f.New = o.name(r)
		}
	}
	modes := []int{0o100644, 0o100755, 0o120000}
	if o.foreign && r.P(30) {
		modes = append(modes, 0o160000, 0o100664, 0o100600)
	}
	if o.plainMode {
		modes = modes[:2]
	}
	f.OldMode = modes[r.N(len(modes))]
	f.NewMode = f.OldMode
	changed := true
	if f.Kind != "create" && f.Kind != "delete" {
		if r.P(25) {
			f.NewMode = modes[r.N(len(modes))]
		}
		if f.Kind != "modify" || f.NewMode != f.OldMode {
			changed = r.P(65)
		}
	}

	binary := o.binary && r.P(30)
	switch {
	case !changed:
		s := genScript(r, r.N(5), false)
		f.A = []byte(s.Old())
		f.B = f.A
	case binary:
		f.genBinary(r, o)
	default:
		n := r.N(o.maxLines + 1)
		if r.P(15) {
			n = r.N(3)
		}
		s := genScript(r, n, o.big)
		if r.P(80) {
			s = s.gitOrder()
		}
		if f.Kind == "create" || f.Kind == "delete" {
			k := byte('+')
			if f.Kind == "delete" {
				k = '-'
			}
			if r.P(15) {
				s = nil // empty file
			}
			t := make(Script, 0, len(s))
			for i, op := range s {
				if i < len(s)-1 && !strings.HasSuffix(op.T, "\n") {
					op.T += "\n"
				}
				t = append(t, Op{k, op.T})
			}
			s = t
		}
		f.Script = s
		f.A, f.B = []byte(s.Old()), []byte(s.New())
		if string(f.A) == string(f.B) && f.Kind == "modify" && f.OldMode == f.NewMode {
			// edits cancelled out
			s = append(Script{{'+', "cancelled\n"}}, s...)
			f.Script = s
			f.A, f.B = []byte(s.Old()), []byte(s.New())
		}
		ctx := o.ctx
		if ctx < 0 {
			ctx = r.PickInt(3, 3, 3, 0, 1, 2, 5, 10, 1000)
		}
		if len(s) > 0 {
			f.Hunks = s.hunks(r, ctx, o.loose && r.P(30), o.atZero)
		}
	}
	if f.Kind == "rename" || f.Kind == "copy" {
		f.Score = 100
		if string(f.A) != string(f.B) {
			f.Score = r.PickInt(0, 1, 50, 57, 99, 1+r.N(99))
		}
	} else if f.Kind == "modify" && changed && r.P(5) {
		f.Score = 1 + r.N(100) // dissimilarity
	}
	f.sha256 = o.foreign && r.P(10)
	f.setOIDs(r, o.fullOID || f.Binary == "literal" || f.Binary == "delta")
	return f
}

func (f *FileSpec) setOIDs(r *Rng, full bool) {
	n := 40
	if !full {
		n = r.PickInt(7, 7, 8, 10, 40)
	}
	if f.sha256 && n == 40 {
		n = 64
	}
	id := oid
	if f.sha256 {
		id = oid256
	}
	f.OldOID, f.NewOID = id(f.A)[:n], id(f.B)[:n]
	zero := strings.Repeat("0", n)
	if f.Kind == "create" {
		f.OldOID = zero
	}
	if f.Kind == "delete" {
		f.NewOID = zero
	}
	f.NoIndex = string(f.A) == string(f.B) && f.Kind != "create" && f.Kind != "delete"
}

func (f *FileSpec) genBinary(r *Rng, o specOpts) {
	size := func() int { return r.Size(200, 0, 1, 3, 4, 5, 26, 27, 51, 52, 53, 104, 260, 1000, 4096) }
	if o.big && r.P(10) {
		size = func() int { return r.Size(70000, 65536, 32768, 1<<17) }
	}
	f.A = r.Bytes(size())
	if r.P(30) {
		f.A = []byte(strings.Repeat("\x00ab", size()))
	}
	if f.Kind == "create" {
		f.A = nil
	}
	var ops []deltaOp
	if r.P(60) && f.Kind == "modify" || f.Kind == "rename" || f.Kind == "copy" {
		ops = genDelta(r, int64(len(f.A)))
		f.B = runOps(f.A, ops)
	} else {
		f.B = r.Bytes(size())
	}
	if f.Kind == "delete" {
		f.B = nil
	}
	if string(f.A) == string(f.B) {
		switch f.Kind {
		case "create", "modify", "rename", "copy":
			f.B = append(append([]byte(nil), f.A...), 0, 1)
			ops = nil
		case "delete":
			f.A = []byte{0, 1, 2}
			ops = nil
		}
	}
	if !o.noNoData && r.P(12) {
		f.Binary = "nodata"
		return
	}
	if ops != nil && r.P(80) {
		d := encodeDelta(int64(len(f.A)), int64(len(f.B)), ops, r)
		f.Binary, f.BinSize, f.BinRaw = "delta", int64(len(d)), deflate(d, genLevel(r))
	} else {
		f.Binary, f.BinSize, f.BinRaw = "literal", int64(len(f.B)), deflate(f.B, genLevel(r))
	}
	if r.P(85) {
		f.RevMethod, f.RevSize, f.BinRev = "literal", int64(len(f.A)), deflate(f.A, genLevel(r))
		if r.P(30) {
			rops := []deltaOp{}
			for a := f.A; len(a) > 0; {
				n := len(a)
				if n > 127 {
					n = 127
				}
				rops = append(rops, deltaOp{data: a[:n]})
				a = a[n:]
			}
			d := encodeDelta(int64(len(f.B)), int64(len(f.A)), rops, r)
			f.RevMethod, f.RevSize, f.BinRev = "delta", int64(len(d)), deflate(d, genLevel(r))
		}
	}
}

// renderGit prints the file as git diff does.
func (f *FileSpec) renderGit(st Style) string {
	var b strings.Builder
	oq := gitQuote(st.OldPrefix, f.Old, st.QuotePath)
	nq := gitQuote(st.NewPrefix, f.New, st.QuotePath)
	fmt.Fprintf(&b, "diff --git %s %s\n", oq, nq)
	modeChange := f.OldMode != f.NewMode
	switch {
	case f.Kind == "create":
		fmt.Fprintf(&b, "new file mode %06o\n", f.NewMode)
	case f.Kind == "delete":
		fmt.Fprintf(&b, "deleted file mode %06o\n", f.OldMode)
	case modeChange:
		fmt.Fprintf(&b, "old mode %06o\nnew mode %06o\n", f.OldMode, f.NewMode)
	}
	switch f.Kind {
	case "rename", "copy":
		fmt.Fprintf(&b, "similarity index %d%%\n%s from %s\n%s to %s\n", f.Score,
			f.Kind, gitQuote("", f.Old, st.QuotePath), f.Kind, gitQuote("", f.New, st.QuotePath))
	default:
		if f.Score > 0 {
			fmt.Fprintf(&b, "dissimilarity index %d%%\n", f.Score)
		}
	}
	if !f.NoIndex {
		fmt.Fprintf(&b, "index %s..%s", f.OldOID, f.NewOID)
		if f.Kind != "create" && f.Kind != "delete" && !modeChange {
			fmt.Fprintf(&b, " %06o", f.OldMode)
		}
		b.WriteByte('\n')
	}
	left, right := oq, nq
	if f.Kind == "create" {
		left = "/dev/null"
	}
	if f.Kind == "delete" {
		right = "/dev/null"
	}
	switch f.Binary {
	case "nodata":
		fmt.Fprintf(&b, "Binary files %s and %s differ\n", left, right)
		return b.String()
	case "literal", "delta":
		b.WriteString("GIT binary patch\n")
		b.WriteString(renderBinary(f.Binary, f.BinSize, f.BinRaw, 52))
		if f.RevMethod != "" {
			b.WriteString(renderBinary(f.RevMethod, f.RevSize, f.BinRev, 52))
		}
		return b.String()
	}
	if len(f.Hunks) == 0 {
		return b.String()
	}
	tab := func(q string) string {
		if q[0] != '"' && strings.ContainsRune(q, ' ') {
			return "\t"
		}
		return ""
	}
	fmt.Fprintf(&b, "--- %s%s\n+++ %s%s\n", left, tab(left), right, tab(right))
	for _, h := range f.Hunks {
		renderHunk(&b, h, !st.LongRange, st.GnuEmpty, st.Marker)
	}
	return b.String()
}

// expected returns the file that parsing renderGit must produce.
func (f *FileSpec) expected() *gitdiff.File {
	e := &gitdiff.File{OldName: f.Old, NewName: f.New, Score: f.Score}
	if !f.NoIndex {
		e.OldOIDPrefix, e.NewOIDPrefix = f.OldOID, f.NewOID
	}
	switch f.Kind {
	case "create":
		e.IsNew, e.OldName, e.NewMode = true, "", os.FileMode(f.NewMode)
	case "delete":
		e.IsDelete, e.NewName, e.OldMode = true, "", os.FileMode(f.OldMode)
	default:
		if f.OldMode != f.NewMode {
			e.OldMode, e.NewMode = os.FileMode(f.OldMode), os.FileMode(f.NewMode)
		} else if !f.NoIndex {
			e.OldMode = os.FileMode(f.OldMode)
		}
		e.IsRename = f.Kind == "rename"
		e.IsCopy = f.Kind == "copy"
	}
	method := func(m string) gitdiff.BinaryPatchMethod {
		if m == "delta" {
			return gitdiff.BinaryPatchDelta
		}
		return gitdiff.BinaryPatchLiteral
	}
	switch f.Binary {
	case "nodata":
		e.IsBinary = true
	case "literal", "delta":
		e.IsBinary = true
		e.BinaryFragment = &gitdiff.BinaryFragment{Method: method(f.Binary), Size: f.BinSize, RawData: f.BinRaw}
		if f.RevMethod != "" {
			e.ReverseBinaryFragment = &gitdiff.BinaryFragment{Method: method(f.RevMethod), Size: f.RevSize, RawData: f.BinRev}
		}
	default:
		e.TextFragments = toFragments(f.Hunks)
	}
	return e
}

func (f *FileSpec) shape() string {
	s := f.Kind
	if f.OldMode != f.NewMode {
		s += "+mode"
	}
	if f.Binary != "" {
		s += "+" + f.Binary
	} else if len(f.Hunks) > 0 {
		s += "+text"
	}
	return s
}

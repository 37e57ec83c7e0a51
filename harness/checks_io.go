package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C14", Quick: 24000, Thorough: 600000,
		Rule:   "A case parses one input through readers that deliver it in different ways and compares all results with parsing it from a string; if the input is valid it also makes the read fail at every byte offset (a sample of them for long inputs). Distinct by input.",
		Run:    runC14,
		Floors: map[string]int{"delivery": 5000, "ReadString source": 1000, "fault reported": 10000, "transient fault": 3000, "fault with data": 3000, "fault before the end": 300, "long line": 30, "invalid input": 100},
	})
	register(&Check{
		ID: "C15", Quick: 24000, Thorough: 300000,
		Rule:   "A case applies one text or binary file and repeats that with a writer failing after every number of bytes (a sample for long results) and a source failing at every call or becoming shorter; each run is judged by its error, the bytes written and the writes after the failure. Distinct by patch, source and fault kind.",
		Run:    runC15,
		Floors: map[string]int{"write fault": 10000, "read fault": 3000, "read fault with data": 1000, "line read fault": 200, "text": 300, "literal": 50, "delta": 50, "unchanged": 50, "incremental": 100, "fault in close": 100, "multi fragment": 50, "cut source": 2000, "cut source: error": 500},
	})
}

func sameErr(a, b error) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("error: want %v, got %v", a, b)
	}
	if a != nil && a.Error() != b.Error() {
		return fmt.Sprintf("error: want %q, got %q", a, b)
	}
	return ""
}

func runC14(c *Ctx) {
	r := c.R
	var text string
	switch k := r.N(10); {
	case k < 6:
		text = genAnyPatch(r)
	case k < 7:
		text = genGarbage(r, false) + genAnyPatch(r) + genGarbage(r, true)
	default:
		text = genMutated(r)
	}
	if r.P(6) {
		// lines longer than the buffers of readers
		n := r.PickInt(4094, 4095, 4096, 4097, 8192, 65536, 70000)
		text += fmt.Sprintf("--- a/long\n+++ b/long\n@@ -1 +1,2 @@\n %s\n+%s\n", strings.Repeat("x", n), strings.Repeat("y", n-1))
		c.Note("long line")
	}
	if r.P(10) {
		text = strings.TrimSuffix(text, "\n")
	}
	c.Input("input", text)
	c.Nontrivial(fnv64(text), func() string { return text })
	want, pre, werr := gitdiff.Parse(strings.NewReader(text))
	if werr != nil {
		c.Note("invalid input")
	}
	compare := func(src io.Reader, what string) {
		files, p, err := gitdiff.Parse(src)
		c.Eval()
		c.Note("delivery")
		if d := filesDiff(want, files); d != "" {
			c.Fail("%s: %s", what, d)
		}
		if d := sameErr(werr, err); d != "" {
			c.Fail("%s: %s", what, d)
		}
		if p != pre {
			c.Fail("%s: preamble: %s", what, diffAt(pre, p))
		}
	}
	data := []byte(text)
	chunk := func(mode int) *chunkReader {
		cr := newChunkReader(data, r)
		cr.mode = mode
		cr.zero = r.P(40)
		cr.eager = r.P(50)
		return cr
	}
	for mode := 0; mode < 4; mode++ {
		cr := chunk(mode)
		compare(cr, fmt.Sprintf("reader with mode %d, empty reads %v, early end %v", mode, cr.zero, cr.eager))
	}
	compare(bytes.NewBuffer(append([]byte(nil), data...)), "bytes.Buffer")
	compare(bufio.NewReaderSize(chunk(r.N(4)), 16+r.N(100)), "bufio.Reader")
	compare(io.MultiReader(bytes.NewReader(data[:len(data)/2]), strings.NewReader(text[len(data)/2:])), "io.MultiReader")
	ss := &stringSrc{chunkReader: *newChunkReader(data, r)}
	compare(ss, "reader with ReadString")
	if ss.calls > 0 {
		c.Note("ReadString source")
	}

	if werr != nil {
		// whatever was complete before the error
		return
	}
	offs := []int{}
	if len(data) <= 250 {
		for i := 0; i <= len(data); i++ {
			offs = append(offs, i)
		}
	} else {
		offs = append(offs, 0, len(data), len(data)-1)
		for i := 0; i < 40; i++ {
			offs = append(offs, r.N(len(data)+1))
		}
		// at line ends
		for i := 0; i < 20; i++ {
			if j := bytes.IndexByte(data[r.N(len(data)):], '\n'); j >= 0 {
				k := r.N(len(data))
				if j := bytes.IndexByte(data[k:], '\n'); j >= 0 {
					offs = append(offs, k+j+1)
				}
			}
		}
	}
	for id, off := range offs {
		var inj error = &injectedErr{id}
		if r.P(10) {
			inj = []error{io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, &connErr{id}, &connErr{id}}[r.N(5)]
		}
		cr := chunk(r.PickInt(0, 0, 2, 3))
		cr.failAt, cr.err, cr.once, cr.withBuf = off, inj, r.P(50), r.P(50)
		cr.eager = false
		var src io.Reader = cr
		what := fmt.Sprintf("read failing at offset %d of %d (%v, transient %v, with data %v)", off, len(data), inj, cr.once, cr.withBuf)
		if r.P(25) {
			s := &stringSrc{chunkReader: *cr}
			cr = &s.chunkReader
			src = s
			what = "ReadString " + what
		}
		files, _, err := gitdiff.Parse(src)
		c.Eval()
		if cr.failed == 0 {
			c.Fail("%s: the input was not read to its end", what)
		}
		if err == nil {
			c.Fail("%s: parsing succeeded with %d of %d files", what, len(files), len(want))
		}
		if !errors.Is(err, inj) {
			c.Fail("%s: the error %q is another one", what, err)
		}
		if len(files) > len(want) {
			c.Fail("%s: %d files, the full input has %d", what, len(files), len(want))
		}
		if d := filesDiff(want[:len(files)], files); d != "" {
			c.Fail("%s: files before the failure: %s", what, d)
		}
		c.Note("fault reported")
		if cr.once {
			c.Note("transient fault")
		}
		if cr.withBuf {
			c.Note("fault with data")
		}
		if off == len(data) {
			c.Note("fault before the end")
		}
	}
}

func runC15(c *Ctx) {
	r := c.R
	var f *gitdiff.File
	var A, B []byte
	kind := ""
	switch k := r.N(10); {
	case k < 5:
		var s *FileSpec
		for s == nil || len(s.Hunks) == 0 || s.Kind == "create" && !r.P(20) || s.Kind == "delete" && !r.P(20) {
			s = genSpec(r, specOpts{name: genSafeName, maxLines: r.PickInt(5, 20, 60), ctx: r.PickInt(0, 1, 2, 3)})
		}
		f, A, B, kind = s.expected(), s.A, s.B, "text"
		if len(s.Hunks) > 1 {
			c.Note("multi fragment")
		}
	case k < 9:
		var s *FileSpec
		for s == nil || s.Binary == "" || s.Binary == "nodata" {
			s = genSpec(r, specOpts{name: genSafeName, maxLines: 2, ctx: 3, binary: true, noNoData: true})
		}
		f, A, B, kind = s.expected(), s.A, s.B, s.Binary
	default:
		A = r.Bytes(r.Size(100, 0, 1, 32*1024, 64*1024))
		B = A
		f = &gitdiff.File{OldName: "x", NewName: "y", IsRename: true}
		kind = "unchanged"
	}
	c.Note(kind)
	c.Input("file", fmt.Sprintf("%+v", *f))
	c.Input("source", string(A))
	c.Input("result", string(B))
	c.Nontrivial(fnv64(string(A), string(B), kind), func() string { return fmt.Sprintf("%s %q", kind, A) })

	incremental := f.TextFragments != nil && r.P(40) || f.BinaryFragment != nil && r.P(40) || kind == "unchanged" && r.P(40)
	api := "Apply"
	if incremental {
		api = "applier"
		c.Note("incremental")
	}
	inClose := false
	run := func(d io.Writer, s io.ReaderAt) error {
		inClose = false
		if !incremental {
			return gitdiff.Apply(d, s, f)
		}
		if f.BinaryFragment != nil || kind == "unchanged" && len(A)%2 == 0 {
			a := gitdiff.NewBinaryApplier(d, s)
			if f.BinaryFragment != nil {
				if err := a.ApplyFragment(f.BinaryFragment); err != nil {
					return err
				}
			}
			inClose = true
			return a.Close()
		}
		a := gitdiff.NewTextApplier(d, s)
		for _, t := range f.TextFragments {
			if err := a.ApplyFragment(t); err != nil {
				return err
			}
		}
		inClose = true
		return a.Close()
	}
	max := outputMax(len(A) + len(B))
	style := r.N(3)
	newLines := func() *lineSrc {
		l := newLineSrc(A)
		l.eager = style == 1
		return l
	}
	plain := func() *srcAt {
		s := newSrc(A)
		s.eager, s.scratch = style == 1, style == 2
		return s
	}

	// without faults
	s0 := plain()
	d := newDst(max)
	err := run(d, s0)
	c.Eval()
	if err != nil || !bytes.Equal(d.got, B) {
		c.Fail("%s without faults: %v: %s", api, err, diffAt(string(B), string(d.got)))
	}
	l0 := newLines()
	d = newDst(max)
	err = run(d, l0)
	c.Eval()
	if err != nil || !bytes.Equal(d.got, B) {
		c.Fail("%s with line source, without faults: %v: %s", api, err, diffAt(string(B), string(d.got)))
	}

	errOf := func(id int) error {
		if r.P(10) {
			return []error{io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, io.ErrNoProgress, &connErr{id}, &connErr{id}}[r.N(6)]
		}
		return &injectedErr{id}
	}
	check := func(what string, inj error, err error, got []byte, exact int) {
		c.Eval()
		if err == nil {
			c.Fail("%s: no error after %d of %d bytes", what, len(got), len(B))
		}
		if !errors.Is(err, inj) {
			c.Fail("%s: the error %q does not wrap %q", what, err, inj)
		}
		var ae *gitdiff.ApplyError
		if !incremental && !errors.As(err, &ae) {
			c.Fail("%s: the error is a %T", what, err)
		}
		if incremental && !inClose && !errors.As(err, &ae) {
			c.Fail("%s: the error of ApplyFragment is a %T", what, err)
		}
		if !bytes.HasPrefix(B, got) {
			c.Fail("%s: not a prefix of the result: %s", what, diffAt(string(B), string(got)))
		}
		if exact >= 0 && len(got) != exact {
			c.Fail("%s: %d bytes written", what, len(got))
		}
		if inClose {
			c.Note("fault in close")
		}
	}

	// failing writes
	budgets := []int{}
	if len(B) <= 200 {
		for k := 0; k < len(B); k++ {
			budgets = append(budgets, k)
		}
	} else {
		budgets = append(budgets, 0, 1, len(B)-1, len(B)-2)
		for i := 0; i < 40; i++ {
			budgets = append(budgets, r.N(len(B)))
		}
		for _, k := range []int{1024, 32 * 1024, 64 * 1024} {
			for _, k := range []int{k - 1, k, k + 1} {
				if k < len(B) {
					budgets = append(budgets, k)
				}
			}
		}
	}
	for id, k := range budgets {
		d := newDst(max)
		d.budget, d.err, d.full = k, errOf(id), r.P(25)
		var src io.ReaderAt = plain()
		if r.P(20) {
			src = newLines()
		}
		err := run(d, src)
		what := fmt.Sprintf("%s with writes failing after %d of %d bytes", api, k, len(B))
		exact := k
		if d.full {
			exact = -1
		}
		check(what, d.err, err, d.got, exact)
		if d.after > 0 {
			c.Fail("%s: %d more writes after the failure", what, d.after)
		}
		c.Note("write fault")
	}

	// failing reads
	calls := []int{}
	for j := 0; j < s0.calls; j++ {
		if s0.calls <= 60 || j < 10 || j > s0.calls-10 || r.N(s0.calls) < 40 {
			calls = append(calls, j)
		}
	}
	for _, j := range calls {
		for k := 0; k < 2; k++ {
			s := plain()
			s.failAt, s.err, s.partial = j, errOf(j), k == 1
			d := newDst(max)
			err := run(d, s)
			what := fmt.Sprintf("%s with read %d of %d failing (with data: %v)", api, j+1, s0.calls, s.partial)
			if !s.failed {
				c.Fail("%s: only %d reads", what, s.calls)
			}
			check(what, s.err, err, d.got, -1)
			c.Note("read fault")
			if s.partial {
				c.Note("read fault with data")
			}
		}
	}
	for j := 0; j < l0.lineCalls; j++ {
		if l0.lineCalls > 60 && j > 10 && !r.P(20) {
			continue
		}
		s := newLines()
		s.lineFail, s.err, s.partial = j, errOf(j), r.P(50)
		d := newDst(max)
		err := run(d, s)
		check(fmt.Sprintf("%s with line read %d of %d failing", api, j+1, l0.lineCalls), s.err, err, d.got, -1)
		c.Note("line read fault")
	}

	// sources that become shorter, like files being truncated. Lines that are
	// inserted without any context go after whatever line is left.
	bare := false
	for _, t := range f.TextFragments {
		bare = bare || len(t.Lines) > 0 && t.Lines[0].Op == gitdiff.OpAdd
	}
	if len(A) == 0 || bare {
		return
	}
	for k := 0; k < 12; k++ {
		s := plain()
		s.cutAt, s.cutTo = r.N(s0.calls), r.N(len(A))
		if nl := bytes.IndexByte(A[s.cutTo:], '\n'); nl >= 0 && s.cutTo+nl+1 < len(A) && r.P(40) {
			s.cutTo += nl + 1
		}
		cutTo := s.cutTo
		d := newDst(max)
		err := run(d, s)
		c.Eval()
		what := fmt.Sprintf("%s with a source of %d bytes cut to %d bytes before read %d of %d (error %v)", api, len(A), cutTo, s.cutAt+1, s0.calls, err)
		if !bytes.HasPrefix(B, d.got) {
			c.Fail("%s: not a prefix of the result: %s", what, diffAt(string(B), string(d.got)))
		}
		var ae *gitdiff.ApplyError
		if err != nil && !incremental && !errors.As(err, &ae) {
			c.Fail("%s: the error is a %T", what, err)
		}
		c.Note("cut source")
		if err != nil {
			c.Note("cut source: error")
		} else if len(d.got) < len(B) {
			c.Note("cut source: short result")
		} else {
			c.Note("cut source: not noticed")
		}
	}
}

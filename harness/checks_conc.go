package main

import (
	"bytes"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C18", Quick: 1500, Thorough: 60000, Race: true, Workers: 4,
		Rule: "A case parses a patch, records the results of all operations one at a time, and repeats them from several goroutines on the same files and sources, with yields injected at reads and writes, under the race detector; results, files and sources are compared before and after. Distinct by patch text.",
		Run:  runC18,
		Cold: coldC18, ColdRuns: 24,
		Floors: map[string]int{
			"operation": 30000, "overlapping operations on one file": 3000, "interleaved completion orders": 500, "Apply": 3000, "Parse": 2000, "String": 2000, "Validate": 1000, "Data": 500, "header": 200, "date": 200, "identity": 200, "failed Apply": 100, "unsorted fragments": 50, "shared line source": 100, "mutated copy": 300, "unused files": 400,
		},
		Assumptions: []string{"The race detector reports races of the schedules that ran; the workload repeats every pair of operations under many of them."},
	})
}

// yielding readers and writers give the scheduler reasons to switch.

type yieldSrc struct {
	data []byte
	n    atomic.Uint64
	salt uint64
}

func (y *yieldSrc) ReadAt(p []byte, off int64) (int, error) {
	if mix(y.n.Add(1)^y.salt)%4 == 0 {
		runtime.Gosched()
	}
	return bytes.NewReader(y.data).ReadAt(p, off)
}

// yieldLines hands out its own memory, which nobody may modify.
type yieldLines struct {
	yieldSrc
	lines [][]byte
}

func (y *yieldLines) ReadLinesAt(lines [][]byte, off int64) (n int, err error) {
	if mix(y.n.Add(1)^y.salt)%4 == 0 {
		runtime.Gosched()
	}
	for n < len(lines) && off+int64(n) < int64(len(y.lines)) {
		lines[n] = y.lines[off+int64(n)]
		n++
	}
	if n < len(lines) {
		return n, io.EOF
	}
	return n, nil
}

type yieldDst struct {
	buf  []byte
	salt uint64
	n    uint64
}

func (y *yieldDst) Write(p []byte) (int, error) {
	y.n++
	if mix(y.n^y.salt)%8 == 0 {
		runtime.Gosched()
	}
	y.buf = append(y.buf, p...)
	if len(y.buf) > 1<<26 {
		panic(runaway{"output without end"})
	}
	return len(p), nil
}

type concOp struct {
	kind string
	file int // the file it uses, -1 for none
	run  func(salt uint64) string
}

func errStr(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

func digest(f *gitdiff.File) string {
	var b strings.Builder
	dump(&b, f)
	return b.String()
}

// dump writes all fields of a file.
func dump(b *strings.Builder, f *gitdiff.File) {
	fmt.Fprintf(b, "%q %q %v %v %v %v %o %o %q %q %d %v\n", f.OldName, f.NewName, f.IsNew, f.IsDelete, f.IsCopy, f.IsRename, uint32(f.OldMode), uint32(f.NewMode), f.OldOIDPrefix, f.NewOIDPrefix, f.Score, f.IsBinary)
	for _, t := range f.TextFragments {
		fmt.Fprintf(b, "%p %+v\n", t, *t)
	}
	for _, x := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
		if x != nil {
			fmt.Fprintf(b, "%p %v %d %x\n", x, x.Method, x.Size, x.RawData)
		}
	}
}

// contents is dump without addresses.
func contents(files []*gitdiff.File) string {
	var b strings.Builder
	for _, f := range files {
		fmt.Fprintf(&b, "%q %q %v %v %v %v %o %o %q %q %d %v\n", f.OldName, f.NewName, f.IsNew, f.IsDelete, f.IsCopy, f.IsRename, uint32(f.OldMode), uint32(f.NewMode), f.OldOIDPrefix, f.NewOIDPrefix, f.Score, f.IsBinary)
		for _, t := range f.TextFragments {
			fmt.Fprintf(&b, "%+v\n", *t)
		}
		for _, x := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
			if x != nil {
				fmt.Fprintf(&b, "%v %d %x\n", x.Method, x.Size, x.RawData)
			}
		}
	}
	return b.String()
}

func runC18(c *Ctx) {
	r := c.R
	// files with sources they apply to, and others
	var text strings.Builder
	var sources [][]byte
	st := genStyle(r)
	for i, n := 0, 1+r.N(3); i < n; i++ {
		o := defaultSpecOpts(r)
		o.binary = true
		f := genSpec(r, o)
		for try := r.PickInt(0, 20); try > 0 && len(f.Hunks) < 2; try-- {
			f = genSpec(r, o)
		}
		text.WriteString(f.renderGit(st))
		sources = append(sources, f.A)
	}
	patch := text.String()
	c.Input("patch", patch)
	c.Nontrivial(fnv64(patch), func() string { return patch })
	files := mustParse(c, patch, len(sources))
	// the results of single operations come from the same files or, so that the
	// concurrent operations are the first ones on their files, from others
	solo := files
	if r.P(60) {
		solo = mustParse(c, patch, len(sources))
		c.Note("unused files")
	}
	for i, f := range files {
		// a fragment list in another order than Apply uses
		if len(f.TextFragments) > 1 && r.P(50) {
			order := r.Perm(len(f.TextFragments))
			f.TextFragments = permuted(f.TextFragments, order)
			if solo[i] != f {
				solo[i].TextFragments = permuted(solo[i].TextFragments, order)
			}
			if !sortedByPosition(f.TextFragments) {
				c.Note("unsorted fragments")
			}
		}
		if len(f.TextFragments) > 0 && r.P(30) {
			// spare capacity must stay unused as well
			t := make([]*gitdiff.TextFragment, len(f.TextFragments), len(f.TextFragments)+3)
			copy(t, f.TextFragments)
			f.TextFragments = t
		}
		if r.P(10) && len(sources[i]) > 0 {
			sources[i] = sources[i][:len(sources[i])-1] // a conflict
		}
	}
	bad := genMutated(r)

	var srcs []io.ReaderAt
	var kept []string // copies of the sources
	var lineSrcs []*yieldLines
	for _, s := range sources {
		s = append([]byte(nil), s...)
		kept = append(kept, string(s))
		switch r.N(3) {
		case 0:
			srcs = append(srcs, bytes.NewReader(s))
		case 1:
			srcs = append(srcs, &yieldSrc{data: s, salt: r.U64()})
		case 2:
			y := &yieldLines{yieldSrc: yieldSrc{data: s, salt: r.U64()}}
			for i := 0; i < len(s); {
				j := len(s)
				if k := bytes.IndexByte(s[i:], '\n'); k >= 0 {
					j = i + k + 1
				}
				y.lines = append(y.lines, s[i:j:j])
				i = j
			}
			srcs = append(srcs, y)
			lineSrcs = append(lineSrcs, y)
			c.Note("shared line source")
		}
	}

	k := genMailCommit(r)
	header := k.pretty(r, r.Pick("medium", "fuller"), "default")
	if r.P(50) {
		header = fmt.Sprintf("From %s Mon Sep 17 00:00:00 2001\nFrom: %s\nDate: %s\nSubject: [PATCH] %s\n\n%s", k.SHA, mailFrom(r, k.Author), k.ADate.format("rfc"), qEncode(k.titleLine(), "Subject: [PATCH] "), k.Body)
	}
	date := genDateText(r)
	ident := genIdentText(r)
	picks := make([]int, len(files))
	for i, f := range files {
		if n := len(f.TextFragments); n > 0 {
			picks[i] = r.N(n)
		}
	}

	opsOn := func(files []*gitdiff.File) (ops []concOp) {
		add := func(kind string, file int, run func(uint64) string) {
			ops = append(ops, concOp{kind, file, run})
		}
		add("Parse", -1, func(uint64) string {
			fs, pre, err := parse(patch)
			return contents(fs) + pre + errStr(err)
		})
		add("Parse", -1, func(uint64) string {
			fs, pre, err := parse(bad)
			return contents(fs) + pre + errStr(err)
		})
		for i, f := range files {
			i, f, src := i, f, srcs[i]
			apply := func(salt uint64) string {
				d := &yieldDst{salt: salt}
				err := gitdiff.Apply(d, src, f)
				if err != nil {
					return "failed: " + err.Error() + fmt.Sprintf("\n%x", d.buf)
				}
				return string(d.buf)
			}
			add("Apply", i, apply)
			add("Apply", i, apply)
			add("String", i, func(uint64) string { return f.String() })
			if len(f.TextFragments) > 0 {
				t := f.TextFragments[picks[i]]
				add("Validate", i, func(uint64) string { return errStr(t.Validate()) })
				add("String", i, func(uint64) string { return t.String() + t.Header() })
				add("applier", i, func(salt uint64) string {
					d := &yieldDst{salt: salt}
					a := gitdiff.NewTextApplier(d, src)
					var errs string
					for _, t := range f.TextFragments {
						errs += errStr(a.ApplyFragment(t))
					}
					errs += errStr(a.Close())
					return errs + string(d.buf)
				})
			}
			for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
				if b == nil {
					continue
				}
				b := b
				add("Data", i, func(uint64) string {
					data, err := io.ReadAll(b.Data())
					return string(data) + errStr(err)
				})
				add("String", i, func(uint64) string { return b.String() })
			}
		}
		add("header", -1, func(uint64) string {
			h, err := gitdiff.ParsePatchHeader(header)
			if err != nil {
				return errStr(err)
			}
			return fmt.Sprintf("%q %v %v %v %v %q %q %q %q", h.SHA, h.Author, h.AuthorDate, h.Committer, h.CommitterDate, h.Title, h.Body, h.SubjectPrefix, h.BodyAppendix)
		})
		add("date", -1, func(uint64) string { d, err := gitdiff.ParsePatchDate(date); return d.String() + errStr(err) })
		add("identity", -1, func(uint64) string { id, err := gitdiff.ParsePatchIdentity(ident); return id.String() + errStr(err) })
		return
	}
	ops, alone := opsOn(files), opsOn(solo)

	all := append([]*gitdiff.File(nil), files...)
	if &solo[0] != &files[0] {
		all = append(all, solo...)
	}
	var before []string
	for _, f := range all {
		before = append(before, digest(f))
	}
	unchanged := func(when string) {
		for i, f := range all {
			if d := digest(f); d != before[i] {
				c.Fail("%s: file %d was modified: %s", when, i%len(files)+1, diffAt(before[i], d))
			}
			if n := len(f.TextFragments); cap(f.TextFragments) > n {
				for _, t := range f.TextFragments[n:cap(f.TextFragments)] {
					if t != nil && len(f.TextFragments) > 0 && cap(f.TextFragments) == n+3 {
						c.Fail("%s: the spare capacity of the fragments of file %d was used", when, i+1)
					}
				}
			}
		}
		for i, s := range sources {
			_ = s
			var got []byte
			switch y := srcs[i].(type) {
			case *bytes.Reader:
				got = make([]byte, len(kept[i]))
				y.ReadAt(got, 0)
			case *yieldSrc:
				got = y.data
			case *yieldLines:
				got = bytes.Join(y.lines, nil)
			}
			if string(got) != kept[i] {
				c.Fail("%s: the source of file %d was modified: %s", when, i+1, diffAt(kept[i], string(got)))
			}
		}
	}

	// one at a time
	want := make([]string, len(ops))
	for i, op := range alone {
		want[i] = op.run(0)
		c.Eval()
		if op.kind == "Apply" && strings.HasPrefix(want[i], "failed: ") {
			c.Note("failed Apply")
		}
		unchanged("after a single " + op.kind)
		if got := op.run(1); got != want[i] {
			c.Fail("%s has another result the second time: %s", op.kind, diffAt(want[i], got))
		}
	}
	unchanged("after two rounds")

	// all at once
	workers := r.PickInt(2, 3, 4, 8)
	rounds := 2
	orders := make([][]int, workers)
	for w := range orders {
		for i := 0; i < rounds; i++ {
			o := make([]int, len(ops))
			for j := range o {
				o[j] = j
			}
			if r.P(70) {
				r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
			} // otherwise, all run the same operation at the same time
			orders[w] = append(orders[w], o...)
		}
	}
	var (
		wg       sync.WaitGroup
		start    = make(chan struct{})
		mu       sync.Mutex
		failure  string
		internal any
		overlaps atomic.Int64
		seq      []byte // the order in which operations ended
		active   = make([]atomic.Int32, len(files))
	)
	for w := range orders {
		wg.Add(1)
		salt := r.U64()
		go func(w int, order []int) {
			defer wg.Done()
			cur := ""
			defer func() {
				if e := recover(); e != nil {
					stack := string(debug.Stack())
					mu.Lock()
					defer mu.Unlock()
					switch {
					case libraryPanicked(stack):
						failure = fmt.Sprintf("%s panicked: %v\n%s", cur, e, clip(stack, 3000))
					default:
						internal = fmt.Sprintf("%v\n%s", e, stack)
						if ra, ok := e.(runaway); ok {
							failure, internal = ra.msg, nil
						}
					}
				}
			}()
			<-start
			for n, i := range order {
				op := ops[i]
				cur = op.kind
				if op.file >= 0 && active[op.file].Add(1) > 1 {
					overlaps.Add(1)
				}
				got := op.run(salt + uint64(n))
				if op.file >= 0 {
					active[op.file].Add(-1)
				}
				mu.Lock()
				seq = append(seq, byte(w), byte(i))
				if got != want[i] && failure == "" {
					failure = fmt.Sprintf("%s has another result when running concurrently: %s", op.kind, diffAt(want[i], got))
				}
				mu.Unlock()
			}
		}(w, orders[w])
	}
	close(start)
	wg.Wait()
	if internal != nil {
		panic(internal)
	}
	if failure != "" {
		c.Fail("%s", failure)
	}
	for _, o := range orders {
		for _, i := range o {
			c.Note("operation")
			c.Note(ops[i].kind)
			c.Eval()
		}
	}
	c.NoteN("overlapping operations on one file", int(overlaps.Load()))
	if !sequential(seq) {
		c.Note("interleaved completion orders") // the patch differs from case to case
	}
	unchanged("after concurrent use")

	// what a caller does to one file does not show in another one, nor in one
	// parsed later
	again := mustParse(c, patch, len(sources))
	other := mustParse(c, patch, len(sources))
	ref := contents(again)
	for i, f := range other {
		rest := contents(append(append([]*gitdiff.File(nil), other[:i]...), other[i+1:]...))
		scribble(f)
		c.Note("mutated copy")
		c.Eval()
		if d := contents(append(append([]*gitdiff.File(nil), other[:i]...), other[i+1:]...)); d != rest {
			c.Fail("changing file %d of a patch changed another one: %s", i+1, diffAt(rest, d))
		}
	}
	if d := contents(again); d != ref {
		c.Fail("changing the files of one parse changed those of another: %s", diffAt(ref, d))
	}
	if d := contents(mustParse(c, patch, len(sources))); d != ref {
		c.Fail("changing the files of a parse changed the result of the next: %s", diffAt(ref, d))
	}
	// a fragment does not share memory with its neighbors
	for _, f := range again {
		for i, t := range f.TextFragments {
			before := contents([]*gitdiff.File{{TextFragments: append(append([]*gitdiff.TextFragment(nil), f.TextFragments[:i]...), f.TextFragments[i+1:]...)}})
			scribbleFragment(t)
			after := contents([]*gitdiff.File{{TextFragments: append(append([]*gitdiff.TextFragment(nil), f.TextFragments[:i]...), f.TextFragments[i+1:]...)}})
			if before != after {
				c.Fail("changing fragment %d changed another one: %s", i+1, diffAt(before, after))
			}
		}
		if f.BinaryFragment != nil && f.ReverseBinaryFragment != nil {
			before := contents([]*gitdiff.File{{ReverseBinaryFragment: f.ReverseBinaryFragment}})
			scribbleBinary(f.BinaryFragment)
			if after := contents([]*gitdiff.File{{ReverseBinaryFragment: f.ReverseBinaryFragment}}); before != after {
				c.Fail("changing a binary fragment changed the reverse one: %s", diffAt(before, after))
			}
		}
	}
}

func permuted(l []*gitdiff.TextFragment, order []int) []*gitdiff.TextFragment {
	p := make([]*gitdiff.TextFragment, len(l))
	for i, j := range order {
		p[i] = l[j]
	}
	return p
}

// coldC18 runs in a process of its own: the first uses of the library in it
// are concurrent. It returns what went wrong.
func coldC18(seed uint64, k int) (failure string, ops int) {
	r := newRng(seed, "C18 cold", uint64(k))
	type op struct {
		kind string
		run  func() string
	}
	var list []op
	add := func(kind string, run func() string) { list = append(list, op{kind, run}) }
	for i := 0; i < 6; i++ {
		o := defaultSpecOpts(r)
		o.binary = true
		f := genSpec(r, o)
		for try := 0; try < 50 && (i == 0 && len(f.Hunks) == 0 || i == 1 && f.Binary != "literal" || i == 2 && f.Binary != "delta"); try++ {
			f = genSpec(r, o)
		}
		text := f.renderGit(genStyle(r))
		add("parse", func() string { fs, pre, err := parse(text); return contents(fs) + pre + errStr(err) })
		add("format", func() string {
			e := f.expected()
			var b strings.Builder
			b.WriteString(e.String())
			for _, t := range e.TextFragments {
				b.WriteString(t.String() + errStr(t.Validate()))
			}
			return b.String()
		})
		add("apply", func() string {
			d := &yieldDst{}
			err := gitdiff.Apply(d, bytes.NewReader(f.A), f.expected())
			return errStr(err) + string(d.buf)
		})
		add("data", func() string {
			if e := f.expected(); e.BinaryFragment != nil {
				data, err := io.ReadAll(e.BinaryFragment.Data())
				return string(data) + errStr(err)
			}
			return ""
		})
		bad := genMutated(r)
		add("parse", func() string { fs, pre, err := parse(bad); return contents(fs) + pre + errStr(err) })
		k := genMailCommit(r)
		pretty := k.pretty(r, r.Pick("medium", "fuller"), "default")
		mail := fmt.Sprintf("From %s Mon Sep 17 00:00:00 2001\nFrom: %s\nDate: %s\nSubject: [PATCH] %s\n\n%s", k.SHA, mailFrom(r, k.Author), k.ADate.format("rfc"), qEncode(k.titleLine(), "Subject: [PATCH] "), k.Body)
		for _, text := range []string{pretty, mail} {
			text := text
			add("header", func() string {
				h, err := gitdiff.ParsePatchHeader(text)
				if err != nil {
					return errStr(err)
				}
				return fmt.Sprintf("%q %v %v %v %v %q %q %q %q %q", h.SHA, h.Author, h.AuthorDate, h.Committer, h.CommitterDate, h.Title, h.Body, h.SubjectPrefix, h.BodyAppendix, h.Message())
			})
		}
		date := genDateText(r)
		add("date", func() string { d, err := gitdiff.ParsePatchDate(date); return d.String() + errStr(err) })
		ident := genIdentText(r)
		add("identity", func() string { id, err := gitdiff.ParsePatchIdentity(ident); return id.String() + errStr(err) })
	}

	const copies = 3
	got := make([]string, len(list)*copies)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for _, n := range r.Perm(len(got)) {
		wg.Add(1)
		go func(n int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					got[n] = fmt.Sprintf("panic: %v\n%s", e, debug.Stack())
				}
			}()
			<-start
			got[n] = list[n/copies].run()
		}(n)
	}
	close(start)
	wg.Wait()
	for n, g := range got {
		if strings.HasPrefix(g, "panic: ") {
			return fmt.Sprintf("the first %s of the process panicked while running concurrently: %s", list[n/copies].kind, clip(g, 3000)), n
		}
		if want := list[n/copies].run(); g != want {
			return fmt.Sprintf("the first %s of the process has another result when running concurrently: %s", list[n/copies].kind, diffAt(want, g)), n
		}
	}
	return "", len(got)
}

// sequential returns true if the goroutines ran one after another.
func sequential(seq []byte) bool {
	seen := map[byte]bool{}
	for i := 0; i < len(seq); i += 2 {
		if i > 0 && seq[i] == seq[i-2] {
			continue
		}
		if seen[seq[i]] {
			return false
		}
		seen[seq[i]] = true
	}
	return true
}

func scribbleFragment(t *gitdiff.TextFragment) {
	for i := range t.Lines {
		t.Lines[i] = gitdiff.Line{Op: gitdiff.OpAdd, Line: "scribble"}
	}
	t.Lines = t.Lines[:cap(t.Lines)]
	for i := range t.Lines {
		t.Lines[i].Line = "scribble"
	}
	*t = gitdiff.TextFragment{Comment: "scribble"}
}

func scribbleBinary(b *gitdiff.BinaryFragment) {
	b.RawData = b.RawData[:cap(b.RawData)]
	for i := range b.RawData {
		b.RawData[i] = 0x55
	}
	b.Size, b.Method = -1, 77
}

func scribble(f *gitdiff.File) {
	for _, t := range f.TextFragments {
		scribbleFragment(t)
	}
	fs := f.TextFragments[:cap(f.TextFragments)]
	for i := range fs {
		fs[i] = nil
	}
	for _, b := range []*gitdiff.BinaryFragment{f.BinaryFragment, f.ReverseBinaryFragment} {
		if b != nil {
			scribbleBinary(b)
		}
	}
	*f = gitdiff.File{OldName: "scribble"}
}

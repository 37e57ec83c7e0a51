package main

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"math"
	"strings"
	"sync"

	"github.com/bluekeyes/go-gitdiff/gitdiff"
)

func init() {
	register(&Check{
		ID: "C03", Quick: 45000, Thorough: 1200000,
		Rule:   "A case applies a generated literal or a delta with random instructions (every one of the 128 copy encodings is used) to a source in memory or a computed source of up to 4 GiB, and compares the output with an independent execution of the instructions; non-trivial if output or source is not empty, distinct by method, data and source.",
		Run:    runC03,
		Final:  finalC03,
		Floors: map[string]int{"literal": 100, "delta": 300, "computed source": 200, "default size": 20, "source > 16 MiB": 100, "copy at end of eager source": 5, "padded size": 20, "parsed from text": 50, "all 128 copy encodings": 0},
	})
	register(&Check{
		ID: "C04", Quick: 120000, Thorough: 2500000,
		Rule:   "A case corrupts the data, the declared size or the instructions of a fragment, or makes instructions at random, and compares error and output with a reference (compress/zlib used directly and an independent delta interpreter); non-trivial if the reference fails, distinct by data, size and source.",
		Run:    runC04,
		Floors: map[string]int{"rejected": 400, "accepted": 30, "flip": 100, "truncated": 30, "size": 50, "delta": 200, "conflict": 20, "reader: small reads": 100},
	})
	register(&Check{
		ID: "C05", Quick: 80000, Thorough: 800000,
		Rule:   "A case applies a fragment with a limit at, around or far from the sizes involved, and checks that it is rejected without output exactly if a declared size exceeds the limit; non-trivial if a limit is within two bytes of a size, distinct by method, sizes and limit.",
		Run:    runC05,
		Floors: map[string]int{"rejected": 200, "accepted": 200, "limit = size": 50, "limit = size-1": 50, "bomb": 50, "default limit": 20, "negative limit": 50},
	})
	register(&Check{
		ID: "C25", Quick: 100000, Thorough: 700000,
		Rule:   "A case formats a fragment of one length (all lengths from 0 to 600 are covered) and compares the text with an independent encoder, parses text with any line layout, and compares parsing of corrupted lines with an independent decoder; distinct by data and corruption, non-trivial if data is not empty.",
		Run:    runC25,
		Floors: map[string]int{"encoded": 1000, "decoded": 500, "corrupt rejected": 1000, "odd layout": 100, "overflow group": 50},
	})
}

var opSeen struct {
	sync.Mutex
	m [256]bool
}

func noteOps(delta []byte) {
	// used for statistics only: walks a valid stream
	skip := func() bool {
		for i, b := range delta {
			if b < 0x80 {
				delta = delta[i+1:]
				return true
			}
		}
		return false
	}
	if !skip() || !skip() {
		return
	}
	opSeen.Lock()
	defer opSeen.Unlock()
	for len(delta) > 0 {
		op := delta[0]
		opSeen.m[op] = true
		n := 1
		if op&0x80 == 0 {
			n += int(op)
		} else {
			for i := uint(0); i < 7; i++ {
				if op&(1<<i) != 0 {
					n++
				}
			}
		}
		if n > len(delta) {
			return
		}
		delta = delta[n:]
	}
}

func finalC03(res *Result) {
	n, adds := int64(0), int64(0)
	for i := 128; i < 256; i++ {
		if opSeen.m[i] {
			n++
		}
	}
	for i := 1; i < 128; i++ {
		if opSeen.m[i] {
			adds++
		}
	}
	res.Notes["copy encodings seen"] = n
	res.Notes["add lengths seen"] = adds
	if n == 128 {
		res.Notes["all 128 copy encodings"] = 1
	}
}

func litFrag(data []byte, level int) *gitdiff.BinaryFragment {
	return &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(len(data)), RawData: deflate(data, level)}
}

func deltaFrag(delta []byte, level int) *gitdiff.BinaryFragment {
	return &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchDelta, Size: int64(len(delta)), RawData: deflate(delta, level)}
}

func binFile(f *gitdiff.BinaryFragment) *gitdiff.File {
	return &gitdiff.File{OldName: "x", NewName: "x", IsBinary: true, BinaryFragment: f}
}

// applyBin applies a binary fragment as a file or with the applier.
func applyBin(r *Rng, src io.ReaderAt, f *gitdiff.BinaryFragment, max int, opts ...gitdiff.ApplyOption) ([]byte, error) {
	d := newDst(max)
	if r.P(70) {
		err := gitdiff.Apply(d, src, binFile(f), opts...)
		return d.got, err
	}
	a := gitdiff.NewBinaryApplier(d, src, opts...)
	if err := a.ApplyFragment(f); err != nil {
		return d.got, err
	}
	return d.got, a.Close()
}

func padVarint(v uint64, n int) []byte {
	b := varint(v)
	for len(b) < n {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

// genHugeDelta makes copy instructions for a computed source. The first one
// uses the encoding given by mask.
func genHugeDelta(r *Rng, mask byte) (size int64, ops []byte, list []deltaOp) {
	for i := 0; i < 1+r.N(3); i++ {
		if i > 0 {
			mask = byte(r.N(128))
		}
		var v [7]byte
		for j := 0; j < 7; j++ {
			if mask&(1<<uint(j)) != 0 {
				v[j] = byte(r.U64())
				switch r.N(4) {
				case 0:
					v[j] = 0xff
				case 1:
					v[j] = byte(r.N(2))
				}
			}
		}
		if v[6] > 1 && !r.P1000(30) {
			v[6] = byte(r.N(2)) // keep most outputs small
		}
		off := int64(v[0]) | int64(v[1])<<8 | int64(v[2])<<16 | int64(v[3])<<24
		n := int64(v[4]) | int64(v[5])<<8 | int64(v[6])<<16
		if n == 0 {
			n = 0x10000
		}
		ops = append(ops, 0x80|mask)
		for j := 0; j < 7; j++ {
			if mask&(1<<uint(j)) != 0 {
				ops = append(ops, v[j])
			}
		}
		list = append(list, deltaOp{copy: true, off: off, size: n})
		if off+n > size {
			size = off + n
		}
		if r.P(30) {
			data := r.Bytes(1 + r.N(127))
			ops = append(append(ops, byte(len(data))), data...)
			list = append(list, deltaOp{data: data})
		}
	}
	if r.P(60) {
		size += int64(r.PickInt(0, 1, 2, 100, 65536))
	}
	return
}

func runC03(c *Ctx) {
	r := c.R
	k := r.N(100)
	switch {
	case c.Idx%6000 == 1: // far more data than any buffer
		n := r.PickInt(5<<20, 17<<20, 34<<20) + r.N(1000)
		want := make([]byte, n)
		for i := 0; i < n; i += 61 {
			want[i] = byte(i >> 8)
		}
		f := litFrag(want, 1)
		if r.P(50) {
			delta := append(varint(0), varint(uint64(n))...)
			for at := 0; at < n; at += 127 {
				end := at + 127
				if end > n {
					end = n
				}
				delta = append(append(delta, byte(end-at)), want[at:end]...)
			}
			f = deltaFrag(delta, 1)
		}
		c.Note("much data")
		got, err := applyBin(r, newSrc(nil), f, outputMax(n))
		judgeBinary(c, "much data", want, got, err)
		c.Nontrivial(fnv64(fmt.Sprint(n, f.Method)), nil)
	case k < 30: // computed source
		size, ops, list := genHugeDelta(r, byte(c.Idx%128))
		src := &virtualSrc{size: size, salt: r.U64()}
		total := deltaSize(list)
		delta := append(varint(uint64(size)), varint(uint64(total))...)
		delta = append(delta, ops...)
		noteOps(delta)
		c.Note("computed source")
		if size > 16<<20 {
			c.Note("source > 16 MiB")
		}
		for _, op := range list {
			if op.copy && op.size == 0x10000 {
				c.Note("default size")
				break
			}
		}
		c.Input("delta", fmt.Sprintf("%x", clip(string(delta), 500)))
		c.Input("source", fmt.Sprintf("computed, size %d", size))
		want := make([]byte, 0, total)
		for _, op := range list {
			if op.copy {
				for i := int64(0); i < op.size; i++ {
					want = append(want, src.at(op.off+i))
				}
			} else {
				want = append(want, op.data...)
			}
		}
		got, err := applyBin(r, src, deltaFrag(delta, 1), outputMax(len(want)))
		judgeBinary(c, "delta on computed source", want, got, err)
		c.Nontrivial(fnv64(string(delta), fmt.Sprint(src.salt)), func() string { return fmt.Sprintf("source size %d, delta %x", size, delta) })
	case k < 55: // literal
		var data []byte
		n := r.Size(2000, 0, 1, 52, 4096, 32768, 65536, 131072)
		if r.P(50) {
			data = r.Bytes(n)
		} else {
			data = bytes.Repeat([]byte{byte(r.N(3))}, n)
		}
		f := litFrag(data, genLevel(r))
		f = viaText(c, f)
		srcData := r.Bytes(r.N(100))
		src, name := genSource(r, srcData)
		c.Note("literal")
		c.Input("data", fmt.Sprintf("%x", clip(string(data), 500)))
		got, err := applyBin(r, src, f, outputMax(len(data)))
		judgeBinary(c, "literal, "+name, data, got, err)
		if n > 0 {
			c.Nontrivial(fnv64(string(data)), nil)
		}
	default:
		n := r.Size(3000, 0, 1, 255, 256, 257, 65535, 65536, 65537, 131072)
		A := r.Bytes(n)
		ops := genDelta(r, int64(n))
		if deltaSize(ops) > 4<<20 {
			ops = ops[:1]
		}
		delta := encodeDelta(int64(n), deltaSize(ops), ops, r)
		if r.P(15) {
			c.Note("padded size")
			body := encodeDelta(0, 0, ops, r)[2:]
			delta = append(padVarint(uint64(n), 1+r.N(9)), padVarint(uint64(deltaSize(ops)), 1+r.N(9))...)
			delta = append(delta, body...)
		}
		noteOps(delta)
		want := runOps(A, ops)
		f := viaText(c, deltaFrag(delta, genLevel(r)))
		src, name := genSource(r, A)
		for _, op := range ops {
			if op.copy && op.size == 0x10000 {
				c.Note("default size")
				break
			}
		}
		for _, op := range ops {
			if op.copy && op.off+op.size == int64(n) && strings.HasPrefix(name, "eager") {
				c.Note("copy at end of eager source")
				break
			}
		}
		c.Note("delta")
		c.Input("delta", fmt.Sprintf("%x", clip(string(delta), 500)))
		c.Input("source", fmt.Sprintf("%x", clip(string(A), 500)))
		got, err := applyBin(r, src, f, outputMax(len(want)))
		judgeBinary(c, "delta, "+name, want, got, err)
		if n > 0 || len(want) > 0 {
			c.Nontrivial(fnv64(string(delta), string(A)), func() string {
				return fmt.Sprintf("source %x, delta %x", clip(string(A), 50), clip(string(delta), 100))
			})
		}
	}
}

func judgeBinary(c *Ctx, what string, want, got []byte, err error) {
	c.Eval()
	if err != nil {
		c.Fail("%s: applying a valid fragment failed: %v", what, err)
	}
	if !bytes.Equal(want, got) {
		c.Fail("%s: wrong result: %s", what, diffAt(string(want), string(got)))
	}
}

// viaText sometimes sends the fragment through a patch.
func viaText(c *Ctx, f *gitdiff.BinaryFragment) *gitdiff.BinaryFragment {
	if !c.R.P(40) {
		return f
	}
	c.Note("parsed from text")
	m := "literal"
	if f.Method == gitdiff.BinaryPatchDelta {
		m = "delta"
	}
	text := "diff --git a/x b/x\nindex 0123456789012345678901234567890123456789..1234567890123456789012345678901234567890 100644\nGIT binary patch\n" + renderBinary(m, f.Size, f.RawData, 52)
	files := mustParse(c, text, 1)
	if d := binDiff(f, files[0].BinaryFragment); d != "" {
		c.Fail("fragment differs after parsing: %s", d)
	}
	return files[0].BinaryFragment
}

// inflateRef inflates raw completely, up to a limit far above any valid size.
func inflateRef(raw []byte) ([]byte, error) {
	zr, err := zlib.NewReader(bytes.NewReader(raw))
	if err != nil {
		return nil, err
	}
	data, err := io.ReadAll(io.LimitReader(zr, 64<<20))
	if err != nil {
		return data, err
	}
	return data, zr.Close()
}

func runC04(c *Ctx) {
	r := c.R
	A := r.Bytes(r.Size(300, 0, 1, 256, 65536))
	isDelta := r.P(60)
	var plain []byte
	if isDelta {
		switch r.N(10) {
		case 0: // arbitrary stream
			plain = append(varint(uint64(len(A))), varint(uint64(r.N(300)))...)
			plain = append(plain, r.Bytes(r.N(40))...)
		case 1:
			plain = r.Bytes(r.N(20))
		default:
			ops := genDelta(r, int64(len(A)))
			if deltaSize(ops) > 1<<20 {
				ops = ops[:1]
			}
			ss, ds := int64(len(A)), deltaSize(ops)
			switch r.N(8) {
			case 0:
				ss += int64(r.PickInt(-1, 1, 1, 127, 128, 256, 1<<20))
			case 1:
				ds += int64(r.PickInt(-1, 1, -2, 2, 128, 65536))
			case 2:
				if ds > 0 {
					ds = int64(r.N(int(ds)))
				}
			}
			if ss < 0 {
				ss = 1
			}
			if ds < 0 {
				ds = 1
			}
			plain = encodeDelta(ss, ds, ops, r)
			for i := r.PickInt(0, 0, 1, 1, 2); i > 0 && len(plain) > 0; i-- {
				switch r.N(7) {
				case 0:
					plain[r.N(len(plain))] ^= byte(1 << uint(r.N(8)))
				case 1:
					plain = plain[:r.N(len(plain))]
				case 2:
					plain = append(plain, byte(r.U64()))
				case 3:
					plain[r.N(len(plain))] = byte(r.PickInt(0, 0x80, 0xff, 0x7f, 0x90, 0x81))
				case 4: // remove a byte
					j := r.N(len(plain))
					plain = append(plain[:j:j], plain[j+1:]...)
				case 5: // insert
					j := r.N(len(plain) + 1)
					plain = append(plain[:j:j], append([]byte{byte(r.PickInt(0, 1, 0x80, r.N(256)))}, plain[j:]...)...)
				case 6: // oversized size
					plain = append(bytes.Repeat([]byte{0xff}, 8+r.N(4)), plain...)
				}
			}
		}
	} else {
		plain = r.Bytes(r.Size(300, 0, 1, 32768))
		if r.P(40) {
			plain = bytes.Repeat([]byte("ab"), r.N(3000))
		}
	}
	f := litFrag(plain, genLevel(r))
	if isDelta {
		f.Method = gitdiff.BinaryPatchDelta
		c.Note("delta")
	}
	p := 100
	if isDelta {
		p = 25
	}
	if r.P(p) {
		for i := r.PickInt(1, 1, 1, 2, 0); i > 0; i-- {
			switch r.N(9) {
			case 0, 1, 2:
				c.Note("flip")
				if len(f.RawData) > 0 {
					f.RawData[r.N(len(f.RawData))] ^= byte(1 << uint(r.N(8)))
				}
			case 3:
				c.Note("truncated")
				f.RawData = f.RawData[:r.N(len(f.RawData)+1)]
			case 4:
				c.Note("truncated")
				n := len(f.RawData) - 1 - r.N(5)
				if n < 0 {
					n = 0
				}
				f.RawData = f.RawData[:n]
			case 5, 6:
				c.Note("size")
				f.Size += int64(r.PickInt(-1, 1, 1, -2, 2, 100, 1<<20))
				if f.Size < 0 {
					f.Size = 0
				}
			case 7:
				f.RawData = r.Bytes(r.N(30))
			case 8: // a stream with another checksum
				other := deflate(r.Bytes(10), 1)
				if n := len(f.RawData); n >= 4 {
					copy(f.RawData[n-4:], other[len(other)-4:])
				}
			}
		}
	}

	// reference
	data, derr := inflateRef(f.RawData)
	ok := derr == nil && int64(len(data)) == f.Size
	wantOut, wantConflict := data, false
	if ok && isDelta {
		var err error
		wantOut, err = modelDelta(data, A)
		if err != nil {
			ok = false
			wantConflict = errors.Is(err, errDeltaConflict)
		}
	} else if isDelta {
		wantOut = nil
	}
	c.Input("source", fmt.Sprintf("%x", clip(string(A), 2000)))
	c.Input("fragment", fmt.Sprintf("method %d size %d raw %x", f.Method, f.Size, clip(string(f.RawData), 2000)))
	c.Input("inflated", fmt.Sprintf("%x", clip(string(data), 2000)))
	if !ok {
		c.Nontrivial(fnv64(string(f.RawData), fmt.Sprint(f.Size), string(A)), func() string {
			return fmt.Sprintf("method %d size %d raw %x source %d bytes", f.Method, f.Size, clip(string(f.RawData), 60), len(A))
		})
	}

	src, name := genSource(r, A)
	max := len(data) + len(wantOut) + 100000
	got, err := applyBin(r, src, f, max, gitdiff.WithMaxBinaryFragmentBytes(int64(r.PickInt(-1, 100<<20))))
	c.Eval()
	if ok {
		c.Note("accepted")
		if err != nil {
			c.Fail("valid fragment was rejected, %s: %v", name, err)
		}
		if !bytes.Equal(got, wantOut) {
			c.Fail("wrong result, %s: %s", name, diffAt(string(wantOut), string(got)))
		}
	} else {
		c.Note("rejected")
		if err == nil {
			c.Fail("corrupt fragment was applied, %s; output %x", name, clip(string(got), 200))
		}
		var ae *gitdiff.ApplyError
		if !errors.As(err, &ae) {
			c.Fail("error is not an *ApplyError: %T %v", err, err)
		}
		if errors.Is(err, io.EOF) {
			c.Fail("a failed application looks like the end of input: %q", err)
		}
		if isConflict(err) != wantConflict && (wantConflict || derr != nil || int64(len(data)) != f.Size) {
			c.Fail("errors.Is(err, &Conflict{}) is %v for %q", !wantConflict, err)
		}
		if wantConflict {
			c.Note("conflict")
			if !isConflict(err) {
				c.Fail("delta for a source of another size is not reported as a conflict: %v", err)
			}
			if len(got) > 0 {
				c.Fail("output was written although the source has the wrong size: %x", got)
			}
		}
		if isDelta && !bytes.HasPrefix(wantOut, got) {
			c.Fail("output of a corrupt delta is not a prefix of what its valid instructions produce: %s", diffAt(string(wantOut), string(got)))
		}
		if !isDelta && (!bytes.HasPrefix(data, got) || int64(len(got)) > f.Size+1) {
			c.Fail("output of a corrupt literal is not a prefix of its data: %s", diffAt(string(data), string(got)))
		}
	}

	// the reader
	dataOK := derr == nil && int64(len(data)) == f.Size
	rd := f.Data()
	var out []byte
	buf := make([]byte, r.PickInt(1, 2, 3, 7, 64, 512, 4096, 100000))
	if len(buf) < 64 {
		c.Note("reader: small reads")
	}
	var rerr error
	for i := 0; ; i++ {
		n, err := rd.Read(buf)
		if n < 0 || n > len(buf) {
			c.Fail("Read returned %d for a buffer of %d", n, len(buf))
		}
		out = append(out, buf[:n]...)
		if err != nil {
			rerr = err
			break
		}
		if i > 10000+2*len(data)+int(min64(f.Size, 1<<22)) {
			c.Fail("reader makes no progress")
		}
	}
	c.Eval()
	if dataOK != (rerr == io.EOF) {
		c.Fail("data is valid: %v, but reading it in pieces of %d bytes ends with: %v", dataOK, len(buf), rerr)
	}
	if !bytes.HasPrefix(data, out) {
		c.Fail("reader returned wrong data: %s", diffAt(string(data), string(out)))
	}
	if dataOK && len(out) != len(data) {
		c.Fail("reader returned %d of %d bytes", len(out), len(data))
	}
	if int64(len(out)) > f.Size+1 {
		c.Fail("reader returned %d bytes for a declared size of %d", len(out), f.Size)
	}
	for i := 0; i < 3; i++ {
		n, err := rd.Read(buf)
		if dataOK {
			if err != io.EOF || n > 0 {
				c.Fail("after the end, Read returned %d, %v", n, err)
			}
			continue
		}
		if err == nil || err == io.EOF || n > 0 {
			c.Fail("after the error %v, Read returned %d, %v", rerr, n, err)
		}
	}
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// countDst counts output without keeping it.
type countDst struct {
	n   int64
	sum uint64
}

func (d *countDst) Write(p []byte) (int, error) {
	d.n += int64(len(p))
	return len(p), nil
}

func runC05(c *Ctx) {
	r := c.R
	const def = 100 << 20
	if c.Idx%2500 == 7 {
		// real content at the default limit
		size := int64(def)
		if r.P(50) {
			size++
		}
		var ops []deltaOp
		for left := size; left > 0; {
			n := min64(left, 0xffffff)
			ops = append(ops, deltaOp{copy: true, off: 0, size: n})
			left -= n
		}
		d := &countDst{}
		err := gitdiff.Apply(d, &zeroSrc{0xffffff}, binFile(deltaFrag(encodeDelta(0xffffff, size, ops, nil), 6)))
		c.Eval()
		if size > def && (err == nil || d.n > 0) {
			c.Fail("delta result of %d bytes is not rejected by the default limit: wrote %d, %v", size, d.n, err)
		}
		if size <= def && (err != nil || d.n != size) {
			c.Fail("delta result of %d bytes is rejected by the default limit: wrote %d, %v", size, d.n, err)
		}
		c.Note("real content at the default limit")
		return
	}

	// claim and content: the content may be larger than claimed
	A := r.Bytes(r.N(200))
	isDelta := r.P(50)
	var f *gitdiff.BinaryFragment
	var sizes []int64
	var want []byte
	valid := true
	if isDelta {
		ops := genDelta(r, int64(len(A)))
		if deltaSize(ops) > 1<<18 {
			ops = ops[:1]
		}
		dst := deltaSize(ops)
		want = runOps(A, ops)
		claim := dst
		if r.P(25) && len(ops) > 0 {
			// bomb: more output than claimed
			claim = int64(r.N(int(dst) + 1))
			valid = claim == dst
			c.Note("bomb")
		} else if r.P(10) {
			claim = int64(r.PickInt(def-1, def, def+1, 1<<40))
			valid = false
		}
		delta := encodeDelta(int64(len(A)), claim, ops, r)
		f = deltaFrag(delta, genLevel(r))
		sizes = []int64{f.Size, claim}
	} else {
		n := r.Size(300, 0, 1, 32768, 65536)
		want = bytes.Repeat([]byte{byte(r.N(3))}, n)
		f = litFrag(want, genLevel(r))
		if r.P(25) && n > 0 {
			f.Size = int64(r.N(n + 1))
			valid = f.Size == int64(n)
			c.Note("bomb")
		} else if r.P(10) {
			f.Size = int64(r.PickInt(def-1, def, def+1, math.MaxInt64))
			valid = false
		}
		sizes = []int64{f.Size}
	}
	limit := int64(def)
	var opts []gitdiff.ApplyOption
	which := sizes[r.N(len(sizes))]
	switch k := r.N(10); {
	case k < 2:
		limit = which
		if limit == math.MaxInt64 {
			limit--
		}
	case k < 4:
		limit = which - 1
		if limit < 0 {
			limit = 0
		}
	case k < 5:
		limit = which
		if limit < math.MaxInt64 {
			limit++
		}
	case k < 6:
		limit = int64(r.PickInt(-1, -1, -5, math.MinInt64))
	case k < 7:
		limit = 0
	case k < 8:
		limit = int64(r.PickInt(math.MaxInt64, 1<<40, 1, 100, 50))
	case k < 9:
		limit = int64(r.N(1000))
	default:
		limit = -2 // marks the default
	}
	if limit == -2 {
		limit = def
		c.Note("default limit")
	} else {
		if r.P(20) {
			opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(int64(r.PickInt(0, -1, 10, 1<<50)))) // replaced by the next
		}
		opts = append(opts, gitdiff.WithMaxBinaryFragmentBytes(limit))
	}
	exceeds := false
	for _, s := range sizes {
		if limit >= 0 && s > limit {
			exceeds = true
		}
		switch {
		case limit == s:
			c.Note("limit = size")
		case limit == s-1:
			c.Note("limit = size-1")
		}
		if limit >= 0 && s-limit <= 2 && limit-s <= 2 {
			c.Nontrivial(fnv64(fmt.Sprint(isDelta, sizes, limit, valid)), func() string {
				return fmt.Sprintf("delta %v, sizes %v, limit %d, valid %v", isDelta, sizes, limit, valid)
			})
		}
	}
	if limit < 0 {
		c.Note("negative limit")
	}
	c.Input("case", fmt.Sprintf("delta %v, sizes %v, limit %d, valid %v, options %d", isDelta, sizes, limit, valid, len(opts)))
	c.Input("raw", fmt.Sprintf("%x", clip(string(f.RawData), 1000)))
	src, name := genSource(r, A)
	got, err := applyBin(r, src, f, len(want)+200000, opts...)
	c.Eval()
	switch {
	case exceeds:
		c.Note("rejected")
		if err == nil {
			c.Fail("%s: sizes %v accepted with limit %d", name, sizes, limit)
		}
		if len(got) > 0 {
			c.Fail("%s: sizes %v exceed the limit %d, but %d bytes were written", name, sizes, limit, len(got))
		}
		if isConflict(err) {
			c.Fail("exceeding the limit is reported as a conflict: %v", err)
		}
	case valid:
		c.Note("accepted")
		if err != nil {
			c.Fail("%s: sizes %v rejected with limit %d: %v", name, sizes, limit, err)
		}
		if !bytes.Equal(got, want) {
			c.Fail("%s: wrong result with limit %d: %s", name, limit, diffAt(string(want), string(got)))
		}
	default:
		if err == nil {
			c.Fail("%s: fragment with wrong sizes was applied", name)
		}
		if !isDelta && f.Size > int64(len(want)) && f.Size < math.MaxInt64 && len(want) > 0 && len(got) == 0 {
			c.Fail("%s: literal within the limit %d was rejected before reading its data: %v", name, limit, err)
		}
	}
	if limit >= 0 && limit < math.MaxInt64 && int64(len(got)) > limit+1 {
		c.Fail("%s: wrote %d bytes with a limit of %d", name, len(got), limit)
	}
	if r.P(5) {
		// no effect on text
		t := genTextCase(c, false)
		tf := mustParse(c, t.patch, 1)[0]
		got, err := applyTo(newSrc([]byte(t.A)), tf, outputMax(len(t.A)+len(t.B)), gitdiff.WithMaxBinaryFragmentBytes(int64(r.N(3))))
		c.Eval()
		if err != nil || string(got) != t.B {
			c.Fail("binary limit changes applying text: %v", err)
		}
		c.Note("text")
	}
}

type zeroSrc struct{ n int64 }

func (z *zeroSrc) ReadAt(p []byte, off int64) (int, error) {
	if off >= z.n {
		return 0, io.EOF
	}
	n := min64(int64(len(p)), z.n-off)
	clear(p[:n])
	if n < int64(len(p)) {
		return int(n), io.EOF
	}
	return int(n), nil
}

const binHeader = "diff --git a/x b/x\nindex 0123456789012345678901234567890123456789..1234567890123456789012345678901234567890 100644\nGIT binary patch\n"

func runC25(c *Ctx) {
	r := c.R
	n := c.Idx % 601
	if r.P(10) {
		n = r.Size(3000, 52*100, 4096)
	}
	raw := r.Bytes(n)
	switch r.N(6) {
	case 0:
		raw = bytes.Repeat([]byte{0xff}, n)
	case 1:
		raw = make([]byte, n)
	}
	f := &gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchMethod(r.N(2)), Size: int64(r.U64() >> 1 >> uint(r.N(60))), RawData: raw}
	m := "delta"
	if f.Method == gitdiff.BinaryPatchLiteral {
		m = "literal"
	}
	c.Input("data", fmt.Sprintf("%s size %d raw %x", m, f.Size, raw))
	if n > 0 {
		c.Nontrivial(fnv64(string(raw)), func() string { return fmt.Sprintf("%x", clip(string(raw), 100)) })
	}
	want := renderBinary(m, f.Size, raw, 52)
	got := f.String()
	c.Eval()
	c.Note("encoded")
	if got != want {
		c.Fail("text form of %d bytes: %s", n, diffAt(want, got))
	}

	// any layout of lines decodes to the same data
	per := r.PickInt(52, 52, 52, 51, 4, 5, 1, 26, 27, 1+r.N(52))
	if per != 52 {
		c.Note("odd layout")
	}
	rev := ""
	var revRaw []byte
	if r.P(40) {
		revRaw = r.Bytes(r.N(200))
		rev = renderBinary("literal", int64(len(revRaw)), revRaw, 52)
	}
	files := mustParse(c, binHeader+renderBinary(m, f.Size, raw, per)+rev, 1)
	c.Eval()
	c.Note("decoded")
	if !files[0].IsBinary {
		c.Fail("not binary")
	}
	if d := binDiff(f, files[0].BinaryFragment); d != "" {
		c.Fail("decoding lines of %d bytes: %s", per, d)
	}
	if rev != "" {
		if d := binDiff(&gitdiff.BinaryFragment{Method: gitdiff.BinaryPatchLiteral, Size: int64(len(revRaw)), RawData: revRaw}, files[0].ReverseBinaryFragment); d != "" {
			c.Fail("reverse fragment: %s", d)
		}
	}

	// corrupt lines
	for i := 0; i < 4; i++ {
		body := []byte(b85Lines(raw, per))
		if len(body) == 0 {
			break
		}
		pos := r.N(len(body))
		switch r.N(7) {
		case 0, 1:
			body[pos] = byte(r.U64())
		case 2: // length letter of a line
			for pos > 0 && body[pos-1] != '\n' {
				pos--
			}
			body[pos] = "AZaz0@[`{BCDy \n"[r.N(15)]
		case 3:
			body = append(body[:pos:pos], body[pos+1:]...)
		case 4:
			body = append(body[:pos:pos], append([]byte{"0~}\" ,\\'\x80/:[]"[r.N(13)]}, body[pos:]...)...)
		case 5: // a group above 32 bits
			for pos > 0 && body[pos-1] != '\n' {
				pos--
			}
			end := bytes.IndexByte(body[pos:], '\n')
			if end >= 6 {
				g := pos + 1 + 5*r.N((end-1)/5)
				copy(body[g:], r.Pick("|NsC1", "~~~~~", "|Nt00", "}0000", "|O000"))
				c.Note("overflow group")
			}
		case 6: // swap two characters
			q := r.N(len(body))
			body[pos], body[q] = body[q], body[pos]
		}
		text := string(body) + "\n"
		ref, ok := decodeB85Lines(text)
		files, _, err := parse(binHeader + fmt.Sprintf("%s %d\n", m, f.Size) + text)
		c.Eval()
		if !ok {
			c.Note("corrupt rejected")
			if err == nil {
				c.ResetInputs()
				c.Input("lines", text)
				c.Fail("corrupt binary data was accepted:\n%s", clip(text, 500))
			}
			if len(files) != 0 {
				c.Fail("corrupt binary data: error, but %d files", len(files))
			}
		} else {
			c.Note("changed accepted")
			// the data may have ended early; the rest is text after the file
			if err != nil && !strings.Contains(text[:len(text)-1], "\n\n") {
				c.Fail("valid binary data was rejected: %v\n%s", err, clip(text, 500))
			}
			if err == nil && (len(files) != 1 || files[0].BinaryFragment == nil || !bytes.Equal(files[0].BinaryFragment.RawData, ref)) {
				c.Fail("binary data decoded differently:\n%s", clip(text, 500))
			}
		}
	}
}

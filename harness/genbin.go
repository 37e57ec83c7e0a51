package main

import (
	"bytes"
	"compress/flate"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"strings"
)

// Independent codec for git binary patches.

const gitAlphabet = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz!#$%&()*+-;<=>?@^_`{|}~"

// b85 encodes data as git does: groups of four bytes, big endian, padded with
// zeros, most significant digit first.
func b85(data []byte) string {
	var out []byte
	for i := 0; i < len(data); i += 4 {
		var v uint64
		for j := 0; j < 4; j++ {
			v <<= 8
			if i+j < len(data) {
				v |= uint64(data[i+j])
			}
		}
		var d [5]byte
		for j := 4; j >= 0; j-- {
			d[j] = gitAlphabet[v%85]
			v /= 85
		}
		out = append(out, d[:]...)
	}
	return string(out)
}

func b85Lines(data []byte, perLine int) string {
	var b strings.Builder
	for len(data) > 0 {
		n := perLine
		if n > len(data) {
			n = len(data)
		}
		if n <= 26 {
			b.WriteByte(byte('A' + n - 1))
		} else {
			b.WriteByte(byte('a' + n - 27))
		}
		b.WriteString(b85(data[:n]))
		b.WriteByte('\n')
		data = data[n:]
	}
	return b.String()
}

// decodeB85Lines is the reference for reading the data lines of a binary
// fragment, up to the empty line.
func decodeB85Lines(s string) (data []byte, ok bool) {
	for {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			return nil, false
		}
		line := s[:i]
		s = s[i+1:]
		if line == "" {
			return data, true
		}
		n := 0
		switch ch := line[0]; {
		case ch >= 'A' && ch <= 'Z':
			n = int(ch-'A') + 1
		case ch >= 'a' && ch <= 'z':
			n = int(ch-'a') + 27
		default:
			return nil, false
		}
		enc := line[1:]
		if len(enc)%5 != 0 || len(enc)/5 != (n+3)/4 {
			return nil, false
		}
		var buf []byte
		for j := 0; j < len(enc); j += 5 {
			var v uint64
			for k := 0; k < 5; k++ {
				d := strings.IndexByte(gitAlphabet, enc[j+k])
				if d < 0 {
					return nil, false
				}
				v = v*85 + uint64(d)
			}
			if v > 0xffffffff {
				return nil, false
			}
			buf = append(buf, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
		}
		data = append(data, buf[:n]...)
	}
}

func deflate(data []byte, level int) []byte {
	var b bytes.Buffer
	w, _ := zlib.NewWriterLevel(&b, level)
	w.Write(data)
	w.Close()
	return b.Bytes()
}

func genLevel(r *Rng) int {
	return r.PickInt(zlib.DefaultCompression, zlib.NoCompression, 1, 5, 9, flate.HuffmanOnly)
}

func inflateAll(raw []byte, max int64) ([]byte, error) {
	zr, err := zlib.NewReader(bytes.NewReader(raw))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(io.LimitReader(zr, max))
}

func varint(v uint64) (b []byte) {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

type deltaOp struct {
	copy      bool
	off, size int64
	data      []byte
}

// encodeDeltaOp encodes an instruction. Zero bytes of copy instructions are
// left out, except for the ones selected by keep.
func encodeDeltaOp(op deltaOp, keep byte) []byte {
	if !op.copy {
		return append([]byte{byte(len(op.data))}, op.data...)
	}
	size := op.size
	if size == 0x10000 && keep&0x80 == 0 {
		size = 0
	}
	cmd := byte(0x80)
	var args []byte
	for i := 0; i < 4; i++ {
		if b := byte(op.off >> (8 * i)); b != 0 || keep&(1<<i) != 0 {
			cmd |= 1 << i
			args = append(args, b)
		}
	}
	for i := 0; i < 3; i++ {
		if b := byte(size >> (8 * i)); b != 0 || keep&(16<<i) != 0 {
			cmd |= 16 << i
			args = append(args, b)
		}
	}
	return append([]byte{cmd}, args...)
}

func encodeDelta(srcSize, dstSize int64, ops []deltaOp, r *Rng) []byte {
	out := append(varint(uint64(srcSize)), varint(uint64(dstSize))...)
	for _, op := range ops {
		keep := byte(0)
		if r != nil && r.P(30) {
			keep = byte(r.U64())
		}
		out = append(out, encodeDeltaOp(op, keep)...)
	}
	return out
}

// genDelta makes a delta for a source of the given size.
func genDelta(r *Rng, srcSize int64) (ops []deltaOp) {
	n := r.PickInt(0, 1, 1, 2, 3, 5, 10, 40)
	for i := 0; i < n; i++ {
		if srcSize > 0 && r.P(60) {
			max := srcSize
			if max > 0xffffff {
				max = 0xffffff
			}
			var size int64
			switch r.N(8) {
			case 0:
				size = 0x10000
			case 1:
				size = max
			case 2:
				size = int64(r.PickInt(255, 256, 257, 0xffff, 0x10001, 0x100, 0x20000))
			case 3:
				size = int64(r.PickInt(1, 2, 127, 128))
			default:
				size = 1 + int64(r.U64()%uint64(max))
				if size > 5000 && r.P(90) {
					size = 1 + size%5000
				}
			}
			if size > max {
				size = max
			}
			if size == 0 {
				continue
			}
			top := srcSize - size
			if top > 0xffffffff {
				top = 0xffffffff
			}
			off := int64(0)
			switch r.N(5) {
			case 0:
			case 1:
				off = top
			case 2:
				off = int64(r.PickInt(0x100, 0x10000, 0x1000000, 0xff, 0xff00, 0x10001))
				if off > top {
					off = top
				}
			default:
				off = int64(r.U64() % uint64(top+1))
			}
			ops = append(ops, deltaOp{copy: true, off: off, size: size})
		} else {
			ops = append(ops, deltaOp{data: r.Bytes(r.PickInt(1, 2, 3, 16, 126, 127, 1+r.N(127)))})
		}
	}
	return
}

func (op deltaOp) n() int64 {
	if op.copy {
		return op.size
	}
	return int64(len(op.data))
}

func deltaSize(ops []deltaOp) (n int64) {
	for _, op := range ops {
		n += op.n()
	}
	return
}

func runOps(src []byte, ops []deltaOp) (out []byte) {
	for _, op := range ops {
		if op.copy {
			out = append(out, src[op.off:op.off+op.size]...)
		} else {
			out = append(out, op.data...)
		}
	}
	return
}

var errDeltaConflict = errors.New("source size mismatch")

// modelDelta is the reference interpreter for delta instructions. It returns
// the complete output, or an error and what was produced before it.
func modelDelta(delta []byte, src []byte) (out []byte, err error) {
	size := func() (uint64, bool) {
		var v uint64
		for i := 0; i < len(delta); i++ {
			if i >= 9 {
				return 0, false
			}
			v |= uint64(delta[i]&0x7f) << (7 * uint(i))
			if delta[i] < 0x80 {
				delta = delta[i+1:]
				return v, true
			}
		}
		return 0, false
	}
	srcSize, ok := size()
	if !ok {
		return nil, errors.New("bad source size")
	}
	if srcSize != uint64(len(src)) {
		return nil, errDeltaConflict
	}
	dstSize, ok := size()
	if !ok {
		return nil, errors.New("bad result size")
	}
	for len(delta) > 0 {
		cmd := delta[0]
		delta = delta[1:]
		switch {
		case cmd == 0:
			return out, errors.New("opcode 0")
		case cmd < 0x80:
			if int(cmd) > len(delta) {
				return out, errors.New("incomplete add")
			}
			if uint64(len(out))+uint64(cmd) > dstSize {
				return out, errors.New("extra data")
			}
			out = append(out, delta[:cmd]...)
			delta = delta[cmd:]
		default:
			var v [7]uint64
			for i := range v {
				if cmd&(1<<uint(i)) != 0 {
					if len(delta) == 0 {
						return out, errors.New("incomplete copy")
					}
					v[i] = uint64(delta[0])
					delta = delta[1:]
				}
			}
			off := v[0] | v[1]<<8 | v[2]<<16 | v[3]<<24
			n := v[4] | v[5]<<8 | v[6]<<16
			if n == 0 {
				n = 0x10000
			}
			if off+n > uint64(len(src)) {
				return out, errors.New("copy beyond source")
			}
			if uint64(len(out))+n > dstSize {
				return out, errors.New("extra data")
			}
			out = append(out, src[off:off+n]...)
		}
	}
	if uint64(len(out)) != dstSize {
		return out, errors.New("insufficient data")
	}
	return out, nil
}

func renderBinary(method string, size int64, raw []byte, perLine int) string {
	return fmt.Sprintf("%s %d\n%s\n", method, size, b85Lines(raw, perLine))
}

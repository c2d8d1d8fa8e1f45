package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// C15: binaries from readers that split, delay and fail

// endings of a scripted stream
const (
	rfEOF        = iota // end of file after the last byte
	rfEOFData           // end of file together with the last bytes
	rfError             // error after the last delivered byte
	rfErrorData         // error together with the last delivered bytes
	rfUnexpected        // io.ErrUnexpectedEOF
	rfWrapped           // an error that wraps io.EOF is not the end of the stream
	rfNoProgress        // io.ErrNoProgress
	rfPanic             // the reader panics
	rfClosed            // io.ErrClosedPipe together with data
	rfKinds
)

var rfNames = []string{``, ``, `error-after-data`, `error-with-data`, `unexpected-eof`, `error-that-wraps-eof`, `no-progress-error`, `reader-panics`, `closed-pipe-with-data`}

type readErr struct{ at int }

func (e *readErr) Error() string { return fmt.Sprintf(`injected: input/output error at byte %d`, e.at) }

type wrapErr struct{ at int }

func (e *wrapErr) Error() string { return fmt.Sprintf(`injected: connection reset at byte %d`, e.at) }
func (e *wrapErr) Unwrap() error { return io.EOF }

// scriptReader delivers the content in pieces of scripted sizes and ends as told
type scriptReader struct {
	x       *X
	content []byte // what is delivered
	sizes   []int
	ending  int
	slow    int
	scrib   bool
	err     error
	pos     int
	reads   int
	empty   int
	done    bool
	after   int
}

func (s *scriptReader) Read(p []byte) (int, error) {
	if s.slow > 0 {
		linger(s.slow)
	}
	if s.done {
		s.after++
		return 0, io.EOF // also after an error: to ignore one must not go unnoticed
	}
	if len(p) == 0 {
		return 0, nil
	}
	k := len(p)
	if len(s.sizes) > 0 {
		k = s.sizes[s.reads%len(s.sizes)]
	}
	s.reads++
	if k > len(p) {
		k = len(p)
	}
	if k == 0 {
		if s.empty++; s.empty <= 3 {
			s.x.fault(`empty-read`)
			return 0, nil
		}
		k = 1
	}
	s.empty = 0
	if r := len(s.content) - s.pos; k > r {
		k = r
	} else if k < r && k < len(p) {
		s.x.fault(`short-read`)
	}
	copy(p, s.content[s.pos:s.pos+k])
	s.pos += k
	if s.scrib { // all of p may be used as scratch space
		for i := k; i < len(p) && i < k+64; i++ {
			p[i] = 0xEE
		}
		s.x.fault(`scratch-space-used`)
	}
	last := s.pos == len(s.content)
	switch s.ending {
	case rfEOF:
		if last && k == 0 {
			s.done = true
			return 0, io.EOF
		}
	case rfEOFData:
		if last {
			s.done = true
			s.x.fault(`end-with-data`)
			return k, io.EOF
		}
	case rfErrorData, rfClosed:
		if last {
			return k, s.inject()
		}
	default:
		if last && k == 0 {
			return 0, s.inject()
		}
	}
	return k, nil
}

func (s *scriptReader) inject() error {
	s.done = true
	s.x.fault(rfNames[s.ending])
	switch s.ending {
	case rfUnexpected:
		s.err = io.ErrUnexpectedEOF
	case rfNoProgress:
		s.err = io.ErrNoProgress
	case rfClosed:
		s.err = io.ErrClosedPipe
	case rfWrapped:
		s.err = &wrapErr{s.pos}
	default:
		s.err = &readErr{s.pos}
	}
	if s.ending == rfPanic {
		panic(s.err)
	}
	return s.err
}

func (s *scriptReader) left() int {
	l := len(s.content) - s.pos
	if s.ending > rfEOFData {
		l += 10 // the failure prevents that these are read
	}
	return l
}

// sizedReader knows how much is left to read
type sizedReader struct{ *scriptReader }

func (s *sizedReader) Len() int { return s.left() }
func (s *sizedReader) Size() int64 {
	return int64(len(s.content) + s.left() - (len(s.content) - s.pos))
}

// writingReader prefers to write to the consumer
type writingReader struct{ *scriptReader }

func (s *writingReader) WriteTo(w io.Writer) (int64, error) {
	var n int64
	b := make([]byte, 700)
	for {
		k, err := s.Read(b)
		if k > 0 {
			m, werr := w.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// byteReader delivers single bytes too
type byteReader struct{ *scriptReader }

func (s *byteReader) ReadByte() (byte, error) {
	var b [1]byte
	for {
		k, err := s.Read(b[:])
		if k == 1 {
			if err != nil && err != io.EOF {
				return 0, err
			}
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

// fileReader has a size that may be wrong since the file grows and shrinks
type fileReader struct {
	*scriptReader
	size int
}

type fileInfo struct{ size int64 }

func (i fileInfo) Name() string       { return `simulated` }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() os.FileMode  { return 0644 }
func (i fileInfo) ModTime() time.Time { return time.Unix(0, 0) }
func (i fileInfo) IsDir() bool        { return false }
func (i fileInfo) Sys() interface{}   { return nil }

func (s *fileReader) Stat() (os.FileInfo, error) {
	if s.size < 0 {
		return nil, errors.New(`injected: stat failed`)
	}
	return fileInfo{int64(s.size)}, nil
}
func (s *fileReader) Name() string { return `simulated` }
func (s *fileReader) Close() error { return nil }

func pattern(n, salt int) []byte {
	b := make([]byte, n)
	z := uint64(salt)*0x9e3779b97f4a7c15 + 12345
	for i := range b {
		z ^= z << 13
		z ^= z >> 7
		z ^= z << 17
		b[i] = byte(z)
	}
	return b
}

var edgeSizes = []int{0, 1, 2, 255, 256, 257, 511, 512, 513, 767, 768, 1023, 1024, 1025, 1535, 1536, 1537, 2048, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65536, 65537, 100000}

func genC15(r *Rand, p *Plan) {
	nt := []int{1, 1, 2, 3}[r.n(4)]
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, c := 0, r.rng(1, 5); i < c; i++ {
			n := r.n(60)
			switch r.n(5) {
			case 0:
				n = edgeSizes[r.n(len(edgeSizes))]
				if n > 10000 && !r.p(1, 4) {
					n = 4096
				}
			case 1:
				n = r.n(1600)
			case 2:
				n = r.n(6000)
			}
			o := Op{K: `read`, A: []int{n, r.n(100000), r.n(rfKinds), r.n(4), r.n(3)}}
			if r.p(1, 2) {
				o.A[2] = r.n(2)
			}
			switch r.n(6) {
			case 0:
				o.K = []string{`buffer`, `reader`, `string`, `bufio`, `limited`, `multi`, `section`, `pipe`, `partial`}[r.n(9)]
			case 5:
				o.K = []string{`sized`, `sized`, `writes`, `file`, `file`, `bytes`}[r.n(6)]
				for j, c := 0, r.n(5); j < c; j++ {
					o.C = append(o.C, Op{K: `n`, A: []int{r.n([]int{3, 20, 700, 5000}[r.n(4)])}})
				}
				if len(o.C) == 1 && o.C[0].A[0] < 2 && n > 3000 {
					o.A[0] = 3000
				}
			case 1, 2: // sizes of the reads
				for j, c := 0, r.rng(1, 6); j < c; j++ {
					o.C = append(o.C, Op{K: `n`, A: []int{r.n([]int{3, 20, 700, 5000}[r.n(4)])}})
				}
			case 3:
				o.C = append(o.C, Op{K: `n`, A: []int{1}})
				if n > 3000 {
					o.A[0] = 3000
				}
			case 4:
				o.C = append(o.C, Op{K: `n`, A: []int{[]int{511, 512, 513, 256, 128, 1024, 4096}[r.n(7)]}}, Op{K: `n`, A: []int{r.n(3)}})
			}
			ops = append(ops, o)
			if r.p(1, 4) {
				ops = append(ops, Op{K: `again`, A: []int{r.n(8)}})
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	p.Cfg = drawSched(r, 300*nt)
	p.Cfg.MaxSteps = 20000000
}

func execC15(p *Plan, x *X) {
	type held struct {
		b    dgo.Binary
		want []byte
		what string
	}
	all := make([][]held, len(p.Threads))
	check := func(h held) bool {
		switch {
		case h.b == nil:
			x.fail(`no-binary`, "%s: nothing was returned", h.what)
		case !h.b.Frozen():
			x.fail(`not-frozen`, "%s: the binary is not frozen", h.what)
		case !bytes.Equal(h.b.GoBytes(), h.want):
			g := h.b.GoBytes()
			at := 0
			for at < len(g) && at < len(h.want) && g[at] == h.want[at] {
				at++
			}
			x.fail(`wrong-bytes`, "%s: the binary has %d bytes, the reader delivered %d, the first difference is at %d", h.what, len(g), len(h.want), at)
		case !h.b.Equals(vf.Binary(h.want, true)) || h.b.HashCode() != vf.Binary(h.want, true).HashCode():
			x.fail(`not-equal`, "%s: the binary is not equal to one that was created from the same bytes", h.what)
		default:
			return true
		}
		return false
	}
	fns := make([]func(), len(p.Threads))
	for t := range fns {
		t := t
		fns[t] = func() {
			for oi, o := range p.Threads[t] {
				what := fmt.Sprintf("thread %d operation %d", t, oi)
				if o.K == `again` {
					if len(all[t]) > 0 && !check(all[t][o.A[0]%len(all[t])]) {
						return
					}
					continue
				}
				n, salt, ending, flags, slow := o.A[0], o.A[1], o.A[2], o.A[3], o.A[4]
				content := pattern(n, salt)
				want := append([]byte(nil), content...)
				var rd io.Reader
				var sr *scriptReader
				mk := func(c []byte, ending int) *scriptReader {
					sr := &scriptReader{x: x, content: c, ending: ending, slow: slow, scrib: flags&1 == 1}
					for _, c := range o.C {
						sr.sizes = append(sr.sizes, c.A[0])
					}
					return sr
				}
				switch o.K {
				case `buffer`:
					rd = bytes.NewBuffer(content)
				case `reader`:
					rd = bytes.NewReader(content)
				case `string`:
					rd = strings.NewReader(string(content))
				case `bufio`:
					sr = mk(content, ending)
					rd = bufio.NewReaderSize(sr, 16+salt%600)
				case `limited`:
					k := 0
					if n > 0 {
						k = salt % n
					}
					want = want[:k]
					rd = io.LimitReader(mk(content, rfEOF), int64(k))
				case `section`:
					k := 0
					if n > 0 {
						k = salt % n
					}
					want = want[k:]
					rd = io.NewSectionReader(bytes.NewReader(content), int64(k), int64(n-k))
				case `partial`: // some of it has been read before
					k := 0
					if n > 0 {
						k = salt % n
					}
					want = want[k:]
					switch salt % 3 {
					case 0:
						rd = bytes.NewReader(content)
					case 1:
						rd = bytes.NewBuffer(content)
					default:
						rd = strings.NewReader(string(content))
					}
					if _, err := io.ReadFull(rd, make([]byte, k)); err != nil {
						panic(err)
					}
				case `sized`:
					sr = mk(content, ending)
					rd = &sizedReader{sr}
				case `writes`:
					sr = mk(content, ending)
					rd = &writingReader{sr}
				case `bytes`:
					sr = mk(content, ending)
					rd = &byteReader{sr}
				case `file`:
					sr = mk(content, ending)
					rd = &fileReader{sr, []int{n, 0, n / 2, n + 100, n - 1}[salt%5]}
				case `multi`:
					k := 0
					if n > 0 {
						k = salt % n
					}
					sr = mk(content[k:], ending)
					rd = io.MultiReader(mk(content[:k], rfEOFData), bytes.NewReader(nil), sr)
				default:
					sr = mk(content, ending)
					rd = sr
				}
				var b dgo.Binary
				pan := try(func() { b = vf.BinaryFromData(rd) })
				var inj error
				if sr != nil {
					inj = sr.err
				}
				what = fmt.Sprintf("%s (%s, %d bytes, ending %d)", what, o.K, n, ending)
				switch {
				case inj != nil && pan == nil:
					l := -1
					if b != nil {
						l = len(b.GoBytes())
					}
					x.fail(`failure-not-reported`, "%s: the reader failed with %q after %d of its bytes and a binary of %d bytes was returned", what, inj, sr.pos, l)
					return
				case inj != nil && b != nil:
					x.fail(`binary-despite-failure`, "%s: the reader failed with %q and there is a binary", what, inj)
					return
				case inj != nil && !(reports(pan, inj) || errors.Is(asErr(pan), inj)):
					x.fail(`other-failure-reported`, "%s: the reader failed with %q, reported is %s", what, inj, panicText(pan))
					return
				case inj == nil && pan != nil:
					x.fail(`unexpected-failure`, "%s: the reader did not fail, but: %s", what, panicText(pan))
					return
				case inj == nil && sr != nil && sr.pos != len(sr.content):
					x.fail(`not-read-to-the-end`, "%s: %d of %d bytes were read", what, sr.pos, len(sr.content))
					return
				}
				if inj == nil {
					// what the bytes came from is reused
					for i := range content {
						content[i] = 0xDD
					}
					h := held{b, want, what}
					if !check(h) {
						return
					}
					bs := b.GoBytes()
					for i := range bs {
						bs[i] ^= 0xFF
					}
					all[t] = append(all[t], h)
				}
			}
		}
	}
	if !x.run(`reading binaries`, fns...) {
		return
	}
	x.solo(`binaries afterwards`, func() {
		for _, hs := range all {
			for _, h := range hs {
				if !check(h) {
					return
				}
				x.note(fmt.Sprint(len(h.want), h.b.HashCode()))
			}
		}
	})
}

func asErr(v interface{}) error {
	e, _ := v.(error)
	return e
}

func init() {
	register(&Scenario{
		Prop: `C15`, Gen: genC15, Exec: execC15, Race: 30, Chunk: 200, Quick: 40000, Thorough: 1000000,
		Rule:   `A run draws 1-3 clients that each create binaries from readers: scripted readers that deliver up to 100000 bytes in pieces of drawn sizes (empty reads, one byte, sizes around the usual buffer sizes), use all of the given buffer as scratch space, take any number of steps, and end with or after the last bytes, or fail at a drawn byte with one of seven kinds of failure; scripted readers that offer more than Read (a length, a file size that may be wrong, WriteTo, ReadByte); and the readers of the standard library over memory, also partly read before. Each returned binary must be frozen and equal to what was delivered, immediately, after more work by everybody, and after the source was overwritten; each injected failure must be reported and yield no binary.`,
		Real:   []string{`internal/binary.go`, `vf/binary.go`, `io`},
		Stub:   []string{`readers (scripted, with faults)`},
		Assume: []string{`readers keep to the contract of io.Reader; a reader does not return more than three empty reads in a row`},
	})
}

package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"testing/iotest"

	"github.com/chenquan/go-pkg/xio"
)

// Streams of every kind: the well-known readers and writers, and ones with all
// the methods a library may ask a stream for. What is read and written must
// not depend on them.

// richReader has the methods of a bytes.Reader on top of a fragReader's data.
type richReader struct {
	data []byte
	pos  int
	err  error
}

func (s *richReader) Read(p []byte) (int, error) {
	if s.pos >= len(s.data) {
		return 0, s.err
	}
	n := copy(p, s.data[s.pos:])
	s.pos += n
	return n, nil
}

func (s *richReader) ReadByte() (byte, error) {
	if s.pos >= len(s.data) {
		return 0, s.err
	}
	s.pos++
	return s.data[s.pos-1], nil
}

func (s *richReader) UnreadByte() error {
	if s.pos == 0 {
		return errors.New("at the beginning")
	}
	s.pos--
	return nil
}

func (s *richReader) Peek(n int) ([]byte, error) {
	l := s.data[s.pos:]
	if n > len(l) {
		return l, s.err
	}
	return l[:n], nil
}

func (s *richReader) Discard(n int) (int, error) {
	l := len(s.data) - s.pos
	if n > l {
		s.pos = len(s.data)
		return l, s.err
	}
	s.pos += n
	return n, nil
}

func (s *richReader) Next(n int) []byte {
	l := s.data[s.pos:]
	if n > len(l) {
		n = len(l)
	}
	s.pos += n
	return l[:n:n]
}

func (s *richReader) Len() int    { return len(s.data) - s.pos }
func (s *richReader) Size() int64 { return int64(len(s.data)) }
func (s *richReader) Buffered() int {
	return len(s.data) - s.pos
}

func (s *richReader) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(s.data)) {
		return 0, s.err
	}
	n := copy(p, s.data[off:])
	if n < len(p) {
		return n, s.err
	}
	return n, nil
}

func (s *richReader) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write(s.data[s.pos:])
	s.pos += n
	if err == nil && s.err != io.EOF {
		err = s.err
	}
	return int64(n), err
}

func (s *richReader) Close() error { s.pos = len(s.data); return nil }

// streamKinds gives readers of data that then fail with e; those that cannot
// give such an error are left out. The close functions end what they started.
var streamKinds = []struct {
	name string
	eof  bool // only ends, never fails
	f    func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func())
}{
	{"bufio.Reader", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		return bufio.NewReaderSize(fragOf(r, data, e), 16<<uint(r.Intn(9))), nil
	}},
	{"bufio.Reader, filled", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		b := bufio.NewReaderSize(fragOf(r, data, e), 16<<uint(r.Intn(9)))
		if len(data) > 0 {
			_, _ = b.Peek(1 + r.Intn(len(data)))
		}
		return b, nil
	}},
	{"bufio.ReadWriter", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		return bufio.NewReadWriter(bufio.NewReader(fragOf(r, data, e)), bufio.NewWriter(io.Discard)), nil
	}},
	{"bytes.Reader", true, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		return bytes.NewReader(data), nil
	}},
	{"bytes.Buffer", true, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		return bytes.NewBuffer(append([]byte(nil), data...)), nil
	}},
	{"strings.Reader", true, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		return strings.NewReader(string(data)), nil
	}},
	{"LimitedReader", true, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		more := append(append([]byte(nil), data...), "beyond the limit, not to be read"...)
		return &io.LimitedReader{R: fragOf(r, more, io.EOF), N: int64(len(data))}, nil
	}},
	{"LimitedReader over an error", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		return io.LimitReader(fragOf(r, data, e), int64(len(data)+1000)), nil
	}},
	{"SectionReader", true, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		more := append(append([]byte("0123"), data...), "beyond the section"...)
		return io.NewSectionReader(bytes.NewReader(more), 4, int64(len(data))), nil
	}},
	{"MultiReader", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		var l []io.Reader
		for len(data) > 0 && len(l) < 6 {
			n := 1 + r.Intn(len(data))
			l = append(l, bytes.NewReader(data[:n]))
			data = data[n:]
			if r.Intn(3) == 0 {
				l = append(l, strings.NewReader(""))
			}
		}
		l = append(l, fragOf(r, data, e))
		return io.MultiReader(l...), nil
	}},
	{"TeeReader", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		return io.TeeReader(fragOf(r, data, e), io.Discard), nil
	}},
	{"PipeReader", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		pr, pw := io.Pipe()
		k := 1 + r.Intn(200)
		done := t.spawn("writing to a pipe", func() {
			for len(data) > 0 {
				n := min(k, len(data))
				if _, err := pw.Write(data[:n]); err != nil {
					return
				}
				data = data[n:]
			}
			_ = pw.CloseWithError(e)
		})
		return pr, func() { pr.Close(); t.await(done, "writing to a pipe") }
	}},
	{"net.Conn", true, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		a, b := net.Pipe()
		done := t.spawn("writing to a connection", func() {
			_, _ = b.Write(data)
			b.Close()
		})
		return a, func() { a.Close(); t.await(done, "writing to a connection") }
	}},
	{"os.File", true, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		f, err := os.CreateTemp("", "stream")
		if err != nil {
			return bytes.NewReader(data), nil
		}
		_, _ = f.Write(data)
		_, _ = f.Seek(0, io.SeekStart)
		return f, func() { f.Close(); os.Remove(f.Name()) }
	}},
	{"one byte at a time", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		return iotest.OneByteReader(&richReader{data: data, err: e}), nil
	}},
	{"half at a time, data with the error", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		return iotest.HalfReader(&richReader{data: data, err: e}), nil
	}},
	{"rich reader", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		return &richReader{data: data, err: e}, nil
	}},
	{"pooled reader", false, func(t *T, r *rand.Rand, data []byte, e error) (io.Reader, func()) {
		b := xio.GetBufferReaderSize(fragOf(r, data, e), 1<<uint(r.Intn(12)))
		return b, func() { xio.PutBufferReader(b) }
	}},
}

func fragOf(r *rand.Rand, data []byte, e error) *fragReader {
	return &fragReader{data: append([]byte(nil), data...), r: r, mode: r.Intn(4), err: e, empties: -1}
}

// richWriter has every method a library may ask a writer for; whatever goes
// through any of them counts, up to the limit.
type richWriter struct {
	faultWriter
}

func (w *richWriter) WriteByte(c byte) error { _, err := w.Write([]byte{c}); return err }
func (w *richWriter) WriteString(s string) (int, error) {
	return w.Write([]byte(s))
}

func (w *richWriter) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}
func (w *richWriter) WriteAt(p []byte, off int64) (int, error) { return w.Write(p) }
func (w *richWriter) AvailableBuffer() []byte                  { return make([]byte, 0, 8) }
func (w *richWriter) Available() int                           { return 8 }
func (w *richWriter) Buffered() int                            { return 0 }
func (w *richWriter) Size() int                                { return 8 }
func (w *richWriter) Grow(int)                                 {}
func (w *richWriter) Flush() error                             { return nil }
func (w *richWriter) Close() error                             { return nil }

func kindVals(r *rand.Rand) ([]wireVal, []byte) {
	var vals []wireVal
	var wire []byte
	for i := 1 + r.Intn(8); i > 0; i-- {
		v := randVal(r, r.Intn(6) == 0)
		vals = append(vals, v)
		wire = append(wire, v.wire()...)
	}
	return vals, wire
}

// kindsC16 decodes from, and encodes to, streams of every kind.
func kindsC16(t *T) {
	for e := 0; e < t.n(25); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		for _, k := range streamKinds {
			vals, wire := kindVals(r)
			trail := []byte("trailing bytes")[:r.Intn(15)]
			t.setCase("stream kind %s: %v", k.name, vals)
			rd, end := k.f(t, r, append(append([]byte(nil), wire...), trail...), io.EOF)
			t.do("decoding a "+k.name, func() {
				for i, v := range vals {
					x, err := readVal(rd, v.kind)
					if err != nil || !x.equal(v) {
						t.failf("kinds", "value %d (%v) of a %s is read as %v, %v", i, v, k.name, x, err)
					}
				}
				rest, err := io.ReadAll(rd)
				if err != nil || !bytes.Equal(rest, trail) {
					t.failf("kinds", "behind %v a %s has %q left instead of %q, %v", vals, k.name, rest, trail, err)
				}
			})
			if end != nil {
				end()
			}
			t.eval()
			t.seen(fmt.Sprint(k.name, vals, len(wire)))
			t.count("stream_kinds", 1)
		}
		vals, wire := kindVals(r)
		writeKinds(t, r, func(name string, w io.Writer, flush func() error, got func() []byte) {
			t.setCase("writer kind %s: %v", name, vals)
			for _, v := range vals {
				if err := v.write(w); err != nil {
					t.failf("kinds", "writing %v to a %s: %v", v, name, err)
				}
			}
			if err := flush(); err != nil {
				t.failf("kinds", "flushing a %s: %v", name, err)
			}
			if b := got(); !bytes.Equal(b, wire) {
				t.failf("kinds", "a %s received %x instead of %x for %v", name, b, wire, vals)
			}
			t.eval()
			t.count("stream_kinds", 1)
		})
	}
}

func writeKinds(t *T, r *rand.Rand, f func(name string, w io.Writer, flush func() error, got func() []byte)) {
	none := func() error { return nil }
	var b bytes.Buffer
	f("bytes.Buffer", &b, none, b.Bytes)
	var sb strings.Builder
	f("strings.Builder", &sb, none, func() []byte { return []byte(sb.String()) })
	fw := &faultWriter{at: -1}
	bw := bufio.NewWriterSize(fw, 16<<uint(r.Intn(9)))
	f("bufio.Writer", bw, bw.Flush, fw.buf.Bytes)
	fw2 := &faultWriter{at: -1}
	rw := bufio.NewReadWriter(bufio.NewReader(strings.NewReader("")), bufio.NewWriterSize(fw2, 16<<uint(r.Intn(9))))
	f("bufio.ReadWriter", rw, rw.Flush, fw2.buf.Bytes)
	rich := &richWriter{faultWriter{at: -1}}
	f("rich writer", rich, none, rich.buf.Bytes)
	var b1, b2 bytes.Buffer
	f("MultiWriter", io.MultiWriter(&b1, &b2), none, func() []byte {
		if !bytes.Equal(b1.Bytes(), b2.Bytes()) {
			return nil
		}
		return b1.Bytes()
	})
	fw3 := &faultWriter{at: -1}
	pooled := xio.GetBufferWriterSize(fw3, 1<<uint(r.Intn(12)))
	f("pooled writer", pooled, pooled.Flush, fw3.buf.Bytes)
	xio.PutBufferWriter(pooled)
	if file, err := os.CreateTemp("", "stream"); err == nil {
		f("os.File", file, none, func() []byte { b, _ := os.ReadFile(file.Name()); return b })
		file.Close()
		os.Remove(file.Name())
	}
	pr, pw := io.Pipe()
	var all []byte
	done := t.spawn("reading from a pipe", func() { all, _ = io.ReadAll(pr) })
	f("PipeWriter", pw, none, func() []byte { pw.Close(); t.await(done, "reading from a pipe"); return all })
	pw.Close()
}

// kindsC17 cuts streams of every kind, at every position.
func kindsC17(t *T) {
	for e := 0; e < t.n(20); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		v := randVal(r, false)
		if e < 6 {
			v = []wireVal{{kind: 0, n: 1}, {kind: 1, n: 0xABCD}, {kind: 2, n: 0xFEDCBA98}, {kind: 3, b: []byte("hello, how are you")}, {kind: 3, b: bytes.Repeat([]byte("x"), 300)}, {kind: 2, n: 0xFEDCBA98}}[e]
		}
		pre := wireVal{kind: 1 + r.Intn(2), n: 77}
		wire := v.wire()
		for k := 0; k < len(wire); k++ {
			if k > 20 && r.Intn(len(wire)) > 20 {
				continue
			}
			for _, kind := range streamKinds {
				fault := error(io.EOF)
				if !kind.eof && r.Intn(3) > 0 {
					if fault = errCustom; r.Intn(2) == 0 {
						fault = knownErr(r)
					}
				}
				withPre := r.Intn(2) == 0
				data := wire[:k:k]
				if withPre {
					data = append(pre.wire(), data...)
				}
				t.setCase("a %s of %v cut at byte %d by %v, after another value %v", kind.name, v, k, fault, withPre)
				rd, end := kind.f(t, r, data, fault)
				t.do("decoding a cut "+kind.name, func() {
					if withPre {
						if x, err := readVal(rd, pre.kind); err != nil || !x.equal(pre) {
							t.failf("kinds", "the value before the fault is read as %v, %v", x, err)
						}
					}
					x, err := readVal(rd, v.kind)
					switch {
					case err == nil:
						t.failf("kinds", "no error, value %v", x)
					case x.n != 0 || x.b != nil:
						t.failf("kinds", "error %v together with value %v", err, x)
					case fault != io.EOF && !errors.Is(err, fault):
						t.failf("kinds", "reported as %v", err)
					}
				})
				if end != nil {
					end()
				}
				t.eval()
				t.seen(fmt.Sprint("kind", kind.name, v.kind, len(wire), k, fault == io.EOF))
				t.count("stream_kinds", 1)
			}
			// writers: the failure comes back from the call that meets it
			fault := errCustom
			if r.Intn(2) == 0 {
				fault = knownErr(r)
			}
			rich := &richWriter{faultWriter{at: k, err: fault, noAccept: r.Intn(2) == 0}}
			t.setCase("a rich writer failing at byte %d of %v by %v", k, v, fault)
			if err := v.write(rich); !errors.Is(err, fault) || rich.after != 0 || !bytes.HasPrefix(wire, rich.buf.Bytes()) {
				t.failf("kinds", "reported as %v, %d more writes", err, rich.after)
			}
			fw := &faultWriter{at: k, err: fault}
			bw := bufio.NewWriterSize(fw, 16<<uint(r.Intn(3)))
			t.setCase("a bufio.Writer over a writer failing at byte %d of %v by %v", k, v, fault)
			err := v.write(bw)
			if _, sticky := bw.Write(nil); err == nil && sticky != nil {
				t.failf("kinds", "the call reports no error, but the writer has failed with %v", sticky)
			}
			if err != nil && !errors.Is(err, fault) {
				t.failf("kinds", "reported as %v", err)
			}
			t.eval()
		}
	}
}

// kindsC18 takes pooled readers and writers for streams of every kind.
func kindsC18(t *T) {
	for e := 0; e < t.n(25); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		for _, k := range streamKinds {
			data := make([]byte, middle(r, 9000))
			r.Read(data)
			fault := error(io.EOF)
			if !k.eof && r.Intn(2) == 0 {
				fault = errCustom
			}
			size := ioSize(r)
			t.setCase("a reader of size %d for a %s of %d bytes ending in %v", size, k.name, len(data), fault)
			rd, end := k.f(t, r, data, fault)
			b := xio.GetBufferReaderSize(rd, size)
			t.do("reading a "+k.name, func() {
				if io.Reader(b) == rd {
					t.failf("kinds", "the stream itself was handed out")
				}
				if b.Size() < size || b.Buffered() != 0 {
					t.failf("kinds", "size %d, %d bytes buffered", b.Size(), b.Buffered())
				}
				all, err := io.ReadAll(b)
				if !bytes.Equal(all, data) || fault == io.EOF && err != nil || fault != io.EOF && err != fault {
					t.failf("kinds", "%d bytes read, %v", len(all), err)
				}
			})
			if r.Intn(4) > 0 {
				xio.PutBufferReader(b)
			}
			if end != nil {
				end()
			}
			t.eval()
			t.count("stream_kinds", 1)
			t.seen(fmt.Sprint("kind", k.name, len(data), size))
		}
		writeKinds(t, r, func(name string, w io.Writer, flush func() error, got func() []byte) {
			data := make([]byte, middle(r, 9000))
			r.Read(data)
			size := ioSize(r)
			t.setCase("a writer of size %d for a %s and %d bytes", size, name, len(data))
			b := xio.GetBufferWriterSize(w, size)
			if io.Writer(b) == w || b.Size() < size || b.Buffered() != 0 {
				t.failf("kinds", "size %d, %d bytes buffered, the stream itself: %v", b.Size(), b.Buffered(), io.Writer(b) == w)
			}
			for p := data; len(p) > 0; {
				n := 1 + r.Intn(len(p))
				if _, err := b.Write(p[:n]); err != nil {
					t.failf("kinds", "write: %v", err)
				}
				p = p[n:]
			}
			err := b.Flush()
			if err == nil {
				err = flush()
			}
			if x := got(); err != nil || !bytes.Equal(x, data) {
				t.failf("kinds", "%d bytes received, %v", len(x), err)
			}
			xio.PutBufferWriter(b)
			t.eval()
			t.count("stream_kinds", 1)
		})
	}
}

func (t *T) kinds() {
	t.quiet()
	switch t.prop {
	case "C16":
		kindsC16(t)
	case "C17":
		kindsC17(t)
	case "C18":
		kindsC18(t)
	}
}

package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"unsafe"

	"github.com/anishathalye/porcupine"
	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xring"
)

func init() {
	checks["C15"] = c15
	checks["C16"] = c16
	checks["C17"] = c17
	checks["C18"] = c18
	checks["C19"] = c19
}

// ---- C15 -----------------------------------------------------------------

// life is the time during which one holder owned a piece of memory.
type life struct {
	lo, hi   uintptr
	from, to int64
	what     string
	refs     []byte
}

func addr(b []byte) (lo, hi uintptr) {
	if cap(b) == 0 {
		return 0, 0
	}
	lo = uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return lo, lo + uintptr(cap(b))
}

// checkLives reports two holders of one byte at one time.
func checkLives(t *T, ls []*life) {
	sort.Slice(ls, func(i, j int) bool { return ls[i].lo < ls[j].lo })
	for i := range ls {
		for j := i + 1; j < len(ls) && ls[j].lo < ls[i].hi; j++ {
			a, b := ls[i], ls[j]
			if a.from < b.to && b.from < a.to {
				t.fail("shared", fmt.Sprintf("two holders own the same memory at one time: %s [%x,%x) %d..%d and %s [%x,%x) %d..%d", a.what, a.lo, a.hi, a.from, a.to, b.what, b.lo, b.hi, b.from, b.to), nil)
			}
		}
	}
}

// bufHolder is one goroutine that allocates, tags, verifies and frees.
type bufHolder struct {
	t     *T
	r     *rand.Rand
	id    int
	seq   int
	live  []*held
	lives []*life
	log   []string
	sizes []int
}

type held struct {
	b   []byte // full capacity
	tag byte
	l   *life
}

func (h *bufHolder) tag(full []byte, what string) *held {
	h.seq++
	x := &held{b: full, tag: byte(h.id*37 + h.seq)}
	for i := range full {
		full[i] = x.tag
	}
	lo, hi := addr(full)
	x.l = &life{lo: lo, hi: hi, from: now(), to: never, what: what}
	h.lives = append(h.lives, x.l)
	h.live = append(h.live, x)
	return x
}

func (h *bufHolder) verify(x *held, when string) {
	for i, c := range x.b {
		if c != x.tag {
			h.t.fail("overwritten", fmt.Sprintf("byte %d of %d of a held buffer (%s) was changed by somebody else %s", i, len(x.b), x.l.what, when), h.log)
		}
	}
}

func (h *bufHolder) drop(i int) *held {
	x := h.live[i]
	h.verify(x, "before it was freed")
	h.live = append(h.live[:i:i], h.live[i+1:]...)
	x.l.to = now()
	return x
}

func (h *bufHolder) note(format string, a ...interface{}) {
	if len(h.log) < 400 {
		h.log = append(h.log, fmt.Sprintf(format, a...))
	}
}

func (h *bufHolder) size() int { return h.sizes[h.r.Intn(len(h.sizes))] }

func (h *bufHolder) step() {
	r := h.r
	switch k := r.Intn(12); {
	case k < 4: // Malloc
		size, capacity := h.size(), h.size()
		if r.Intn(4) == 0 {
			capacity = []int{0, -1, size, size + 1, size - 1}[r.Intn(5)]
		}
		b := xbytes.Malloc(size, capacity)
		h.note("Malloc(%d,%d)", size, capacity)
		if len(b) != size || cap(b) < capacity || cap(b) < size {
			h.t.fail("size", fmt.Sprintf("Malloc(%d,%d) has length %d and capacity %d", size, capacity, len(b), cap(b)), h.log)
		}
		h.tag(b[:cap(b)], fmt.Sprintf("Malloc(%d,%d)", size, capacity))
	case k < 6:
		size := h.size()
		b := xbytes.MallocSize(size)
		h.note("MallocSize(%d)", size)
		if len(b) != size {
			h.t.fail("size", fmt.Sprintf("MallocSize(%d) has length %d", size, len(b)), h.log)
		}
		h.tag(b[:cap(b)], fmt.Sprintf("MallocSize(%d)", size))
	case k < 7: // decode
		n := h.size()
		if n > 60000 {
			n = 60000
		}
		var w bytes.Buffer
		if err := xbinary.WriteBytes(&w, bytes.Repeat([]byte{7}, n)); err != nil {
			h.t.failf("encode", "%v", err)
		}
		b, err := xbinary.ReadBytes(&w)
		h.note("ReadBytes of %d", n)
		if err != nil || len(b) != n {
			h.t.fail("decode", fmt.Sprintf("ReadBytes of %d bytes gave %d, %v", n, len(b), err), h.log)
		}
		for _, c := range b {
			if c != 7 {
				h.t.fail("decode", "wrong byte decoded", h.log)
			}
		}
		h.tag(b[:cap(b)], fmt.Sprintf("ReadBytes(%d)", n))
	case k < 8: // foreign and empty frees
		switch r.Intn(5) {
		case 0:
			xbytes.Free(nil)
			h.note("Free(nil)")
		case 1:
			xbytes.Free([]byte{})
			h.note("Free([]byte{})")
		case 2:
			n := h.size()
			xbytes.Free(make([]byte, r.Intn(n+1), n))
			h.note("Free(foreign %d)", n)
		case 3:
			n := h.size() + 3
			a := make([]byte, n)
			xbytes.Free(a[1 : 2 : n-1])
			h.note("Free(foreign a[1:2:%d])", n-1)
		case 4: // grown by append
			b := append([]byte(nil), make([]byte, h.size())...)
			b = append(b, 1, 2, 3)
			c := cap(b)
			xbytes.Free(b)
			h.note("Free(grown, cap %d)", c)
		}
	default:
		if len(h.live) == 0 {
			return
		}
		i := r.Intn(len(h.live))
		switch r.Intn(8) {
		case 0: // keep it
			h.verify(h.live[i], "while held")
		case 1: // free the head and the tail separately, as two slices
			x := h.drop(i)
			k := r.Intn(len(x.b) + 1)
			h.note("Free in two pieces %d+%d", k, len(x.b)-k)
			xbytes.Free(x.b[:k:k])
			xbytes.Free(x.b[k:])
		case 2: // free the tail, keep the head
			x := h.drop(i)
			k := r.Intn(len(x.b) + 1)
			h.note("Free(b[%d:]) of %d, head kept", k, len(x.b))
			h.tag(x.b[:k:k], "head kept")
			xbytes.Free(x.b[k:])
		case 3: // free the head, keep the tail
			x := h.drop(i)
			k := r.Intn(len(x.b) + 1)
			h.note("Free(b[:%d:%d]) of %d, tail kept", k, k, len(x.b))
			h.tag(x.b[k:], "tail kept")
			xbytes.Free(x.b[:k:k])
		case 4: // emptied
			x := h.drop(i)
			h.note("Free(b[:0]) of %d", len(x.b))
			xbytes.Free(x.b[:0])
		case 5: // some window
			x := h.drop(i)
			n := len(x.b)
			c := r.Intn(n + 1)
			b := r.Intn(c + 1)
			a := r.Intn(b + 1)
			h.note("Free(b[%d:%d:%d]) of %d", a, b, c, n)
			xbytes.Free(x.b[a:b:c])
		default:
			x := h.drop(i)
			h.note("Free of %d", len(x.b))
			xbytes.Free(x.b)
		}
	}
}

func (h *bufHolder) finish() {
	for _, x := range h.live {
		h.verify(x, "while held")
	}
}

func bufSizes(r *rand.Rand) []int {
	switch r.Intn(5) {
	case 4:
		// a size of any magnitude with its halves and its double
		s := middle(r, 12000)
		return []int{s, s / 2, s - s/2, s/2 + 1, 2 * s}
	case 0:
		return []int{0, 1, 2, 4}
	case 1:
		s := r.Intn(100)
		return []int{s, s + 1, s + 2, 2 * s, 0}
	case 2:
		k := 1 << uint(1+r.Intn(10))
		return []int{k - 1, k, k + 1, 2 * k, 16}
	}
	return []int{r.Intn(40), r.Intn(40), r.Intn(300), r.Intn(3000), []int{4096, 8192, 65535, 65536, 70000}[r.Intn(5)]}
}

func c15(t *T) {
	t.rule = "one evaluation = one history of allocations, decodings and frees (whole, re-sliced, split, grown, foreign, empty slices) by 1..4 goroutines that tag the full capacity of what they hold; the oracle checks length and capacity of each allocation, that tags stay intact while held, and offline that no byte had two holders at one time; the race detector watches the tags; non-trivial = memory was reused; distinct = distinct operation sequence"
	for e := 0; e < t.n(800); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		g := 1 + r.Intn(4)
		steps := 20 + r.Intn(60)
		sizes := bufSizes(r)
		nz := t.noise()
		t.setCase("%d: noise %s, %d goroutines, %d steps, sizes %v", e, nz, g, steps, sizes)
		hs := make([]*bufHolder, g)
		var fns []func()
		for i := range hs {
			h := &bufHolder{t: t, id: i, r: rand.New(rand.NewSource(r.Int63())), sizes: sizes}
			hs[i] = h
			fns = append(fns, func() {
				for k := 0; k < steps; k++ {
					h.step()
				}
				h.finish()
			})
		}
		t.par("allocations and frees", fns...)
		t.quiet()
		var ls []*life
		var log []string
		for _, h := range hs {
			h.finish()
			ls = append(ls, h.lives...)
			log = append(log, h.log...)
		}
		addrs := map[uintptr]int{}
		reused := 0
		for _, l := range ls {
			if l.lo != 0 {
				addrs[l.lo]++
				if addrs[l.lo] == 2 {
					reused++
				}
			}
		}
		checkLives(t, ls)
		t.eval()
		t.count("allocations", int64(len(ls)))
		t.count("addresses_reused", int64(reused))
		if reused > 0 {
			t.seen(strings.Join(log, ";"))
		}
		if e == 3 {
			t.sample(map[string]interface{}{"noise": nz, "goroutines": g, "log": log, "addresses_reused": reused})
		}
		runtime.KeepAlive(hs)
	}
}

// ---- fragmenting and failing streams --------------------------------------

// fragReader delivers data in odd pieces, then err.
type fragReader struct {
	data []byte
	pos  int
	r    *rand.Rand
	mode int
	err  error
	once bool // the error is given once; then more data would come
	more []byte
	gave bool
	// together: the last piece comes with the error
	together bool
	empties  int
}

func (f *fragReader) Read(p []byte) (int, error) {
	if f.pos >= len(f.data) {
		if f.once && f.gave {
			n := copy(p, f.more)
			f.more = f.more[n:]
			if n == 0 && len(p) > 0 {
				return 0, io.EOF
			}
			return n, nil
		}
		f.gave = true
		return 0, f.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if f.empties == 0 && f.r.Intn(2000) == 0 {
		f.empties = 1 + f.r.Intn(1500) // nothing for a long time
	}
	if f.empties > 0 {
		f.empties--
		return 0, nil
	}
	switch f.mode {
	case 0:
		n = 1
	case 1:
		n = 1 + f.r.Intn(len(p))
	case 2:
		if f.r.Intn(2) == 0 {
			return 0, nil
		}
		n = 1 + f.r.Intn(min(len(p), 3))
	case 3: // halves
		n = (len(p) + 1) / 2
	}
	n = copy(p[:n], f.data[f.pos:])
	f.pos += n
	if f.pos == len(f.data) && f.together {
		f.gave = true
		return n, f.err
	}
	// rubbish beyond what was delivered, as a reader may leave
	for i := n; i < min(len(p), n+8); i++ {
		p[i] = 0xEE
	}
	return n, nil
}

// faultWriter fails at byte at (never if negative).
type faultWriter struct {
	buf      bytes.Buffer
	at       int
	err      error
	failed   bool
	after    int
	keep     bool
	kept     [][]byte
	noAccept bool // a failing write accepts nothing
}

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.failed {
		f.after++
		return 0, f.err
	}
	if f.at >= 0 && f.buf.Len()+len(p) > f.at {
		f.failed = true
		n := f.at - f.buf.Len()
		if f.noAccept {
			n = 0
		}
		f.buf.Write(p[:n])
		return n, f.err
	}
	return f.buf.Write(p)
}

// wireVal is one value of a stream.
type wireVal struct {
	kind int // 0 bool 1 uint16 2 uint32 3 bytes
	n    uint32
	b    []byte
}

func (v wireVal) String() string {
	switch v.kind {
	case 0:
		return fmt.Sprint(v.n == 1)
	case 1:
		return fmt.Sprintf("u16:%d", v.n)
	case 2:
		return fmt.Sprintf("u32:%d", v.n)
	}
	return fmt.Sprintf("bytes[%d]", len(v.b))
}

// wire is the independent encoding.
func (v wireVal) wire() []byte {
	switch v.kind {
	case 0:
		return []byte{byte(v.n)}
	case 1:
		return binary.BigEndian.AppendUint16(nil, uint16(v.n))
	case 2:
		return binary.BigEndian.AppendUint32(nil, v.n)
	}
	return append(binary.BigEndian.AppendUint16(nil, uint16(len(v.b))), v.b...)
}

func (v wireVal) write(w io.Writer) error {
	switch v.kind {
	case 0:
		return xbinary.WriteBool(w, v.n == 1)
	case 1:
		return xbinary.WriteUint16(w, uint16(v.n))
	case 2:
		return xbinary.WriteUint32(w, v.n)
	}
	// a piece of somebody's memory
	mem := make([]byte, len(v.b)+12)
	for i := range mem {
		mem[i] = 0xa7
	}
	b := mem[4 : 4+copy(mem[4:], v.b)]
	err := xbinary.WriteBytes(w, b)
	for i, c := range mem {
		if k := i - 4; k >= 0 && k < len(v.b) && c != v.b[k] || (k < 0 || k >= len(v.b)) && c != 0xa7 {
			return fmt.Errorf("writing %d bytes changed the caller's memory at %d", len(v.b), k)
		}
	}
	return err
}

func readVal(r io.Reader, kind int) (v wireVal, err error) {
	v.kind = kind
	switch kind {
	case 0:
		var b bool
		b, err = xbinary.ReadBool(r)
		if b {
			v.n = 1
		}
	case 1:
		var n uint16
		n, err = xbinary.ReadUint16(r)
		v.n = uint32(n)
	case 2:
		v.n, err = xbinary.ReadUint32(r)
	default:
		v.b, err = xbinary.ReadBytes(r)
	}
	return
}

func (v wireVal) equal(w wireVal) bool {
	return v.kind == w.kind && v.n == w.n && bytes.Equal(v.b, w.b)
}

func randVal(r *rand.Rand, big bool) wireVal {
	v := wireVal{kind: r.Intn(4)}
	edge := []uint32{0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xff00, 0xffff, 0x10000, 0xff0000, 0x7fffffff, 0x80000000, 0xff000000, 0xffffffff, 0x01020304}
	n := edge[r.Intn(len(edge))]
	if r.Intn(2) == 0 {
		n = r.Uint32()
	}
	switch v.kind {
	case 0:
		v.n = n & 1
	case 1:
		v.n = n & 0xffff
	case 2:
		v.n = n
	case 3:
		l := r.Intn(20)
		switch r.Intn(6) {
		case 0:
			l = 0
		case 1:
			l = 250 + r.Intn(20)
		case 2:
			if big {
				l = []int{65535, 65534, 65536 / 2, 65280, 32767, 32768, 40000, 256, 255, 1000}[r.Intn(10)]
			}
		}
		v.b = make([]byte, l)
		r.Read(v.b)
		if r.Intn(4) == 0 && l > 0 {
			v.b = bytes.Repeat([]byte{byte(l)}, l)
		}
	}
	return v
}

// ---- C16 -----------------------------------------------------------------

func c16(t *T) {
	t.rule = "one evaluation = one sequence of values encoded and decoded by 1..4 goroutines, each with its own stream whose reader fragments the data (single bytes, random pieces, empty reads, data with end of stream); the oracle compares the wire form with an independent encoder, the decoded values and the number of consumed bytes after every value, and re-checks every decoded and every encoded byte string at the end; non-trivial = the sequence has a multi-byte value; distinct = distinct sequence and fragmentation"
	for e := 0; e < t.n(4000); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		g := 1
		if e%4 == 0 {
			g = 2 + r.Intn(3)
		}
		nz := t.noise()
		t.setCase("%d: noise %s, %d goroutines", e, nz, g)
		descs := make([]string, g)
		nontrivial := make([]bool, g)
		var fns []func()
		for i := 0; i < g; i++ {
			i, rr := i, rand.New(rand.NewSource(r.Int63()))
			fns = append(fns, func() { descs[i], nontrivial[i] = c16one(t, rr, e%10 == 0) })
		}
		if g == 1 {
			fns[0]()
		} else {
			t.par("encoding and decoding", fns...)
		}
		t.quiet()
		for i, d := range descs {
			t.eval()
			if nontrivial[i] {
				t.seen(d)
			}
		}
		if e == 8 {
			t.sample(map[string]interface{}{"noise": nz, "sequences": descs})
		}
	}
}

func c16one(t *T, r *rand.Rand, big bool) (string, bool) {
	n := 1 + r.Intn(14)
	vals := make([]wireVal, n)
	inputs := make([][]byte, n)
	var want []byte
	out := &faultWriter{at: -1}
	nontrivial := false
	var log []string
	for i := range vals {
		v := randVal(r, big)
		vals[i] = wireVal{v.kind, v.n, append([]byte(nil), v.b...)}
		inputs[i] = v.b
		if v.kind > 0 {
			nontrivial = true
		}
		log = append(log, v.String())
		if err := v.write(out); err != nil {
			t.fail("encode", fmt.Sprintf("writing %v: %v", v, err), log)
		}
		want = append(want, v.wire()...)
		if !bytes.Equal(out.buf.Bytes(), want) {
			t.fail("wire", fmt.Sprintf("wrong wire form after %v", v), log)
		}
	}
	trail := []byte("trailing bytes")
	fr := &fragReader{data: append(append([]byte(nil), want...), trail[:r.Intn(2)*len(trail)]...), r: r, mode: r.Intn(5), err: io.EOF, together: r.Intn(2) == 0}
	pos := 0
	got := make([]wireVal, n)
	for i, v := range vals {
		x, err := readVal(fr, v.kind)
		if err != nil {
			t.fail("decode", fmt.Sprintf("reading %v (fragmentation %d, data with end %v): %v", v, fr.mode, fr.together, err), log)
		}
		if !x.equal(v) {
			t.fail("decode", fmt.Sprintf("%v read back as %v (fragmentation %d)", v, x, fr.mode), log)
		}
		got[i] = x
		pos += len(v.wire())
		if fr.pos != pos {
			t.fail("consumed", fmt.Sprintf("reading %v consumed up to byte %d instead of %d", v, fr.pos, pos), log)
		}
	}
	// later use of the codec and of the pool disturbs nothing
	for i := 0; i < 12; i++ {
		v := randVal(r, false)
		if v.kind == 3 && r.Intn(2) == 0 {
			v.b = bytes.Repeat([]byte{0xA5}, len(vals[r.Intn(n)].b))
		}
		var w bytes.Buffer
		if err := v.write(&w); err != nil {
			t.fail("encode", fmt.Sprintf("writing %v: %v", v, err), log)
		}
		x, err := readVal(&w, v.kind)
		if err != nil || !x.equal(v) {
			t.fail("decode", fmt.Sprintf("%v read back as %v, %v", v, x, err), log)
		}
		for k := range x.b {
			x.b[k] = 0x5A
		}
	}
	for i, v := range vals {
		if !got[i].equal(v) {
			t.fail("changed", fmt.Sprintf("decoded value %d (%v) changed later", i, v), log)
		}
		if !bytes.Equal(inputs[i], v.b) {
			t.fail("changed", fmt.Sprintf("encoded value %d (%v) was changed by the encoder", i, v), log)
		}
	}
	t.count("values", int64(n+12))
	return fmt.Sprint(log, fr.mode, fr.together, len(want)), nontrivial
}

// ---- C17 -----------------------------------------------------------------

var errCustom = errors.New("custom stream error")

func c17(t *T) {
	t.rule = "one evaluation = one value of one kind read from a stream cut at one byte position (end of stream, custom error, unexpected end, with or without the last data, fault once or for ever), or written to a writer failing at one byte position; every position of every value up to 40 bytes and sampled ones beyond are tried; the oracle requires the error, the stream's own error, no value and no further bytes; non-trivial = the fault lies inside the value; distinct = distinct (kind, length, position, fault)"
	for e := 0; e < t.n(300); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		t.noise()
		v := randVal(r, e%6 == 0)
		if e < 8 {
			v = []wireVal{{kind: 0, n: 1}, {kind: 0}, {kind: 1, n: 0xABCD}, {kind: 2, n: 0xFEDCBA98}, {kind: 3, b: []byte{}}, {kind: 3, b: []byte{9}}, {kind: 3, b: []byte("hello")}, {kind: 3, b: make([]byte, 65535)}}[e]
		}
		t.setCase("%d: %v", e, v)
		if e%5 == 0 {
			t.par("failing streams", func() { c17val(t, rand.New(rand.NewSource(r.Int63())), v) }, func() { c17val(t, rand.New(rand.NewSource(1)), v) })
		} else {
			c17val(t, r, v)
		}
	}
	t.quiet()
	// many short values
	for e := 0; e < t.n(1500); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		v := wireVal{kind: e % 4, n: uint32(r.Int63())}
		switch v.kind {
		case 0:
			v.n &= 1
		case 1:
			v.n &= 0xffff
		case 3:
			v.n, v.b = 0, make([]byte, r.Intn(4))
			r.Read(v.b)
		}
		t.setCase("short %d: %v", e, v)
		c17val(t, r, v)
	}
	// what the length prefix cannot express
	for i := 0; i < t.n(60); i++ {
		n := []int{65536, 65537, 65536 + 5, 70000, 131072, 131073, 1 << 20, 65536 + t.rng.Intn(200000)}[i%8]
		t.setCase("too long: %d", n)
		w := &faultWriter{at: -1}
		b := make([]byte, n)
		err := xbinary.WriteBytes(w, b)
		if err == nil {
			t.failf("too-long", "writing a byte string of %d bytes reports no error", n)
		}
		if w.buf.Len() != 0 {
			t.failf("too-long", "a refused byte string of %d bytes still sent %d bytes", n, w.buf.Len())
		}
		t.eval()
		t.seen(fmt.Sprint("toolong", n))
	}
}

func c17val(t *T, r *rand.Rand, v wireVal) {
	wire := v.wire()
	var cuts []int
	for k := 0; k <= len(wire); k++ {
		if k <= 40 || k >= len(wire)-3 || r.Intn(len(wire)) < 20 {
			cuts = append(cuts, k)
		}
	}
	prefix := []wireVal{{kind: 1, n: 7}, {kind: 3, b: []byte("before")}}
	var pre []byte
	for _, p := range prefix {
		pre = append(pre, p.wire()...)
	}
	for _, k := range cuts {
		for f := 0; f < 5; f++ {
			withPrefix := r.Intn(4) == 0
			fr := &fragReader{r: r, mode: r.Intn(5), together: r.Intn(2) == 0}
			if withPrefix {
				fr.data = append(fr.data, pre...)
			}
			fr.data = append(fr.data, wire[:k]...)
			switch f {
			case 0:
				fr.err = io.EOF
			case 1:
				fr.err = errCustom
			case 2:
				fr.err = io.ErrUnexpectedEOF
			case 3: // recovers later: the failure must not be skipped
				fr.err = fmt.Errorf("wrapped: %w", errCustom)
				fr.once, fr.more = true, append(append([]byte(nil), wire[k:]...), 1, 2, 3, 4, 5, 6)
			case 4:
				for fr.err = io.EOF; fr.err == io.EOF; {
					fr.err = knownErr(r)
				}
			}
			if withPrefix {
				for _, p := range prefix {
					x, err := readVal(fr, p.kind)
					if err != nil && !(k == 0 && fr.together) || err == nil && !x.equal(p) {
						t.failf("before", "a value before the fault was read as %v, %v", x, err)
					}
				}
			}
			x, err := readVal(fr, v.kind)
			desc := fmt.Sprintf("%v cut at byte %d of %d by %v (fragmentation %d, with data %v, once %v)", v, k, len(wire), fr.err, fr.mode, fr.together, fr.once)
			switch {
			case k == len(wire):
				// complete: the fault lies behind the value, or comes with its last byte
				if err == nil && !x.equal(v) {
					t.failf("value", "%s: read as %v", desc, x)
				}
				if err != nil && (!fr.together || f == 0) {
					t.failf("spurious", "%s: a complete value gave %v", desc, err)
				}
			case err == nil:
				if fr.together && fr.once && (k == 0 && withPrefix || k == 2 && v.kind == 3) {
					// A fault that comes together with all the data asked
					// for and is not repeated: no reader may do that.
					break
				}
				t.failf("hidden", "%s: no error, value %v", desc, x)
			default:
				if x.n != 0 || x.b != nil {
					t.failf("value-with-error", "%s: error %v together with value %v", desc, err, x)
				}
				own := f > 0
				if own && !(k == 0 && withPrefix && fr.together) && !errors.Is(err, fr.err) {
					t.failf("other-error", "%s: reported as %v", desc, err)
				}
			}
			t.eval()
			if k > 0 && k < len(wire) {
				t.seen(fmt.Sprint(v.kind, len(wire), k, f, fr.mode, fr.together))
			}
		}
		// a writer failing there
		for f := 0; f < 2 && k < len(wire); f++ {
			fault := errCustom
			if r.Intn(2) == 0 {
				fault = knownErr(r)
			}
			w := &faultWriter{at: k, err: fault, noAccept: f == 1}
			err := v.write(w)
			if err == nil || !errors.Is(err, fault) {
				t.failf("write-hidden", "%v: a writer failing at byte %d of %d is reported as %v", v, k, len(wire), err)
			}
			if w.after != 0 {
				t.failf("write-on", "%v: %d more writes after the writer failed at byte %d", v, w.after, k)
			}
			if !bytes.HasPrefix(wire, w.buf.Bytes()) {
				t.failf("wire", "%v: wrong bytes before the writer failed at byte %d", v, k)
			}
			t.eval()
			t.seen(fmt.Sprint("w", v.kind, len(wire), k, f))
		}
	}
	t.count("fault_positions", int64(len(cuts)))
	if v.kind == 3 && len(wire) > 4 && len(wire) < 20 {
		t.sample(map[string]interface{}{"value": v.String(), "cuts": cuts, "faults": "end, custom, unexpected end, wrapped once, closed pipe; with and without data; writer"})
	}
}

// ---- C18 -----------------------------------------------------------------

// tagStream yields n bytes of its own tag and then err; it records misuse.
type tagStream struct {
	tag   byte
	left  int
	err   error
	reads int
	gone  bool // put back: must not be read any more
	t     *T
}

func (s *tagStream) Read(p []byte) (int, error) {
	s.reads++
	if s.gone {
		s.t.failf("late-read", "a buffered reader that was put back reads on from its stream")
	}
	if s.left == 0 {
		return 0, s.err
	}
	n := min(len(p), s.left)
	for i := 0; i < n; i++ {
		p[i] = s.tag
	}
	s.left -= n
	return n, nil
}

type tagSink struct {
	got  []byte
	fail int // byte at which it fails, or -1
	gone bool
	t    *T
}

func (s *tagSink) Write(p []byte) (int, error) {
	if s.gone {
		s.t.failf("late-write", "a buffered writer that was put back writes on to its stream")
	}
	if s.fail >= 0 && len(s.got)+len(p) > s.fail {
		n := s.fail - len(s.got)
		s.got = append(s.got, p[:n]...)
		return n, errCustom
	}
	s.got = append(s.got, p...)
	return len(p), nil
}

var ioSizes = []int{16, 17, 64, 100, 512, 1024, 4095, 4096, 4097, 8192, 10000, 0, 1, -1}

func ioSize(r *rand.Rand) int {
	if r.Intn(16) == 0 {
		return []int{16384, 32768, 65535, 65536, 65537, 70000, 1 << 17}[r.Intn(7)]
	}
	if r.Intn(6) == 0 {
		return middle(r, 16000)
	}
	return ioSizes[r.Intn(len(ioSizes))]
}

type ioUser struct {
	t       *T
	r       *rand.Rand
	id      int
	readers []*rheld
	writers []*wheld
	ids     []*life // identity of what was held, and when
	log     []string
	n       int
}

type rheld struct {
	br *bufio.Reader
	s  *tagStream
	l  *life
	// expected sequence
	total int
	got   int
	outer *rheld
}

type wheld struct {
	bw    *bufio.Writer
	s     *tagSink
	l     *life
	wrote []byte
	inner *wheld
}

func (u *ioUser) note(f string, a ...interface{}) {
	if len(u.log) < 300 {
		u.log = append(u.log, fmt.Sprintf(f, a...))
	}
}

func (u *ioUser) hold(p unsafe.Pointer, what string) *life {
	l := &life{lo: uintptr(p), hi: uintptr(p) + 1, from: now(), to: never, what: what}
	u.ids = append(u.ids, l)
	return l
}

func (u *ioUser) takeReader() {
	size := ioSize(u.r)
	u.n++
	h := &rheld{}
	var src io.Reader
	nested := u.r.Intn(4) == 0 && len(u.readers) > 0
	if nested {
		// take from a held buffered reader: its remaining data
		o := u.readers[u.r.Intn(len(u.readers))]
		for _, x := range u.readers {
			if x.outer == o {
				nested = false // somebody reads from it already
			}
		}
		if nested {
			h.outer, h.s, src = o, o.s, o.br
			h.total = o.total - o.got
		}
	}
	if src == nil {
		h.s = &tagStream{tag: byte(u.id*61 + u.n), left: u.r.Intn(9000), err: io.EOF, t: u.t}
		if u.r.Intn(3) == 0 {
			h.s.err = errCustom
		}
		h.total = h.s.left
		src = h.s
	}
	def := u.r.Intn(3) == 0
	if def {
		h.br = xio.GetBufferReader(src)
		size = 4096
	} else {
		h.br = xio.GetBufferReaderSize(src, size)
	}
	u.note("take reader size %d nested %v stream %d bytes", size, h.outer != nil, h.total)
	if h.br.Size() < size {
		u.t.fail("size", fmt.Sprintf("a buffered reader of size %d was taken with size %d requested", h.br.Size(), size), u.log)
	}
	if h.outer != nil && h.br == h.outer.br {
		u.t.fail("shared", "taking a buffered reader for a buffered reader gave that very reader", u.log)
	}
	if h.br.Buffered() != 0 {
		u.t.fail("stale", fmt.Sprintf("a reader just taken has %d bytes buffered", h.br.Buffered()), u.log)
	}
	if u.r.Intn(2) == 0 {
		if h.br.UnreadByte() == nil {
			u.t.fail("stale", "a reader just taken can unread a byte", u.log)
		}
	}
	h.l = u.hold(unsafe.Pointer(h.br), "reader")
	u.readers = append(u.readers, h)
}

func (u *ioUser) useReader(h *rheld) {
	for _, x := range u.readers {
		if x.outer == h {
			return // its data belongs to the nested reader
		}
	}
	n := u.r.Intn(600)
	switch u.r.Intn(5) {
	case 0: // to the end
		for {
			b, err := h.br.ReadByte()
			if err != nil {
				if h.got != h.total {
					u.t.fail("lost", fmt.Sprintf("the stream of %d bytes ended after %d with %v", h.total, h.got, err), u.log)
				}
				if err != h.s.err {
					u.t.fail("stale", fmt.Sprintf("the stream ended with %v instead of %v", err, h.s.err), u.log)
				}
				return
			}
			u.gotByte(h, b)
		}
	case 1:
		p, err := h.br.Peek(min(n, 16))
		for _, b := range p {
			if b != h.s.tag {
				u.t.fail("stale", fmt.Sprintf("peeked byte %d of another stream", b), u.log)
			}
		}
		if err != nil && err != h.s.err {
			u.t.fail("stale", fmt.Sprintf("peek gave %v", err), u.log)
		}
		if len(p) > h.total-h.got {
			u.t.fail("stale", "peeked more than the stream holds", u.log)
		}
	default:
		p := make([]byte, n)
		k, err := io.ReadFull(h.br, p)
		for _, b := range p[:k] {
			u.gotByte(h, b)
		}
		if k < n && h.got != h.total {
			u.t.fail("lost", fmt.Sprintf("the stream of %d bytes gave %d and then %v", h.total, h.got, err), u.log)
		}
	}
}

func (u *ioUser) gotByte(h *rheld, b byte) {
	h.got++
	if b != h.s.tag || h.got > h.total {
		u.t.fail("stale", fmt.Sprintf("byte %d of a stream of %d bytes is %d, not the stream's %d", h.got, h.total, b, h.s.tag), u.log)
	}
}

func (u *ioUser) putReader(i int) {
	h := u.readers[i]
	for _, x := range u.readers {
		if x.outer == h {
			return
		}
	}
	u.note("put reader after %d of %d bytes", h.got, h.total)
	u.readers = append(u.readers[:i:i], u.readers[i+1:]...)
	h.l.to = now()
	if h.outer == nil {
		h.s.gone = true
	}
	xio.PutBufferReader(h.br)
	// what it has buffered is gone with it: its source goes back, too
	for j, x := range u.readers {
		if x == h.outer {
			u.putReader(j)
			break
		}
	}
}

func (u *ioUser) takeWriter() {
	size := ioSize(u.r)
	u.n++
	h := &wheld{}
	var dst io.Writer
	if u.r.Intn(4) == 0 && len(u.writers) > 0 {
		o := u.writers[u.r.Intn(len(u.writers))]
		busy := o.s.fail >= 0
		for _, x := range u.writers {
			if x.inner == o {
				busy = true
			}
		}
		if !busy {
			h.inner, h.s, dst = o, o.s, o.bw
		}
	}
	if dst == nil {
		h.s = &tagSink{fail: -1, t: u.t}
		if u.r.Intn(3) == 0 {
			h.s.fail = u.r.Intn(3000)
		}
		dst = h.s
	}
	if u.r.Intn(3) == 0 {
		h.bw = xio.GetBufferWriter(dst)
		size = 4096
	} else {
		h.bw = xio.GetBufferWriterSize(dst, size)
	}
	u.note("take writer size %d nested %v", size, h.inner != nil)
	if h.bw.Size() < size {
		u.t.fail("size", fmt.Sprintf("a buffered writer of size %d was taken with size %d requested", h.bw.Size(), size), u.log)
	}
	if h.inner != nil && h.bw == h.inner.bw {
		u.t.fail("shared", "taking a buffered writer for a buffered writer gave that very writer", u.log)
	}
	if h.bw.Buffered() != 0 {
		u.t.fail("stale", fmt.Sprintf("a writer just taken has %d bytes buffered", h.bw.Buffered()), u.log)
	}
	h.l = u.hold(unsafe.Pointer(h.bw), "writer")
	u.writers = append(u.writers, h)
}

func (u *ioUser) useWriter(h *wheld) {
	for _, x := range u.writers {
		if x.inner == h {
			return
		}
	}
	p := bytes.Repeat([]byte{byte(u.id*61 + u.r.Intn(50))}, u.r.Intn(3000))
	k, err := h.bw.Write(p)
	if err != nil {
		if h.s.fail < 0 {
			u.t.fail("stale", fmt.Sprintf("a writer over a good stream reports %v", err), u.log)
		}
		return
	}
	if k != len(p) {
		u.t.fail("lost", "short write", u.log)
	}
	h.wrote = append(h.wrote, p...)
	if u.r.Intn(3) == 0 {
		u.flush(h)
	}
}

func (u *ioUser) flush(h *wheld) {
	err := h.bw.Flush()
	if h.s.fail >= 0 {
		if len(h.wrote) > h.s.fail && err == nil {
			u.t.fail("lost", "a writer over a failed stream reports no error", u.log)
		}
		return
	}
	if err != nil {
		u.t.fail("stale", fmt.Sprintf("a writer over a good stream reports %v", err), u.log)
	}
	if h.inner == nil && !bytes.Equal(h.s.got, h.wrote) {
		u.t.fail("stale", fmt.Sprintf("%d bytes were written through a buffer, its stream got %d", len(h.wrote), len(h.s.got)), u.log)
	}
}

func (u *ioUser) putWriter(i int) {
	h := u.writers[i]
	for _, x := range u.writers {
		if x.inner == h {
			return
		}
	}
	if u.r.Intn(2) == 0 {
		u.flush(h)
	} else if h.inner != nil {
		u.flush(h)
	}
	u.note("put writer with %d bytes unflushed", h.bw.Buffered())
	u.writers = append(u.writers[:i:i], u.writers[i+1:]...)
	h.l.to = now()
	if h.inner != nil {
		h.inner.wrote = append(h.inner.wrote, h.wrote...)
	} else {
		h.s.gone = true
	}
	xio.PutBufferWriter(h.bw)
}

func c18(t *T) {
	t.rule = "one evaluation = one history of takes, uses and puts of buffered readers and writers of any sizes by 1..4 goroutines over good, failing and nested streams, with foreign buffers put into the pools; every stream carries its own tag; the oracle checks sizes, emptiness, every byte and error that comes through, that streams of put buffers are not touched, and offline that no buffer had two holders at one time; non-trivial = a buffer was reused; distinct = distinct operation sequence"
	for e := 0; e < t.n(1200); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		g := 1 + r.Intn(4)
		nz := t.noise()
		steps := 20 + r.Intn(40)
		t.setCase("%d: noise %s, %d goroutines, %d steps", e, nz, g, steps)
		us := make([]*ioUser, g)
		var fns []func()
		for i := range us {
			u := &ioUser{t: t, id: i, r: rand.New(rand.NewSource(r.Int63()))}
			us[i] = u
			fns = append(fns, func() {
				for k := 0; k < steps; k++ {
					switch u.r.Intn(10) {
					case 0, 1:
						u.takeReader()
					case 2, 3:
						u.takeWriter()
					case 4:
						if len(u.readers) > 0 {
							u.putReader(u.r.Intn(len(u.readers)))
						}
					case 5:
						if len(u.writers) > 0 {
							u.putWriter(u.r.Intn(len(u.writers)))
						}
					case 6:
						// foreign ones, dirty, of any size
						n := ioSize(u.r)
						if u.r.Intn(2) == 0 {
							br := bufio.NewReaderSize(strings.NewReader(strings.Repeat("\x00", 5000)), n)
							_, _ = br.Peek(min(10, br.Size()))
							xio.PutBufferReader(br)
							u.note("put foreign reader of size %d", n)
						} else {
							bw := bufio.NewWriterSize(&tagSink{fail: 0, t: u.t}, n)
							_, _ = bw.WriteString(strings.Repeat("\x00", u.r.Intn(2*n+40)))
							xio.PutBufferWriter(bw)
							u.note("put foreign writer of size %d", n)
						}
					case 7:
						if len(u.writers) > 0 {
							u.useWriter(u.writers[u.r.Intn(len(u.writers))])
						}
					default:
						if len(u.readers) > 0 {
							u.useReader(u.readers[u.r.Intn(len(u.readers))])
						}
					}
				}
				for len(u.readers) > 0 {
					u.useReader(u.readers[len(u.readers)-1])
					u.putReader(len(u.readers) - 1)
				}
				for len(u.writers) > 0 {
					u.useWriter(u.writers[len(u.writers)-1])
					u.putWriter(len(u.writers) - 1)
				}
			})
		}
		t.par("takes, uses and puts", fns...)
		t.quiet()
		var ls []*life
		var log []string
		for _, u := range us {
			ls = append(ls, u.ids...)
			log = append(log, u.log...)
		}
		ids := map[uintptr]int{}
		reused := 0
		for _, l := range ls {
			ids[l.lo]++
			if ids[l.lo] == 2 {
				reused++
			}
		}
		checkLives(t, ls)
		t.eval()
		t.count("takes", int64(len(ls)))
		t.count("reused", int64(reused))
		if reused > 0 {
			t.seen(strings.Join(log, ";"))
		}
		if e == 3 {
			t.sample(map[string]interface{}{"noise": nz, "goroutines": g, "log": log})
		}
	}
}

// ---- C19 -----------------------------------------------------------------

// ringModel: the list of the last n elements.
func ringModel(n int) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return "" },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			s, o := st.(string), in.(hop)
			if o.Op == "take" {
				return out.(string) == s, s
			}
			s += fmt.Sprintf("%v,", o.In)
			if strings.Count(s, ",") > n {
				s = s[strings.IndexByte(s, ',')+1:]
			}
			return true, s
		},
	}
}

func ringText(l []interface{}) string {
	var sb strings.Builder
	for _, v := range l {
		fmt.Fprintf(&sb, "%v,", v)
	}
	return sb.String()
}

func c19(t *T) {
	t.rule = "one evaluation = one ring: (a) a sequential history of adds and reports compared with a list, reports being kept, modified and appended to; (b) a concurrent history decided by porcupine against the last-n list; (c) a longer concurrent storm whose reports must be consecutive windows per adder; non-trivial = the ring wrapped, or operations overlapped; distinct = distinct history"
	for e := 0; e < t.n(4000); e++ {
		c19seq(t, e)
	}
	for e := 0; e < t.n(4000); e++ {
		c19lin(t, e)
	}
	for e := 0; e < t.n(150); e++ {
		c19storm(t, e)
	}
	for _, n := range []int{0, -1, -100} {
		if _, panicked := try(func() { xring.NewRing(n) }); !panicked {
			t.failf("accepted", "a ring of size %d was created", n)
		}
	}
}

func c19seq(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	if e%100 == 0 {
		t.quiet()
	}
	n := 1 + r.Intn(9)
	if r.Intn(10) == 0 {
		n = 50 + r.Intn(100)
	}
	t.setCase("sequential %d: size %d", e, n)
	ring := xring.NewRing(n)
	var all []interface{}
	type kept struct {
		l    []interface{}
		text string
	}
	var keeps []kept
	wrapped := false
	for i := r.Intn(4*n + 3); i >= 0; i-- {
		if r.Intn(3) > 0 {
			var v interface{} = len(all)
			switch r.Intn(6) {
			case 0:
				v = nil
			case 1:
				v = fmt.Sprint("s", len(all))
			}
			ring.Add(v)
			all = append(all, v)
		}
		for k := r.Intn(3); k > 0; k-- {
			got := ring.Take()
			w := all
			if len(w) > n {
				w = w[len(w)-n:]
				wrapped = true
			}
			if len(got) != len(w) {
				t.failf("wrong", "ring of %d after %d adds reports %d elements", n, len(all), len(got))
			}
			for j := range w {
				if got[j] != w[j] {
					t.failf("wrong", "ring of %d after %d adds reports %v instead of %v", n, len(all), got, w)
				}
			}
			switch r.Intn(3) {
			case 0:
				keeps = append(keeps, kept{got, ringText(got)})
			case 1:
				for j := range got {
					got[j] = "scribble"
				}
			case 2:
				got = append(got[:len(got)/2], "more", "more")
				_ = got
			}
		}
	}
	for _, k := range keeps {
		if ringText(k.l) != k.text {
			t.failf("changed", "a reported list changed from %s to %s", k.text, ringText(k.l))
		}
	}
	t.eval()
	t.count("adds", int64(len(all)))
	if wrapped {
		t.seen(fmt.Sprint(n, ringText(all), len(keeps)))
	}
}

func c19lin(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	n := 1 + r.Intn(4)
	clients := 2 + r.Intn(3)
	per := 1 + r.Intn(5)
	ring := xring.NewRing(n)
	h := newHist(clients + 1)
	for i := r.Intn(2*n + 1); i > 0; i-- {
		v := fmt.Sprint("p", i)
		c := now()
		ring.Add(v)
		h.add(hop{Client: clients, Op: "add", In: v, Call: c, Ret: now()})
	}
	nz := t.noise()
	t.setCase("concurrent %d: noise %s size %d, %d x %d", e, nz, n, clients, per)
	kept := make([][][]interface{}, clients)
	texts := make([][]string, clients)
	var fns []func()
	for c := 0; c < clients; c++ {
		c, seed := c, r.Int63()
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			for i := 0; i < per; i++ {
				o := hop{Client: c}
				if rr.Intn(2) == 0 {
					o.Op, o.In = "add", fmt.Sprintf("%d.%d", c, i)
					o.Call = now()
					ring.Add(o.In)
					o.Ret = now()
				} else {
					o.Op = "take"
					o.Call = now()
					l := ring.Take()
					o.Ret = now()
					o.Out = ringText(l)
					if rr.Intn(2) == 0 {
						for j := range l {
							l[j] = "scribble"
						}
					} else {
						kept[c] = append(kept[c], l)
						texts[c] = append(texts[c], o.Out.(string))
					}
				}
				h.add(o)
			}
		})
	}
	t.par("ring adds and reports", fns...)
	t.quiet()
	c0 := now()
	l := ring.Take()
	h.add(hop{Client: clients, Op: "take", Out: ringText(l), Call: c0, Ret: now()})
	for c := range kept {
		for i := range kept[c] {
			if ringText(kept[c][i]) != texts[c][i] {
				t.failf("changed", "a reported list changed later")
			}
		}
	}
	ops := h.all()
	t.eval()
	t.count("operations", int64(len(ops)))
	if overlaps(ops) > 0 {
		t.seen(shape(ops))
	}
	t.linear(ringModel(n), ops, "ring")
	if e == 9 {
		t.sample(map[string]interface{}{"noise": nz, "size": n, "history": render(ops)})
	}
}

func c19storm(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	n := 1 + r.Intn(12)
	adders := 1 + r.Intn(4)
	per := 200
	ring := xring.NewRing(n)
	nz := t.noise()
	t.setCase("storm %d: noise %s size %d adders %d", e, nz, n, adders)
	type el struct {
		a, i int
		p    []int
	}
	var fns []func()
	for a := 0; a < adders; a++ {
		a := a
		fns = append(fns, func() {
			for i := 0; i < per; i++ {
				ring.Add(&el{a, i, []int{a*1000 + i}})
			}
		})
	}
	takes := make([]int, 3)
	for k := 0; k < 3; k++ {
		k := k
		fns = append(fns, func() {
			prevLen := 0
			last := map[int]int{}
			for i := 0; i < 60; i++ {
				l := ring.Take()
				if len(l) < prevLen || len(l) > n {
					t.failf("wrong", "a ring of %d reported %d elements after %d", n, len(l), prevLen)
				}
				prevLen = len(l)
				cur := map[int]int{}
				for _, v := range l {
					if v == nil {
						t.failf("wrong", "a ring reported an element never added")
					}
					x := v.(*el)
					if x.p[0] != x.a*1000+x.i {
						t.failf("payload", "wrong payload")
					}
					if p, ok := cur[x.a]; ok && x.i != p+1 {
						t.failf("order", "a report shows elements %d and %d of one adder next to each other", p, x.i)
					}
					cur[x.a] = x.i
				}
				for a, i := range cur {
					if i < last[a] {
						t.failf("order", "an element reported later is older than one reported before")
					}
					last[a] = i
				}
				takes[k]++
			}
		})
	}
	t.par("ring storm", fns...)
	t.quiet()
	l := ring.Take()
	if len(l) != min(n, adders*per) {
		t.failf("wrong", "%d elements after %d adds", len(l), adders*per)
	}
	t.eval()
	t.count("storm_reports", int64(takes[0]+takes[1]+takes[2]))
	t.seen(fmt.Sprint("storm", n, adders, nz))
}

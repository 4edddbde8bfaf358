package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/chenquan/go-pkg/xerror"
	"github.com/chenquan/go-pkg/xmath"
	"github.com/chenquan/go-pkg/xstring"
)

func init() {
	checks["C24"] = checkErrors
	checks["C25"] = checkJoiner
	checks["C26"] = checkMath
	checks["C27"] = checkTransform
	checks["C28"] = checkCompare
	checks["C29"] = checkAbbreviate
}

// wk is a worker of a differential run: it logs without sharing anything, so
// that the race detector sees the library's own sharing, if any.
type wk struct {
	t     *T
	rng   *rand.Rand
	evals int64
	seen  map[uint64]struct{}
	cnt   map[string]int64
	smp   []string
	desc  string
}

func (w *wk) ev(nontrivial bool, key string) {
	w.evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(key))
		w.seen[h.Sum64()] = struct{}{}
	}
	if len(w.smp) < 1 && nontrivial && w.rng.Intn(40) == 0 {
		w.smp = append(w.smp, key)
	}
}

func (w *wk) fail(sig, format string, a ...interface{}) {
	w.t.setCase("%s", w.desc)
	w.t.failf(sig, format, a...)
}

// call runs f; a panic of the library is a violation.
func (w *wk) call(key string, f func()) {
	if p, bad := try(f); bad {
		w.fail("panic", "%s: panic: %v", key, p)
	}
}

// differential runs f in n rounds on several goroutines at once.
func (t *T) differential(n int, f func(w *wk)) {
	const workers = 4
	const chunk = 100
	for done := 0; done < n; done += workers * chunk {
		ws := make([]*wk, workers)
		fns := make([]func(), workers)
		for i := range ws {
			w := &wk{t: t, rng: rand.New(rand.NewSource(t.rng.Int63())), seen: map[uint64]struct{}{}, cnt: map[string]int64{}}
			ws[i] = w
			fns[i] = func() {
				for k := 0; k < chunk; k++ {
					f(w)
				}
			}
		}
		t.noise()
		t.par("differential run", fns...)
		t.mu.Lock()
		for _, w := range ws {
			t.evals += w.evals
			for k := range w.seen {
				t.distinct[k] = struct{}{}
			}
			for k, v := range w.cnt {
				t.counters[k] += v
			}
			for _, s := range w.smp {
				if len(t.samples) < 4 {
					t.samples = append(t.samples, s)
				}
			}
		}
		t.mu.Unlock()
	}
	t.quiet()
}

// ---- texts ---------------------------------------------------------------

var textRunes = []rune{'a', 'b', 'c', 'z', 'A', 'B', 'Z', '0', '1', '9', '.', '-', '+', ' ', '\t', '\n', '\v', '\r',
	0, 0x1f, 0x7f, 0x80, 0x85, 0xa0, 0xdf, 0xe9, 0xc9, 0x3a3, 0x3c3, 0x3c2, 0x416, 0x436, 0x661, 0x7ff, 0x800, 0x966,
	0x1680, 0x2003, 0x2028, 0x2168, 0x200b, 0x3000, 0x4e2d, 0x6587, 0xac00, 0xfeff, 0xff11, 0xfffd, 0xfffe, 0xffff,
	0x301, 0xd7ff, 0xe000, 0x10000, 0x1f600, 0x1d7d8, 0x10400, 0x10428, 0x10ffff, 0x131, 0x17f, 0x212a, 0x1c4, 0x1c5, 0x1c6}

func (w *wk) rune() rune {
	switch w.rng.Intn(10) {
	case 0, 1, 2:
		return rune('a' + w.rng.Intn(3))
	case 3:
		return rune(32 + w.rng.Intn(95))
	case 9:
		for {
			r := rune(w.rng.Intn(0x110000))
			if utf8.ValidRune(r) {
				return r
			}
		}
	}
	return textRunes[w.rng.Intn(len(textRunes))]
}

func (w *wk) length() int {
	switch w.rng.Intn(40) {
	case 0:
		return 100 + w.rng.Intn(1500)
	case 1, 2, 3:
		return 13 + w.rng.Intn(80)
	case 4, 5:
		return 0
	}
	return w.rng.Intn(13)
}

func (w *wk) runes(n int) []rune {
	rs := make([]rune, n)
	k := 0
	if w.rng.Intn(3) == 0 {
		k = 1 + w.rng.Intn(3)
	}
	alpha := []rune{w.rune(), w.rune(), w.rune()}
	for i := range rs {
		if k > 0 {
			rs[i] = alpha[w.rng.Intn(k)]
		} else {
			rs[i] = w.rune()
		}
	}
	return rs
}

func (w *wk) text() []rune { return w.runes(w.length()) }

// index draws an integer argument around the length, or an extreme one.
func (w *wk) index(n int) int {
	switch w.rng.Intn(12) {
	case 0:
		return math.MaxInt - w.rng.Intn(3)
	case 1:
		return math.MinInt + w.rng.Intn(3)
	case 2:
		return w.rng.Intn(4*n+10) - 2*n - 5
	case 3:
		return n + w.rng.Intn(3) - 1
	case 4:
		return -n + w.rng.Intn(3) - 1
	}
	return w.rng.Intn(2*n+5) - n - 2
}

func qs(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q…(%d bytes)", s[:120], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func eqRunes(a, b []rune) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- C24 -----------------------------------------------------------------

type textErr struct{ s string }

func (e *textErr) Error() string { return e.s }

type nilErr struct{ s string }

func (e *nilErr) Error() string {
	if e == nil {
		return "typed nil"
	}
	return e.s
}

// sameErr compares two errors, of which some are of an uncomparable type.
func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == b
	}
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	if reflect.TypeOf(a).Comparable() {
		return a == b
	}
	return a.Error() == b.Error()
}

func checkErrors(t *T) {
	t.rule = "an add/query history of a batch whose text, emptiness and identities were compared with the list of errors added (at least one non-nil add); distinct by the history"
	t.differential(t.n(6000), func(w *wk) {
		nb := 1 + w.rng.Intn(2)
		bs := make([]*xerror.BatchError, nb)
		for i := range bs {
			bs[i] = &xerror.BatchError{}
		}
		type held struct {
			err  error
			text string
			n    int
		}
		added := make([][]error, nb)
		helds := make([][]held, nb)
		steps := 1 + w.rng.Intn(14)
		if w.rng.Intn(25) == 0 {
			steps = 100 + w.rng.Intn(200)
		}
		var log strings.Builder
		check := func(i int, h held, when string) {
			if h.err.Error() != h.text {
				w.fail("text", "history %s: error obtained after %d adds reads %s %s, want %s", qs(log.String()), h.n, qs(h.err.Error()), when, qs(h.text))
			}
		}
		query := func(i int) {
			var err error
			var nn bool
			w.call("BatchError queries", func() {
				err = bs[i].Err()
				nn = bs[i].NotNil()
			})
			es := added[i]
			fmt.Fprintf(&log, "q%d;", i)
			if nn != (len(es) > 0) {
				w.fail("notnil", "history %s: NotNil() = %v with %d errors added", qs(log.String()), nn, len(es))
			}
			switch len(es) {
			case 0:
				if err != nil {
					w.fail("empty", "history %s: Err() = %v of an empty batch", qs(log.String()), err)
				}
				return
			case 1:
				if !sameErr(err, es[0]) {
					w.fail("single", "history %s: Err() of a single error %v = %v, not the error itself", qs(log.String()), es[0], err)
				}
			default:
				if err == nil {
					w.fail("lost", "history %s: Err() = nil after %d adds", qs(log.String()), len(es))
				}
			}
			texts := make([]string, len(es))
			for k, e := range es {
				texts[k] = e.Error()
			}
			h := held{err, strings.Join(texts, "\n"), len(es)}
			check(i, h, "at once")
			helds[i] = append(helds[i], h)
			if len(helds[i]) > 6 {
				k := w.rng.Intn(len(helds[i]))
				helds[i] = append(helds[i][:k:k], helds[i][k+1:]...)
			}
			w.cnt["errors_obtained"]++
		}
		nonNil := 0
		for s := 0; s < steps; s++ {
			i := w.rng.Intn(nb)
			switch k := w.rng.Intn(10); {
			case k < 2:
				bs[i].Add(nil)
				fmt.Fprintf(&log, "n%d;", i)
			case k < 6:
				var e error
				switch w.rng.Intn(11) {
				case 8, 9, 10:
					e = knownErr(w.rng)
				case 6:
					e = (*nilErr)(nil) // not a nil error
				case 7:
					e = bareErr{[]string{"bare", fmt.Sprint(s / 3)}}
				case 0:
					e = errors.New("")
				case 1:
					e = &textErr{string(w.runes(w.rng.Intn(4))) + "\n"}
				case 2:
					if len(added[i]) > 0 {
						e = added[i][w.rng.Intn(len(added[i]))] // the same one again
						break
					}
					e = fmt.Errorf("e%d", s)
				case 3:
					j := w.rng.Intn(nb)
					if len(helds[j]) > 0 { // an error obtained from a batch
						e = helds[j][w.rng.Intn(len(helds[j]))].err
						if len(e.Error()) < 300 {
							break
						}
					}
					e = errors.New(string(w.runes(1 + w.rng.Intn(5))))
				default:
					e = errors.New(string(w.runes(1 + w.rng.Intn(5))))
				}
				bs[i].Add(e)
				added[i] = append(added[i], e)
				nonNil++
				fmt.Fprintf(&log, "a%d%q;", i, e.Error())
			default:
				query(i)
			}
			if steps > 50 && s%20 != 0 {
				continue
			}
			for b := range helds {
				for _, h := range helds[b] {
					check(b, h, "after later operations")
				}
			}
		}
		for b := range bs {
			query(b)
			for _, h := range helds[b] {
				check(b, h, "at the end")
			}
		}
		w.ev(nonNil > 0, log.String())
		w.cnt["adds"] += int64(nonNil)
	})
}

// ---- C25 -----------------------------------------------------------------

func checkJoiner(t *T) {
	t.rule = "a write/grow/reset history of a joiner with at least one write, whose text, length, capacity and returned sizes were compared with the list of pieces after every step; distinct by configuration and history"
	t.differential(t.n(6000), func(w *wk) {
		piece := func() string {
			switch w.rng.Intn(6) {
			case 0, 1:
				return ""
			case 2:
				return string(w.runes(1 + w.rng.Intn(40)))
			case 3:
				b := make([]byte, w.rng.Intn(5)) // any bytes
				w.rng.Read(b)
				return string(b)
			}
			return string(w.runes(1 + w.rng.Intn(4)))
		}
		type js struct {
			j                *xstring.Joiner
			pre, step, suf   string
			pieces           []string
			writes           int
			heldGot, heldExp []string
			bufs             [][]byte
		}
		var log strings.Builder
		nj := 1 + w.rng.Intn(2)
		all := make([]*js, nj)
		for i := range all {
			x := &js{}
			var opts []xstring.JoinerOption
			for k := w.rng.Intn(5); k > 0; k-- {
				s := piece()
				switch w.rng.Intn(4) {
				case 0:
					opts = append(opts, xstring.WithJoinerPrefix(s))
					x.pre = s
				case 1:
					opts = append(opts, xstring.WithJoinerStep(s))
					x.step = s
				case 2:
					opts = append(opts, xstring.WithJoinerSuffix(s))
					x.suf = s
				default:
					a, b := piece(), piece()
					opts = append(opts, xstring.WithJoiner(a, s, b))
					x.pre, x.step, x.suf = a, s, b
				}
			}
			x.j = xstring.NewJoiner(opts...)
			fmt.Fprintf(&log, "new(%q,%q,%q);", x.pre, x.step, x.suf)
			all[i] = x
		}
		check := func(x *js) {
			var text string
			var ln, cp int
			w.call("Joiner queries after "+qs(log.String()), func() {
				if w.rng.Intn(2) == 0 {
					ln, cp = x.j.Len(), x.j.Cap()
					text = x.j.String()
				} else {
					text = x.j.String()
					ln, cp = x.j.Len(), x.j.Cap()
				}
			})
			want := x.pre + strings.Join(x.pieces, x.step) + x.suf
			if text != want {
				w.fail("text", "history %s: text %s, want %s", qs(log.String()), qs(text), qs(want))
			}
			if ln != len(want) {
				w.fail("len", "history %s: Len() = %d, the text has %d bytes", qs(log.String()), ln, len(want))
			}
			if cp < ln {
				w.fail("cap", "history %s: Cap() = %d < Len() = %d", qs(log.String()), cp, ln)
			}
			x.heldGot = append(x.heldGot, text)
			x.heldExp = append(x.heldExp, strings.Clone(want))
			if len(x.heldGot) > 6 {
				x.heldGot, x.heldExp = x.heldGot[1:], x.heldExp[1:]
			}
		}
		steps := 1 + w.rng.Intn(14)
		if w.rng.Intn(30) == 0 {
			steps = 100
		}
		for _, x := range all {
			check(x)
		}
		wrote := 0
		for s := 0; s < steps; s++ {
			x := all[w.rng.Intn(nj)]
			k := w.rng.Intn(16)
			switch {
			case k < 10:
				p := piece()
				var n int
				var err error
				op := "WriteString"
				w.call("Joiner write after "+qs(log.String()), func() {
					switch k % 4 {
					case 0:
						n, err = x.j.WriteString(p)
					case 1:
						op = "Write"
						b := []byte(p)
						if len(b) == 0 && w.rng.Intn(2) == 0 {
							b = nil
						}
						mem := append(append([]byte("<<"), b...), ">>>>>>>>"...)
						if b != nil {
							b = mem[2 : 2+len(b)]
						}
						n, err = x.j.Write(b)
						if string(mem) != "<<"+p+">>>>>>>>" {
							w.fail("memory", "Write(%q) left %q in the caller's memory", p, mem)
						}
						x.bufs = append(x.bufs, b)
					case 2:
						op = "WriteRune"
						r := w.rune()
						if w.rng.Intn(10) == 0 {
							r = []rune{-1, 0xd800, 0xdfff, 0x110000, math.MaxInt32}[w.rng.Intn(5)]
						}
						p = string(r)
						n, err = x.j.WriteRune(r)
					default:
						op = "WriteByte"
						c := byte(w.rng.Intn(256))
						p = string([]byte{c})
						err = x.j.WriteByte(c)
						n = 1
					}
				})
				x.pieces = append(x.pieces, p)
				fmt.Fprintf(&log, "%s(%q);", op, p)
				if n != len(p) || err != nil {
					w.fail("write", "history %s: the write returned %d, %v for a piece of %d bytes", qs(log.String()), n, err, len(p))
				}
				wrote++
			case k < 13:
				n := w.rng.Intn(100)
				if w.rng.Intn(10) == 0 {
					n = w.rng.Intn(5000)
				}
				if w.rng.Intn(4) == 0 {
					n = 0
				}
				fmt.Fprintf(&log, "Grow(%d);", n)
				w.call("Joiner.Grow after "+qs(log.String()), func() { x.j.Grow(n) })
				if c, l := x.j.Cap(), x.j.Len(); c-l < n {
					w.fail("grow", "history %s: %d bytes of capacity beyond the length after Grow(%d)", qs(log.String()), c-l, n)
				}
				w.cnt["grows"]++
			default:
				fmt.Fprintf(&log, "Reset;")
				w.call("Joiner.Reset after "+qs(log.String()), func() { x.j.Reset() })
				x.pieces = nil
				w.cnt["resets"]++
			}
			if w.rng.Intn(3) == 0 {
				for _, b := range x.bufs { // the caller may reuse what it wrote
					for i := range b {
						b[i] = 'X'
					}
				}
			}
			if steps < 50 || s%10 == 0 {
				for _, y := range all {
					check(y)
				}
			}
		}
		for _, x := range all {
			check(x)
			for i := range x.heldGot {
				if x.heldGot[i] != x.heldExp[i] {
					w.fail("changed", "history %s: a text already obtained changed from %s to %s", qs(log.String()), qs(x.heldExp[i]), qs(x.heldGot[i]))
				}
			}
		}
		w.cnt["writes"] += int64(wrote)
		w.ev(wrote > 0, log.String())
	})
}

// ---- C26 -----------------------------------------------------------------

func checkMath(t *T) {
	t.rule = "a pair of arguments given to one of the eight functions and compared with the exact result; non-trivial when the arguments differ; distinct by function and pair"
	ints := []int64{0, 1, -1, 2, -2, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, math.MinInt32,
		math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 53, 1<<53 + 1, 1<<53 + 2, -(1 << 53), -(1 << 53) - 1, 1 << 62, 1<<62 + 1}
	drawInt := func(w *wk) int64 {
		switch w.rng.Intn(5) {
		case 0:
			return ints[w.rng.Intn(len(ints))]
		case 1:
			return ints[w.rng.Intn(len(ints))] + int64(w.rng.Intn(7)-3)
		case 2:
			return int64(w.rng.Uint64())
		case 3:
			return int64(w.rng.Uint64()) >> uint(w.rng.Intn(64))
		}
		return int64(w.rng.Intn(9) - 4)
	}
	f64 := []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, -math.MaxFloat64,
		math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32, 1 << 53, 0.1, math.Float64frombits(0x7ff8000000000123), math.Float64frombits(0xfff8000000000001), math.Float64frombits(0x000fffffffffffff)}
	draw64 := func(w *wk) float64 {
		switch w.rng.Intn(4) {
		case 0, 1:
			return f64[w.rng.Intn(len(f64))]
		case 2:
			return math.Nextafter(f64[w.rng.Intn(len(f64))], w.rng.NormFloat64())
		}
		return math.Float64frombits(w.rng.Uint64())
	}
	draw32 := func(w *wk) float32 {
		switch w.rng.Intn(4) {
		case 0, 1:
			return float32(f64[w.rng.Intn(len(f64))])
		case 2:
			return math.Nextafter32(float32(f64[w.rng.Intn(len(f64))]), float32(w.rng.NormFloat64()))
		}
		return math.Float32frombits(w.rng.Uint32())
	}
	// judge decides max (or min) of a and b by the IEEE rules.
	judge := func(w *wk, name string, a, b, got float64, isMax bool) {
		key := fmt.Sprintf("%s(%v [%#x], %v [%#x])", name, a, math.Float64bits(a), b, math.Float64bits(b))
		ok := false
		if math.IsNaN(a) || math.IsNaN(b) {
			s := -1
			if isMax {
				s = 1
			}
			ok = math.IsNaN(got) || (math.IsInf(a, s) || math.IsInf(b, s)) && math.IsInf(got, s)
		} else {
			want := a
			switch {
			case a == b: // only the zeros differ
				if math.Signbit(a) == isMax {
					want = b
				}
			case (b > a) == isMax:
				want = b
			}
			ok = math.Float64bits(got) == math.Float64bits(want)
		}
		if !ok {
			w.fail("float", "%s = %v [%#x]", key, got, math.Float64bits(got))
		}
		w.ev(math.Float64bits(a) != math.Float64bits(b), key)
	}
	t.differential(t.n(8000), func(w *wk) {
		for i := 0; i < 10; i++ {
			a, b := drawInt(w), drawInt(w)
			if w.rng.Intn(4) == 0 {
				b = a + int64(w.rng.Intn(3)-1)
			}
			lo, hi := a, b
			if b < a {
				lo, hi = b, a
			}
			if g := xmath.MaxInt64(a, b); g != hi {
				w.fail("int", "MaxInt64(%d, %d) = %d", a, b, g)
			}
			if g := xmath.MinInt64(a, b); g != lo {
				w.fail("int", "MinInt64(%d, %d) = %d", a, b, g)
			}
			if g := xmath.MaxInt(int(a), int(b)); int64(g) != hi {
				w.fail("int", "MaxInt(%d, %d) = %d", a, b, g)
			}
			if g := xmath.MinInt(int(a), int(b)); int64(g) != lo {
				w.fail("int", "MinInt(%d, %d) = %d", a, b, g)
			}
			w.ev(a != b, fmt.Sprintf("int(%d, %d)", a, b))
			x, y := draw64(w), draw64(w)
			judge(w, "MaxFloat64", x, y, xmath.MaxFloat64(x, y), true)
			judge(w, "MinFloat64", x, y, xmath.MinFloat64(x, y), false)
			p, q := draw32(w), draw32(w)
			judge(w, "MaxFloat32", float64(p), float64(q), float64(xmath.MaxFloat32(p, q)), true)
			judge(w, "MinFloat32", float64(p), float64(q), float64(xmath.MinFloat32(p, q)), false)
		}
	})
	// every pair of the boundary values
	t.do("boundary pairs", func() {
		w := &wk{t: t, rng: rand.New(rand.NewSource(1)), seen: map[uint64]struct{}{}, cnt: map[string]int64{}}
		for _, a := range ints {
			for _, b := range ints {
				lo, hi := a, b
				if b < a {
					lo, hi = b, a
				}
				if xmath.MaxInt64(a, b) != hi || xmath.MinInt64(a, b) != lo || int64(xmath.MaxInt(int(a), int(b))) != hi || int64(xmath.MinInt(int(a), int(b))) != lo {
					w.fail("int", "minimum or maximum of %d and %d is wrong", a, b)
				}
			}
		}
		for _, x := range f64 {
			for _, y := range f64 {
				judge(w, "MaxFloat64", x, y, xmath.MaxFloat64(x, y), true)
				judge(w, "MinFloat64", x, y, xmath.MinFloat64(x, y), false)
				p, q := float32(x), float32(y)
				judge(w, "MaxFloat32", float64(p), float64(q), float64(xmath.MaxFloat32(p, q)), true)
				judge(w, "MinFloat32", float64(p), float64(q), float64(xmath.MinFloat32(p, q)), false)
			}
		}
		t.count("boundary_pairs", int64(len(ints)*len(ints)+len(f64)*len(f64)))
	})
}

// ---- C27 -----------------------------------------------------------------

func subModel(rs []rune, start, end int) []rune {
	n := len(rs)
	if end < 0 {
		end += n
	}
	if end > n {
		end = n
	}
	if start < 0 {
		start += n
	}
	if start < 0 {
		start = 0
	}
	if start >= end {
		return nil
	}
	return rs[start:end]
}

func repeatRunes(r rune, n int) []rune {
	var o []rune
	for i := 0; i < n; i++ {
		o = append(o, r)
	}
	return o
}

func cat(parts ...[]rune) []rune {
	var o []rune
	for _, p := range parts {
		o = append(o, p...)
	}
	return o
}

// malformed returns a text that is not valid UTF-8.
func (w *wk) malformed() string {
	bad := []string{"\x80", "\xff", "\xc0\xaf", "\xe4\xb8", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc3", "\xf0\x9f\x98", "\xbf\xbd", "\xef\xbf"}
	s := string(w.runes(w.rng.Intn(5))) + bad[w.rng.Intn(len(bad))] + string(w.runes(w.rng.Intn(5)))
	if utf8.ValidString(s) {
		return "\xff" + s
	}
	return s
}

func checkTransform(t *T) {
	t.rule = "a call of a transforming function on a valid text compared with the operation on the character list; non-trivial when the result is neither the whole text nor empty; distinct by function, text and arguments"
	one := func(w *wk, rs []rune, exact func(w *wk, n int) int) {
		in := string(rs)
		keep := strings.Clone(in)
		n := len(rs)
		expect := func(key string, f func() string, want []rune) {
			var got string
			w.call(key, func() { got = f() })
			if got != string(want) {
				w.fail("transform", "%s = %s, want %s", key, qs(got), qs(string(want)))
			}
			w.ev(got != in && got != "", key)
		}
		idx := func() int { return exact(w, n) }
		// slicing
		a, b := idx(), idx()
		expect(fmt.Sprintf("Sub(%s, %d, %d)", qs(in), a, b), func() string { return xstring.Sub(in, a, b) }, subModel(rs, a, b))
		expect(fmt.Sprintf("Left(%s, %d)", qs(in), a), func() string { return xstring.Left(in, a) }, subModel(rs, 0, a))
		expect(fmt.Sprintf("Right(%s, %d)", qs(in), b), func() string { return xstring.Right(in, b) }, subModel(rs, b, n))
		// padding
		size := idx()
		if size > n+4000 {
			size = n + w.rng.Intn(60)
		}
		pc := w.rune()
		pads := 0
		if size > n {
			pads = size - n
		}
		ch := fmt.Sprintf("%s, %d, %q", qs(in), size, pc)
		expect("PadLeftChar("+ch+")", func() string { return xstring.PadLeftChar(in, size, pc) }, cat(repeatRunes(pc, pads), rs))
		expect("PadRightChar("+ch+")", func() string { return xstring.PadRightChar(in, size, pc) }, cat(rs, repeatRunes(pc, pads)))
		expect("PadCenterChar("+ch+")", func() string { return xstring.PadCenterChar(in, size, pc) }, cat(repeatRunes(pc, pads/2), rs, repeatRunes(pc, pads-pads/2)))
		expect("PadLeftSpace("+ch+")", func() string { return xstring.PadLeftSpace(in, size) }, cat(repeatRunes(' ', pads), rs))
		expect("PadRightSpace("+ch+")", func() string { return xstring.PadRightSpace(in, size) }, cat(rs, repeatRunes(' ', pads)))
		expect("PadCenterSpace("+ch+")", func() string { return xstring.PadCenterSpace(in, size) }, cat(repeatRunes(' ', pads/2), rs, repeatRunes(' ', pads-pads/2)))
		expect(fmt.Sprintf("RepeatChar(%q, %d)", pc, size), func() string { return xstring.RepeatChar(pc, size) }, repeatRunes(pc, max(size, 0)))
		// removing
		rm := w.rune()
		if n > 0 && w.rng.Intn(3) > 0 {
			rm = rs[w.rng.Intn(n)]
		}
		var left []rune
		for _, r := range rs {
			if r != rm {
				left = append(left, r)
			}
		}
		expect(fmt.Sprintf("RemoveChar(%s, %q)", qs(in), rm), func() string { return xstring.RemoveChar(in, rm) }, left)
		rmS := w.runes(w.rng.Intn(3))
		if n > 0 && w.rng.Intn(3) > 0 {
			k := w.rng.Intn(n)
			rmS = rs[k:min(n, k+w.rng.Intn(4))]
		}
		left = nil
		for i := 0; i < n; {
			if len(rmS) > 0 && i+len(rmS) <= n && eqRunes(rs[i:i+len(rmS)], rmS) {
				i += len(rmS)
				continue
			}
			left = append(left, rs[i])
			i++
		}
		expect(fmt.Sprintf("RemoveString(%s, %q)", qs(in), string(rmS)), func() string { return xstring.RemoveString(in, string(rmS)) }, left)
		left = nil
		for _, r := range rs {
			if !unicode.IsSpace(r) {
				left = append(left, r)
			}
		}
		expect("DeleteWhitespace("+qs(in)+")", func() string { return xstring.DeleteWhitespace(in) }, left)
		// trimming
		trim := func(set func(r rune) bool, l, r bool) []rune {
			o := rs
			for l && len(o) > 0 && set(o[0]) {
				o = o[1:]
			}
			for r && len(o) > 0 && set(o[len(o)-1]) {
				o = o[:len(o)-1]
			}
			return o
		}
		cs := w.runes(w.rng.Intn(4))
		if n > 0 && w.rng.Intn(2) == 0 {
			cs = append(append([]rune{}, cs...), rs[0], rs[n-1])
		}
		inSet := func(r rune) bool {
			for _, c := range cs {
				if c == r {
					return true
				}
			}
			return false
		}
		ck := fmt.Sprintf("%s, %q", qs(in), string(cs))
		expect("Trim("+ck+")", func() string { return xstring.Trim(in, string(cs)) }, trim(inSet, true, true))
		expect("TrimLeft("+ck+")", func() string { return xstring.TrimLeft(in, string(cs)) }, trim(inSet, true, false))
		expect("TrimRight("+ck+")", func() string { return xstring.TrimRight(in, string(cs)) }, trim(inSet, false, true))
		expect("TrimSpace("+qs(in)+")", func() string { return xstring.TrimSpace(in) }, trim(unicode.IsSpace, true, true))
		// rotating: towards the end of the text for a positive shift
		sh := idx()
		rot := rs
		if n > 0 {
			k := sh % n
			if k < 0 {
				k += n
			}
			rot = cat(rs[n-k:], rs[:n-k])
		}
		expect(fmt.Sprintf("Rotate(%s, %d)", qs(in), sh), func() string { return xstring.Rotate(in, sh) }, rot)
		if sh != math.MinInt {
			expect(fmt.Sprintf("Rotate back(%s, %d)", qs(in), sh), func() string { return xstring.Rotate(xstring.Rotate(in, sh), -sh) }, rs)
		}
		// reversing
		rev := make([]rune, n)
		for i, r := range rs {
			rev[n-1-i] = r
		}
		expect("MustReverse("+qs(in)+")", func() string { return xstring.MustReverse(in) }, rev)
		var r1, r2 string
		var e1, e2 error
		w.call("Reverse("+qs(in)+")", func() {
			r1, e1 = xstring.Reverse(in)
			r2, e2 = xstring.Reverse(r1)
		})
		if e1 != nil || e2 != nil || r1 != string(rev) || r2 != keep {
			w.fail("reverse", "Reverse(%s) = %s, %v; back: %s, %v", qs(in), qs(r1), e1, qs(r2), e2)
		}
		// shuffling
		var shf string
		w.call("Shuffle("+qs(in)+")", func() { shf = xstring.Shuffle(in) })
		if !utf8.ValidString(shf) {
			w.fail("shuffle", "Shuffle(%s) = %s is not valid UTF-8", qs(in), qs(shf))
		}
		x, y := []rune(shf), append([]rune{}, rs...)
		sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
		sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
		if !eqRunes(x, y) {
			w.fail("shuffle", "Shuffle(%s) = %s has other characters", qs(in), qs(shf))
		}
		w.ev(n > 1, "Shuffle("+qs(in)+")")
		// classification by length
		if l := xstring.Len(in); l != n {
			w.fail("len", "Len(%s) = %d, the text has %d characters", qs(in), l, n)
		}
		// the results must be independent of each other and of the input
		if in != keep {
			w.fail("input", "the input %s has become %s", qs(keep), qs(in))
		}
		if r1 != string(rev) || r2 != keep {
			w.fail("result", "an earlier result of Reverse(%s) has changed", qs(in))
		}
	}
	t.differential(t.n(6000), func(w *wk) {
		w.desc = "random texts"
		one(w, w.text(), (*wk).index)
		if w.rng.Intn(3) == 0 {
			bad := w.malformed()
			keep := strings.Clone(bad)
			var err error
			w.call(fmt.Sprintf("Reverse(%q)", bad), func() { _, err = xstring.Reverse(bad) })
			if err == nil {
				w.fail("malformed", "Reverse(%q) reports no error", bad)
			}
			if _, p := try(func() { xstring.MustReverse(bad) }); !p {
				w.fail("malformed", "MustReverse(%q) does not panic", bad)
			}
			if bad != keep {
				w.fail("input", "the input %q has become %q", keep, bad)
			}
			w.ev(true, "malformed "+bad)
			w.cnt["malformed_texts"]++
		}
	})
	// all texts of up to 4 characters over an alphabet of every encoded width,
	// with all small indices
	alpha := []rune{'x', ' ', 'é', '中', 0x1f600}
	var all [][]rune
	for _, l := range []int{0, 1, 2, 3, 4} {
		cnt := 1
		for i := 0; i < l; i++ {
			cnt *= len(alpha)
		}
		for c := 0; c < cnt; c++ {
			rs := make([]rune, l)
			for i, k := 0, c; i < l; i, k = i+1, k/len(alpha) {
				rs[i] = alpha[k%len(alpha)]
			}
			all = append(all, rs)
		}
	}
	t.differential(t.n(2000), func(w *wk) {
		w.desc = "small texts"
		rs := all[w.rng.Intn(len(all))]
		one(w, rs, func(w *wk, n int) int { return w.rng.Intn(13) - 6 })
	})
	// in a long text, too, every character can get everywhere: in 400 fair
	// shuffles of 200 characters a place sees 173 of them, give or take 4
	{
		var long []rune
		for i := 0; i < 200; i++ {
			long = append(long, []rune{'A', 0x3b1, 0x4e00, 0x1f300}[i%4]+rune(i/4))
		}
		w := make([]map[rune]bool, len(long))
		for i := range w {
			w[i] = map[rune]bool{}
		}
		t.setCase("shuffles of %q", string(long))
		t.do("400 shuffles", func() {
			for i := 0; i < 400; i++ {
				for j, c := range []rune(xstring.Shuffle(string(long))) {
					w[j][c] = true
				}
			}
		})
		for i := range w {
			if len(w[i]) < 120 {
				t.failf("shuffle", "400 shuffles of 200 characters put only %d different ones at place %d", len(w[i]), i)
			}
		}
		t.evals++
	}
	// every order can come out of a shuffle: a fair one misses an order of
	// four characters in 4000 shuffles with a probability under 1e-70
	texts := []string{"aé", "b中a", "x😀é中",
		// whatever kind of characters they are, and equal ones among them
		"e\u0301x", "a\u200db", "\r\n\tx", " \u3000\u00a0a", "👍🏽z", "🇩🇪x", "Ωω1", "!?.-", "aab", "aabb", "\x00\ufffda", "ABCD", "1234", "אבx", "\ufeffab", "e\u0301\u0302", "<a>", "\"a\""}
	for _, text := range texts {
		orders := map[string]int{}
		want, same := 1, map[rune]int{}
		for i, c := range []rune(text) {
			same[c]++
			want = want * (i + 1) / same[c]
		}
		t.setCase("shuffles of %q", text)
		t.do("4000 shuffles", func() {
			for i := 0; i < 4000; i++ {
				orders[xstring.Shuffle(text)]++
			}
		})
		if len(orders) < want {
			t.failf("shuffle", "4000 shuffles of %q yield %d of its %d orders: %v", text, len(orders), want, orders)
		}
		t.evals++
		t.count("shuffle_orders_seen", int64(len(orders)))
		for o := range orders {
			t.seen("order " + o)
		}
	}
}

// ---- C28 -----------------------------------------------------------------

// foldEq is character-wise case-insensitive equality: the case variants of a
// character form an orbit.
func foldEq(a, b rune) bool {
	if a == b {
		return true
	}
	for r := unicode.SimpleFold(a); r != a; r = unicode.SimpleFold(r) {
		if r == b {
			return true
		}
	}
	return false
}

func mapEq(a, b rune) bool {
	a, b = unicode.ToLower(a), unicode.ToLower(b)
	return a == b || unicode.ToUpper(a) == unicode.ToUpper(b) || unicode.ToLower(unicode.ToUpper(a)) == unicode.ToLower(unicode.ToUpper(b))
}

// caseRunes are characters on which the two usual definitions of
// case-insensitive equality agree for every pair.
var caseRunes = func() []rune {
	cand := append([]rune{}, textRunes...)
	for r := rune('a'); r <= 'z'; r++ {
		cand = append(cand, r, r-32)
	}
	for r := rune(0xc0); r <= 0x17f; r++ {
		cand = append(cand, r)
	}
	for r := rune(0x391); r <= 0x3c9; r++ {
		cand = append(cand, r)
	}
	for r := rune(0x410); r <= 0x44f; r++ {
		cand = append(cand, r)
	}
	cand = append(cand, 'K', 0x212a, 0x212b, 0x1e9e, 0x13a0, 0xab70, 0x10a0, 0x2d00, 0x1c90, 0x1e900, 0x1e922)
	var out []rune
next:
	for _, r := range cand {
		if r == 0x130 || r == 0x131 || !utf8.ValidRune(r) {
			continue
		}
		for _, q := range cand {
			if q != 0x130 && q != 0x131 && foldEq(r, q) != mapEq(r, q) {
				continue next
			}
		}
		out = append(out, r)
	}
	return out
}()

// related returns two texts that share much.
func (w *wk) related(alpha []rune) ([]rune, []rune) {
	draw := func() rune {
		if w.rng.Intn(2) == 0 {
			return alpha[w.rng.Intn(min(len(alpha), 4))]
		}
		return alpha[w.rng.Intn(len(alpha))]
	}
	n := w.rng.Intn(9)
	if w.rng.Intn(20) == 0 {
		n = 20 + w.rng.Intn(60)
	}
	a := make([]rune, n)
	for i := range a {
		a[i] = draw()
	}
	b := append([]rune{}, a...)
	for k := w.rng.Intn(4); k > 0 && len(b) > 0; k-- {
		i := w.rng.Intn(len(b))
		switch w.rng.Intn(6) {
		case 0:
			b[i] = draw()
		case 1, 2:
			b[i] = unicode.SimpleFold(b[i])
			if b[i] == 0x130 || b[i] == 0x131 {
				b[i] = 'i'
			}
		case 3:
			b = b[i:]
		case 4:
			b = b[:i]
		default:
			b = append(b[:i:i], append([]rune{draw()}, b[i:]...)...)
		}
	}
	if w.rng.Intn(4) == 0 {
		for i := range b {
			if w.rng.Intn(2) == 0 {
				if r := unicode.SimpleFold(b[i]); r != 0x130 && r != 0x131 {
					b[i] = r
				}
			}
		}
	}
	if w.rng.Intn(2) == 0 {
		a, b = b, a
	}
	return a, b
}

func checkCompare(t *T) {
	t.rule = "a call of a comparing or classifying function compared with its definition on the character lists; non-trivial for non-empty texts; distinct by function and arguments"
	usable := map[rune]bool{}
	for _, r := range caseRunes {
		usable[r] = true
	}
	t.count("case_alphabet", int64(len(caseRunes)))
	region := func(a []rune, eq func(x, y rune) bool, i int, b []rune, j, n int) bool {
		if i < 0 || j < 0 || n < 0 || i > len(a) || j > len(b) || n > len(a)-i || n > len(b)-j {
			return false
		}
		for k := 0; k < n; k++ {
			if !eq(a[i+k], b[j+k]) {
				return false
			}
		}
		return true
	}
	same := func(x, y rune) bool { return x == y }
	compare := func(w *wk, a, b []rune, folding bool) {
		sa, sb := string(a), string(b)
		boolean := func(key string, f func() bool, want bool) {
			var got bool
			w.call(key, func() { got = f() })
			if got != want {
				w.fail("predicate", "%s = %v", key, got)
			}
			w.ev(sa != "" || sb != "", key)
			if want {
				w.cnt["true_answers"]++
			}
		}
		pq := fmt.Sprintf("(%s, %s)", qs(sa), qs(sb))
		tail := len(a) >= len(b)
		if folding {
			boolean("EqualsIgnoreCase"+pq, func() bool { return xstring.EqualsIgnoreCase(sa, sb) }, len(a) == len(b) && region(a, foldEq, 0, b, 0, len(a)))
			sub := false
			for i := 0; i+len(b) <= len(a); i++ {
				sub = sub || region(a, foldEq, i, b, 0, len(b))
			}
			boolean("ContainsIgnoreCase"+pq, func() bool { return xstring.ContainsIgnoreCase(sa, sb) }, sub)
			boolean("EndsWithIgnoreCase"+pq, func() bool { return xstring.EndsWithIgnoreCase(sa, sb) }, tail && region(a, foldEq, len(a)-len(b), b, 0, len(b)))
			boolean("EndsWith ignoring case"+pq, func() bool { return xstring.EndsWith(sa, sb, true) }, tail && region(a, foldEq, len(a)-len(b), b, 0, len(b)))
		}
		exactTail := tail && region(a, same, len(a)-len(b), b, 0, len(b))
		boolean("EndsWithCase"+pq, func() bool { return xstring.EndsWithCase(sa, sb) }, exactTail)
		boolean("EndsWith"+pq, func() bool { return xstring.EndsWith(sa, sb, false) }, exactTail)
		for k := 0; k < 3; k++ {
			i, j, n := w.index(len(a)), w.index(len(b)), w.index(min(len(a), len(b)))
			if w.rng.Intn(4) > 0 {
				i, j = w.rng.Intn(len(a)+1), w.rng.Intn(len(b)+1)
				if w.rng.Intn(2) == 0 {
					j = min(i, len(b))
				}
				n = w.rng.Intn(min(len(a)-i, len(b)-j) + 2)
			}
			eq, ic := same, false
			if folding && k > 0 {
				eq, ic = foldEq, true
			}
			boolean(fmt.Sprintf("RegionMatches(%s, %v, %d, %s, %d, %d)", qs(sa), ic, i, qs(sb), j, n), func() bool { return xstring.RegionMatches(sa, ic, i, sb, j, n) }, region(a, eq, i, b, j, n))
		}
		find := -1
		for i := 0; i+len(b) <= len(a) && find < 0; i++ {
			if region(a, same, i, b, 0, len(b)) {
				find = len(string(a[:i]))
			}
		}
		boolean("Contains"+pq, func() bool { return xstring.Contains(sa, sb) }, sa != "" && find >= 0)
		number := func(key string, got, want int) {
			if got != want {
				w.fail("index", "%s = %d, want %d", key, got, want)
			}
			w.ev(sa != "" || sb != "", key)
		}
		number("Index"+pq, xstring.Index(sa, sb), find)
		anyAt := -1
		off := 0
		for _, r := range a {
			for _, q := range b {
				if r == q && anyAt < 0 {
					anyAt = off
				}
			}
			off += utf8.RuneLen(r)
		}
		number("IndexAny"+pq, xstring.IndexAny(sa, sb), anyAt)
		// first difference
		d := 0
		for d < len(a) && d < len(b) && a[d] == b[d] {
			d++
		}
		diff, rest := d, string(b[min(d, len(b)):])
		if d == len(a) && d == len(b) {
			diff, rest = -1, ""
		}
		number("IndexOfDifferenceWithTwoStr"+pq, xstring.IndexOfDifferenceWithTwoStr(sa, sb), diff)
		number("IndexOfDifference"+pq, xstring.IndexOfDifference(sa, sb), diff)
		if g := xstring.Difference(sa, sb); g != rest {
			w.fail("difference", "Difference%s = %s, want %s", pq, qs(g), qs(rest))
		}
		if g := xstring.CommonPrefix(sa, sb); g != string(a[:d]) {
			w.fail("prefix", "CommonPrefix%s = %s, want %s", pq, qs(g), qs(string(a[:d])))
		}
	}
	t.differential(t.n(5000), func(w *wk) {
		w.desc = "pairs of related texts"
		alpha := make([]rune, 6)
		for i := range alpha {
			alpha[i] = caseRunes[w.rng.Intn(len(caseRunes))]
			if w.rng.Intn(4) == 0 {
				alpha[i] = rune("abKSsxyZ"[w.rng.Intn(8)])
			}
		}
		a, b := w.related(alpha)
		folding := true
		for _, r := range append(append([]rune{}, a...), b...) {
			folding = folding && usable[r]
		}
		if folding {
			w.cnt["case_pairs"]++
		}
		compare(w, a, b, folding)
		if w.rng.Intn(3) == 0 {
			b = b[:0]
			if len(a) > 0 {
				i := w.rng.Intn(len(a))
				b = append(b, a[i:i+w.rng.Intn(len(a)-i+1)]...)
				for k := range b {
					if r := unicode.SimpleFold(b[k]); w.rng.Intn(2) == 0 && usable[r] {
						b[k] = r
					}
				}
			}
			compare(w, a, b, folding)
		}
		compare(w, w.text(), w.runes(w.rng.Intn(4)), false)
	})
	t.differential(t.n(5000), func(w *wk) {
		w.desc = "several texts"
		// groups of texts sharing prefixes and suffixes
		n := w.rng.Intn(6)
		alpha := []rune{w.rune(), w.rune(), 'a'}
		texts := make([][]rune, n)
		strs := make([]string, n)
		pre := make([]rune, w.rng.Intn(6))
		for i := range pre {
			pre[i] = alpha[w.rng.Intn(3)]
		}
		equal := w.rng.Intn(6) == 0
		for i := range texts {
			r := append([]rune{}, pre...)
			if w.rng.Intn(6) == 0 {
				r = r[:w.rng.Intn(len(r)+1)]
			}
			if !equal {
				for k := w.rng.Intn(4); k > 0; k-- {
					r = append(r, alpha[w.rng.Intn(3)])
				}
			}
			if equal && i > 0 {
				r = texts[0]
			}
			texts[i] = r
			strs[i] = string(r)
		}
		key := fmt.Sprintf("%.6q", strs)
		lcp := 0
		if n > 0 {
			for done := false; !done; {
				for _, r := range texts {
					if lcp >= len(r) || r[lcp] != texts[0][lcp] {
						done = true
						break
					}
				}
				if !done {
					lcp++
				}
			}
		}
		want := lcp
		if n < 2 {
			want = -1
		} else {
			alleq := true
			for _, r := range texts {
				alleq = alleq && len(r) == lcp
			}
			if alleq {
				want = -1
			}
		}
		pref := ""
		if n > 0 {
			pref = string(texts[0][:lcp])
		}
		var gi int
		var gp string
		w.call("IndexOfDifference"+key, func() { gi = xstring.IndexOfDifference(strs...) })
		w.call("CommonPrefix"+key, func() { gp = xstring.CommonPrefix(strs...) })
		if gi != want {
			w.fail("index", "IndexOfDifference%s = %d, want %d", key, gi, want)
		}
		if gp != pref {
			w.fail("prefix", "CommonPrefix%s = %s, want %s", key, qs(gp), qs(pref))
		}
		w.ev(n > 1, "group"+key)
		// predicates over several texts
		s := string(w.text())
		if n > 0 && w.rng.Intn(2) == 0 {
			s = strs[w.rng.Intn(n)]
		}
		if w.rng.Intn(2) == 0 {
			s = string(w.runes(w.rng.Intn(3))) + s
		}
		anyEq, anyEnd, anySub, anyEmpty, anyBlank := false, false, false, n == 0, n == 0
		for i := range strs {
			anyEq = anyEq || strs[i] == s
			k := len([]rune(s)) - len(texts[i])
			anyEnd = anyEnd || s != "" && k >= 0 && eqRunes([]rune(s)[k:], texts[i])
			for p := 0; p+len(strs[i]) <= len(s); p++ {
				anySub = anySub || s[p:p+len(strs[i])] == strs[i]
			}
			anyEmpty = anyEmpty || strs[i] == ""
			blank := true
			for _, r := range texts[i] {
				blank = blank && unicode.IsSpace(r)
			}
			anyBlank = anyBlank || blank
		}
		boolean := func(name string, f func() bool, want bool) {
			k := fmt.Sprintf("%s(%s, %s)", name, qs(s), key)
			var got bool
			w.call(k, func() { got = f() })
			if got != want {
				w.fail("predicate", "%s = %v", k, got)
			}
			w.ev(n > 0, k)
			if want {
				w.cnt["true_answers"]++
			}
		}
		boolean("EqualsAny", func() bool { return xstring.EqualsAny(s, strs...) }, anyEq)
		boolean("EndsWithAny", func() bool { return xstring.EndsWithAny(s, strs...) }, anyEnd)
		boolean("ContainsAnySubstrings", func() bool { return xstring.ContainsAnySubstrings(s, strs) }, anySub)
		boolean("IsAnyEmpty", func() bool { return xstring.IsAnyEmpty(strs...) }, anyEmpty)
		boolean("IsNoneEmpty", func() bool { return xstring.IsNoneEmpty(strs...) }, !anyEmpty)
		boolean("IsAnyBlank", func() bool { return xstring.IsAnyBlank(strs...) }, anyBlank)
		boolean("IsNoneBlank", func() bool { return xstring.IsNoneBlank(strs...) }, !anyBlank)
		for i := range strs {
			if strs[i] != string(texts[i]) {
				w.fail("argument", "the caller's list of texts %s was changed: item %d is %s", key, i, qs(strs[i]))
			}
		}
	})
	classes := [][]rune{
		{'a', 'Z', 'é', '中', 0x1c5, 0xac00, 0x10400}, // letters
		{'0', '7', '9', 0x661, 0x966, 0xff11, 0x1d7d8},
		{' ', '\t', '\n', 0x85, 0xa0, 0x2003, 0x3000, 0x2028, 0x1680},
		{'.', '-', '_', 0x2168, 0x301, 0x200b, 0xfeff, 0x1f600, 0xb2, 0xfffd, 0},
		{'0', '1', '5', '9'},
		{'0', '1', '9', '.'},
	}
	t.differential(t.n(6000), func(w *wk) {
		w.desc = "classification"
		c := w.rng.Intn(len(classes))
		rs := make([]rune, w.rng.Intn(7))
		if w.rng.Intn(30) == 0 {
			rs = make([]rune, 30+w.rng.Intn(60))
		}
		for i := range rs {
			rs[i] = classes[c][w.rng.Intn(len(classes[c]))]
		}
		if c == 5 { // at most one point
			for i, first := 0, true; i < len(rs); i++ {
				if rs[i] == '.' && (!first || i == 0 && w.rng.Intn(2) == 0) {
					rs[i] = '3'
				} else if rs[i] == '.' {
					first = false
				}
			}
		}
		if len(rs) > 0 && w.rng.Intn(2) == 0 { // one foreign character anywhere
			k := w.rng.Intn(len(classes))
			at := w.rng.Intn(len(rs))
			if w.rng.Intn(2) == 0 {
				at = []int{0, len(rs) - 1}[w.rng.Intn(2)]
			}
			rs[at] = classes[k][w.rng.Intn(len(classes[k]))]
		}
		if w.rng.Intn(6) == 0 {
			rs = w.runes(w.rng.Intn(4))
		}
		s := string(rs)
		ok := func(f func(r rune) bool, empty bool) bool {
			if len(rs) == 0 {
				return empty
			}
			for _, r := range rs {
				if !f(r) {
					return false
				}
			}
			return true
		}
		letter := func(r rune) bool { return unicode.Is(unicode.L, r) }
		digit := func(r rune) bool { return unicode.Is(unicode.Nd, r) }
		space := func(r rune) bool { return unicode.Is(unicode.White_Space, r) }
		dec, points := len(rs) > 0 && rs[0] >= '0' && rs[0] <= '9', 0
		for _, r := range rs {
			if r == '.' {
				points++
			} else if r < '0' || r > '9' {
				dec = false
			}
		}
		dec = dec && points < 2
		blank := ok(space, true)
		boolean := func(name string, got, want bool) {
			if got != want {
				w.fail("class", "%s(%s) = %v", name, qs(s), got)
			}
			w.ev(s != "", name+s)
			if want {
				w.cnt["true_answers"]++
			}
		}
		w.call("classification of "+qs(s), func() {
			boolean("IsAlpha", xstring.IsAlpha(s), ok(letter, false))
			boolean("IsAlphanumeric", xstring.IsAlphanumeric(s), ok(func(r rune) bool { return letter(r) || digit(r) }, false))
			boolean("IsNumeric", xstring.IsNumeric(s), ok(digit, false))
			boolean("IsNumerical", xstring.IsNumerical(s), dec)
			boolean("IsBlank", xstring.IsBlank(s), blank)
			boolean("IsNotBlank", xstring.IsNotBlank(s), !blank)
			boolean("IsEmpty", xstring.IsEmpty(s), s == "")
			boolean("IsNotEmpty", xstring.IsNotEmpty(s), s != "")
			boolean("DefaultIfBlank", xstring.DefaultIfBlank(s, "d") == "d" && (blank || s == "d") || xstring.DefaultIfBlank(s, "d") == s && !blank, true)
			boolean("DefaultIfEmpty", xstring.DefaultIfEmpty(s, "d") == "d" && (s == "" || s == "d") || xstring.DefaultIfEmpty(s, "d") == s && s != "", true)
			for _, d := range []string{"", " \t", "\u2003", "世界", s} {
				wb, we := s, s
				if blank {
					wb = d
				}
				if s == "" {
					we = d
				}
				boolean("DefaultIfBlank with "+qs(d), xstring.DefaultIfBlank(s, d) == wb, true)
				boolean("DefaultIfEmpty with "+qs(d), xstring.DefaultIfEmpty(s, d) == we, true)
			}
		})
	})
}

// ---- C29 -----------------------------------------------------------------

func checkAbbreviate(t *T) {
	t.rule = "an abbreviation whose result was located in a text of distinct characters and judged for width, position and refusal; non-trivial when the text had to be cut or the width was refused; distinct by text length, marker, offset and width"
	one := func(w *wk, n int, marker []rune, offset, width int) {
		rs := make([]rune, n)
		base := []rune{0x100, 0x4e00, 0x10000, 'A'}[w.rng.Intn(4)]
		if base == 'A' && n > 26 {
			base = 0x4e00
		}
		for i := range rs {
			rs[i] = base + rune(i)
		}
		if w.rng.Intn(4) == 0 && n > 0 {
			rs[w.rng.Intn(n)] = []rune{'1', 0xe9, 0xfffd, 0x1f600}[w.rng.Intn(4)]
		}
		in, mk := string(rs), string(marker)
		m := len(marker)
		key := fmt.Sprintf("Abbreviate(%s, %q, %d, %d)", qs(in), mk, offset, width)
		var got string
		var err error
		w.call(key, func() { got, err = xstring.Abbreviate(in, mk, offset, width) })
		g := []rune(got)
		bad := func(format string, a ...interface{}) {
			w.fail("abbreviate", "%s = %s, %v: %s", key, qs(got), err, fmt.Sprintf(format, a...))
		}
		trivial := true
		defer func() { w.ev(!trivial, key) }()
		switch {
		case n == 0:
			if m > 0 || width > 0 {
				if err != nil || got != "" {
					bad("an empty text stays empty")
				}
			}
			return
		case m == 0:
			if width > 0 {
				trivial = n <= width
				if err != nil || !eqRunes(g, rs[:min(n, width)]) {
					bad("want plain truncation")
				}
			}
			return
		case width < m+1:
			trivial = false
			w.cnt["refused"]++
			if err == nil {
				bad("the width does not fit the marker")
			}
			if got != "" {
				bad("a refusal returns no text")
			}
			return
		case n <= width:
			if err != nil || got != in {
				bad("the text fits")
			}
			return
		}
		trivial = false
		// adjusted: as late as the last full part
		adj := max(0, min(offset, n))
		if n-adj < width-m {
			adj = n - (width - m)
		}
		if err != nil {
			w.cnt["refused"]++
			if width >= 2*m+1 {
				bad("the width fits a marker on each side")
			}
			if adj <= m+1 {
				bad("the beginning with one marker fits")
			}
			if got != "" {
				bad("a refusal returns no text")
			}
			return
		}
		if width < 2*m+1 && adj > m+1 && adj+width-m < n {
			bad("a marker on each side does not fit")
		}
		if len(g) > width {
			bad("%d characters", len(g))
		}
		if len(g) != width {
			bad("%d characters leave part of the width unused", len(g))
		}
		if eqRunes(g, rs) {
			bad("the text does not fit")
		}
		// locate the part shown
		pos := map[rune]int{}
		for i, r := range rs {
			pos[r] = i
		}
		try := func(l, r bool) (int, int, bool) {
			p := g
			if l {
				if len(p) < m || !eqRunes(p[:m], marker) {
					return 0, 0, false
				}
				p = p[m:]
			}
			if r {
				if len(p) < m || !eqRunes(p[len(p)-m:], marker) {
					return 0, 0, false
				}
				p = p[:len(p)-m]
			}
			if len(p) == 0 {
				return 0, 0, false
			}
			s, ok := pos[p[0]]
			if !ok || s+len(p) > n || !eqRunes(rs[s:s+len(p)], p) {
				return 0, 0, false
			}
			e := s + len(p)
			return s, e, (l == (s > 0)) && (r == (e < n))
		}
		var s, e int
		ok := false
		kind := ""
		for _, x := range []struct {
			l, r bool
			k    string
		}{{false, true, "end"}, {true, false, "start"}, {true, true, "both"}} {
			if s, e, ok = try(x.l, x.r); ok {
				kind = x.k
				break
			}
		}
		if !ok {
			bad("not a contiguous part with the marker exactly where something was cut")
		}
		w.cnt["cut_"+kind]++
		if offset <= 0 && s != 0 {
			bad("the beginning was requested")
		}
		if offset >= 0 && width >= 2*m+2 {
			o := min(offset, n-1)
			if o < s || o >= e {
				bad("offset %d is not in the part shown, %d to %d", offset, s, e)
			}
		}
	}
	markers := []string{"...", ".", "…", "", "--", "‹>", "💡💡", "[....]"}
	t.differential(t.n(16000), func(w *wk) {
		n := w.rng.Intn(30)
		switch w.rng.Intn(12) {
		case 0:
			n = 30 + w.rng.Intn(300)
		case 1:
			n = 0
		}
		mk := []rune(markers[w.rng.Intn(len(markers))])
		width := w.rng.Intn(n + 6)
		switch w.rng.Intn(8) {
		case 0:
			width = len(mk)*w.rng.Intn(3) + w.rng.Intn(4) - 1
		case 1:
			width = n + w.rng.Intn(4) - 2
		case 2:
			width = []int{math.MaxInt, 1 << 40, 0, -1, math.MinInt, 1}[w.rng.Intn(6)]
		}
		offset := w.rng.Intn(n + 3)
		switch w.rng.Intn(8) {
		case 0:
			offset = 0
		case 1:
			offset = []int{math.MaxInt, n, n - 1, n + 1, -1, -n, math.MinInt, math.MinInt + w.rng.Intn(2*n+2), -1 << 62}[w.rng.Intn(9)]
		case 2:
			offset = n - width + len(mk) + w.rng.Intn(5) - 2
			if width > 1<<30 || width < -(1<<30) {
				offset = 3
			}
		}
		one(w, n, mk, offset, width)
	})
	// every small case
	t.differential(t.n(400), func(w *wk) {
		w.desc = "small cases"
		n, m := w.rng.Intn(14), w.rng.Intn(4)
		mk := []rune("<->")[:m]
		for width := -1; width <= n+2; width++ {
			for offset := -2; offset <= n+2; offset++ {
				one(w, n, mk, offset, width)
			}
		}
	})
}

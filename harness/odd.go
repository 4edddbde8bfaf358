package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/xtask"
)

// Unusual values: nil, zero values, typed nils, values that cannot be
// compared, functions, errors, channels, not-a-number. The facilities that
// carry values must treat them like any others.

type oddStruct struct {
	a []int
	b string
}

func oddOne(r *rand.Rand) interface{} {
	switch r.Intn(46) {
	case 0, 1, 2, 3:
		return nil
	case 29, 30:
		s := "same"
		return &s
	case 31:
		return []string{"a", "b"}
	case 32:
		return []error{io.EOF}
	case 33:
		return []byte("ab")
	case 34:
		return oddItems{1, 2}
	case 35:
		return [][]interface{}{{1}, {2}}
	case 36:
		return &[]interface{}{1, 2}
	case 37:
		return [2]interface{}{1, 2}
	case 38:
		return xstream.Of(1, 2)
	case 39:
		return xstream.ErrNoElement
	case 40:
		return func() interface{} { return r }
	case 41:
		c := make(chan interface{}, 2)
		c <- 1
		close(c)
		return (<-chan interface{})(c)
	case 42:
		return oddText("same")
	case 43:
		return reflect.ValueOf(1)
	case 44:
		return &oddErr{"same"}
	case 45:
		return []interface{}{[]interface{}{1, nil}, []string{"a"}}
	case 4:
		return 0
	case 5:
		return ""
	case 6:
		return false
	case 7:
		return (*int)(nil)
	case 8:
		return (error)((*oddErr)(nil))
	case 9:
		return io.EOF
	case 10:
		return errors.New("odd")
	case 11:
		return struct{}{}
	case 12:
		return []int{r.Int()}
	case 13:
		return []int(nil)
	case 14:
		return []interface{}{}
	case 15:
		return []interface{}{nil, 1}
	case 16:
		return map[string]int{"a": r.Int()}
	case 17:
		return map[string]int(nil)
	case 18:
		n := r.Int()
		return func() int { return n }
	case 19:
		return (func())(nil)
	case 20:
		return make(chan interface{})
	case 21:
		return math.NaN()
	case 22:
		return oddStruct{[]int{1}, "x"}
	case 23:
		n := r.Int()
		return &n
	case 24:
		return math.Copysign(0, -1)
	case 25:
		return [2]int{1, 2}
	case 26:
		return context.Canceled
	case 27:
		return reflect.ValueOf(nil)
	case 28:
		return -1
	}
	return true
}

// what somebody might take for a list of items, or for its text
type (
	oddItems []interface{}
	oddText  string
)

func (x oddText) String() string { return "text" }

type oddErr struct{ s string }

func (e *oddErr) Error() string {
	if e == nil {
		return "nil oddErr"
	}
	return e.s
}

// ident tells values apart, whatever they are.
func ident(v interface{}) string {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr, reflect.Func, reflect.Map, reflect.Chan:
		return fmt.Sprintf("%T %#x", v, rv.Pointer())
	case reflect.Slice:
		return fmt.Sprintf("%T %#x %d %v", v, rv.Pointer(), rv.Len(), rv.IsNil())
	case reflect.Float64:
		return fmt.Sprintf("float64 %#x", math.Float64bits(rv.Float()))
	}
	return fmt.Sprintf("%T %+v", v, v)
}

func idents(l []interface{}) []string {
	out := make([]string, len(l))
	for i, v := range l {
		out[i] = ident(v)
	}
	return out
}

func multiset(l []string) string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func oddList(r *rand.Rand, n int) []interface{} {
	l := make([]interface{}, n)
	for i := range l {
		l[i] = oddOne(r)
	}
	return l
}

// oddKey returns a comparable key.
func oddKeys(r *rand.Rand) []interface{} {
	x, y := 1, 1
	s1, s2 := "same", "same"
	l := []interface{}{&s1, &s2, "same", oddText("same"), oddText("text"), &oddErr{"same"}, &oddErr{"same"}, xstream.ErrNoElement, nil, 0, int8(0), int64(0), uint(0), 0.0, "", "0", false, struct{}{}, [0]int{}, [1]string{"a"}, (*int)(nil), (*oddErr)(nil), &x, &y,
		io.EOF, errors.New("odd"), errors.New("odd"), make(chan int), 'a', "a", byte('a'), complex(0, 0), [2]interface{}{nil, 1}, [2]interface{}{1, nil}, math.Inf(1), true}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l[:3+r.Intn(10)]
}

var odds = map[string]func(t *T, r *rand.Rand) string{
	"C01": oddC01, "C02": oddC02, "C03": oddC03, "C04": oddC04, "C06": oddC06, "C08": oddC08, "C09": oddC09, "C10": oddC10, "C13": oddC13, "C14": oddC14,
	"C19": oddC19, "C20": oddC20, "C21": oddC21, "C22": oddC22, "C23": oddC23,
}

// odd runs episodes on unusual values.
func (t *T) odd() {
	f := odds[t.prop]
	if f == nil {
		return
	}
	t.quiet()
	for i := 0; i < t.n(300); i++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		if i%4 == 3 {
			t.noise()
		} else {
			t.quiet()
		}
		t.setCase("unusual values %d", i)
		s := f(t, r)
		t.eval()
		t.count("unusual_value_episodes", 1)
		t.seen("odd " + s)
	}
	t.quiet()
}

func (t *T) sameList(what string, got, want []interface{}) {
	g, w := idents(got), idents(want)
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		t.failf("values", "%s: got %q, want %q", what, g, w)
	}
}

func (t *T) sameBag(what string, got, want []interface{}) {
	g, w := idents(got), idents(want)
	if multiset(g) != multiset(w) {
		t.failf("values", "%s: got %q, want in any order %q", what, g, w)
	}
}

// ---- maps ----------------------------------------------------------------

// oddMap compares a map with a dictionary, one step.
func oddMap(t *T, m *xsync.Map, ref map[interface{}]interface{}, keys []interface{}, r *rand.Rand) string {
	k := keys[r.Intn(len(keys))]
	v := oddOne(r)
	old, had := ref[k]
	bad := func(op string, x interface{}, ok bool) {
		t.failf("values", "%s of key %s with value %s, which held (%s,%v), gives (%s,%v)", op, ident(k), ident(v), ident(old), had, ident(x), ok)
	}
	op := r.Intn(8)
	switch op {
	case 0:
		m.Store(k, v)
		ref[k] = v
	case 1:
		x, ok := m.LoadOrStore(k, v)
		w := v
		if had {
			w = old
		} else {
			ref[k] = v
		}
		if ok != had || ident(x) != ident(w) {
			bad("LoadOrStore", x, ok)
		}
	case 2:
		x, ok := m.LoadAndDelete(k)
		if ok != had || ident(x) != ident(old) {
			bad("LoadAndDelete", x, ok)
		}
		delete(ref, k)
	case 3:
		m.Delete(k)
		delete(ref, k)
	case 4:
		calls := 0
		x, ok := m.ComputeIfAbsent(k, func(kk interface{}) interface{} {
			calls++
			if kk != k {
				t.failf("values", "the callback of key %s got %s", ident(k), ident(kk))
			}
			return v
		})
		w := v
		if had {
			w = old
		} else {
			ref[k] = v
		}
		if ok != had || ident(x) != ident(w) || had && calls != 0 || !had && calls < 1 {
			bad("ComputeIfAbsent", x, ok)
		}
	case 5:
		calls := 0
		x, ok := m.ComputeIfPresent(k, func(kk, o interface{}) interface{} {
			calls++
			if kk != k || ident(o) != ident(old) {
				t.failf("values", "the callback of (%s,%s) got (%s,%s)", ident(k), ident(old), ident(kk), ident(o))
			}
			return v
		})
		var w interface{}
		if had {
			w = v
			ref[k] = v
		}
		if ok != had || ident(x) != ident(w) || had && calls < 1 || !had && calls != 0 {
			bad("ComputeIfPresent", x, ok)
		}
	case 6:
		if r.Intn(12) == 0 {
			m.Clear()
			for k := range ref {
				delete(ref, k)
			}
		}
	}
	x, ok := m.Load(k)
	w, has := ref[k]
	if ok != has || ident(x) != ident(w) {
		bad(fmt.Sprint("Load after operation ", op), x, ok)
	}
	return fmt.Sprint(op, ident(k), ident(v), had)
}

func oddRange(t *T, m *xsync.Map, ref map[interface{}]interface{}) {
	got := map[interface{}]interface{}{}
	m.Range(func(k, v interface{}) bool {
		if _, dup := got[k]; dup {
			t.failf("values", "key %s is reported twice", ident(k))
		}
		got[k] = v
		return true
	})
	if len(got) != len(ref) {
		t.failf("values", "%d keys are reported, %d are there", len(got), len(ref))
	}
	for k, v := range ref {
		x, ok := got[k]
		if !ok || ident(x) != ident(v) {
			t.failf("values", "key %s with %s is reported as (%s,%v)", ident(k), ident(v), ident(x), ok)
		}
	}
}

func oddC03(t *T, r *rand.Rand) string {
	var s strings.Builder
	t.do("unusual keys and values", func() {
		m := &xsync.Map{}
		ref := map[interface{}]interface{}{}
		keys := oddKeys(r)
		for i := 0; i < 40; i++ {
			s.WriteString(oddMap(t, m, ref, keys, r))
			if r.Intn(10) == 0 {
				oddRange(t, m, ref)
			}
		}
		oddRange(t, m, ref)
		// the sharded map
		sm := xsync.NewSharedMap(xsync.WithShardBlockSize(1 + r.Intn(4)))
		for i := 0; i < 10; i++ {
			v := oddOne(r)
			k := fmt.Sprint("k", r.Intn(3))
			sm.MStore(map[string]interface{}{k: v})
			x, ok := sm.Load(k)
			if !ok || ident(x) != ident(v) || !sm.Has(k) {
				t.failf("values", "sharded: %s loads as (%s,%v)", ident(v), ident(x), ok)
			}
			if sm.LoadOrStore(k, 1) {
				t.failf("values", "sharded: LoadOrStore replaces %s", ident(v))
			}
		}
	})
	return s.String()
}

// oddC01 has every goroutine work on its own keys of one map.
func oddC01(t *T, r *rand.Rand) string {
	m := &xsync.Map{}
	var fns []func()
	keys := oddKeys(r)
	outs := make([]string, 3)
	for g := 0; g < 3; g++ {
		g, rr := g, rand.New(rand.NewSource(r.Int63()))
		fns = append(fns, func() {
			ref := map[interface{}]interface{}{}
			own := keys[g*len(keys)/3 : (g+1)*len(keys)/3]
			if len(own) == 0 {
				return
			}
			var s strings.Builder
			for i := 0; i < 12; i++ {
				if k := rr.Intn(3); k == 0 {
					dwell(rr)
				}
				// no clear: the other goroutines' keys are in the map
				s.WriteString(oddStep(t, m, ref, own, rr))
			}
			outs[g] = s.String()
		})
	}
	t.par("unusual values from several goroutines", fns...)
	return strings.Join(outs, "/")
}

func oddStep(t *T, m *xsync.Map, ref map[interface{}]interface{}, own []interface{}, r *rand.Rand) string {
	for {
		// draw until the step is not a clear
		seed := r.Int63()
		probe := rand.New(rand.NewSource(seed))
		probe.Intn(len(own))
		oddOne(probe)
		if probe.Intn(8) == 6 {
			continue
		}
		return oddMap(t, m, ref, own, rand.New(rand.NewSource(seed)))
	}
}

func oddC02(t *T, r *rand.Rand) string {
	var keys []interface{}
	t.do("iteration over unusual keys and values", func() {
		m := &xsync.Map{}
		ref := map[interface{}]interface{}{}
		keys = oddKeys(r)
		for i, k := range keys {
			v := oddOne(r)
			m.Store(k, v)
			ref[k] = v
			if i%3 == 2 {
				oddRange(t, m, ref)
			}
			if i%4 == 3 {
				m.Delete(keys[i/2])
				delete(ref, keys[i/2])
			}
		}
		oddRange(t, m, ref)
		stop, calls := 1+r.Intn(len(keys)), 0
		m.Range(func(k, v interface{}) bool { calls++; return calls < stop })
		if calls != min(stop, len(ref)) {
			t.failf("values", "iteration over %d keys, stopped at callback %d, made %d", len(ref), stop, calls)
		}
	})
	return strings.Join(idents(keys), "/")
}

func oddC04(t *T, r *rand.Rand) string {
	m := &xsync.Map{}
	k := oddKeys(r)[0]
	first := oddOne(r)
	const per = 8
	n := 2 + r.Intn(3)
	// concurrent updates with unusual values: the pairs (given, made) of all
	// callbacks that counted form one chain
	if r.Intn(2) == 0 {
		m.Store("other", 1)
		m.Load("none")
	}
	x, loaded := m.ComputeIfAbsent(k, func(interface{}) interface{} { return first })
	if loaded || ident(x) != ident(first) {
		t.failf("values", "ComputeIfAbsent of %s gives (%s,%v)", ident(first), ident(x), loaded)
	}
	type link struct{ from, to string }
	logs := make([][]link, n)
	var fns []func()
	for g := 0; g < n; g++ {
		g, rr := g, rand.New(rand.NewSource(r.Int63()))
		fns = append(fns, func() {
			for i := 0; i < per; i++ {
				var l link
				got, ok := m.ComputeIfPresent(k, func(_, o interface{}) interface{} {
					v := oddOne(rr)
					l = link{ident(o), ident(v)}
					return v
				})
				if !ok || ident(got) != l.to {
					t.failf("values", "ComputeIfPresent of %s gives (%s,%v)", l.to, ident(got), ok)
				}
				logs[g] = append(logs[g], l)
				if a, loaded := m.ComputeIfAbsent(k, func(interface{}) interface{} { return "absent?" }); !loaded || a == "absent?" {
					t.failf("values", "a present key is computed anew: %s", ident(a))
				}
			}
		})
	}
	t.par("updates with unusual values", fns...)
	last, _ := m.Load(k)
	// every value is left as often as it is entered
	bal := map[string]int{ident(first): 1}
	bal[ident(last)]--
	for _, l := range logs {
		for _, x := range l {
			bal[x.from]--
			bal[x.to]++
		}
	}
	for v, b := range bal {
		if b != 0 {
			t.failf("values", "updates do not form a chain from %s to %s: %s is off by %d: %v", ident(first), ident(last), v, b, logs)
		}
	}
	return fmt.Sprint(logs)
}

// ---- cells, barriers, rings ----------------------------------------------

type structCloser struct {
	id     []int
	closed *int
}

func (c structCloser) Close() error { *c.closed++; return nil }

type funcCloser func() error

func (f funcCloser) Close() error { return f() }

// oddC06 manages resources of unusual types: values that cannot be compared,
// functions, typed nils.
func oddC06(t *T, r *rand.Rand) string {
	m := xsync.NewResourceManager()
	var log []string
	t.do("unusual resources", func() {
		count := map[string]*int{}
		type have struct {
			x io.Closer
			s string
		}
		live := map[string]have{}
		for i := 0; i < 12; i++ {
			k := []string{"", "a", "A", "\x00"}[r.Intn(4)]
			if r.Intn(4) == 0 {
				ok := m.Remove(k)
				if _, has := live[k]; ok != has {
					t.failf("values", "Remove(%q)=%v", k, ok)
				}
				delete(live, k)
				log = append(log, "remove "+k)
				continue
			}
			if _, has := live[k]; !has && r.Intn(3) == 0 {
				want := knownErr(r)
				x, err := m.Get(k, func() (io.Closer, error) { return nil, want })
				if x != nil || !sameErr(err, want) {
					t.failf("values", "Get(%q) whose creation fails with %s gives %v, %s", k, ident(want), x, ident(err))
				}
				log = append(log, "fail "+ident(want))
				continue
			}
			made := false
			var mine io.Closer
			x, err := m.Get(k, func() (io.Closer, error) {
				made = true
				n := new(int)
				count[fmt.Sprint(i)] = n
				switch r.Intn(3) {
				case 0:
					mine = structCloser{[]int{i}, n}
				case 1:
					mine = funcCloser(func() error { *n++; return nil })
				default:
					mine = &structCloser{nil, n}
				}
				return mine, nil
			})
			_, has := live[k]
			if err != nil || made == has {
				t.failf("values", "Get(%q): %v, created: %v, present: %v", k, err, made, has)
			}
			s := oddCloser(x)
			if made {
				live[k] = have{x, oddCloser(mine)}
			}
			if s != live[k].s {
				t.failf("values", "Get(%q) gives %s instead of %s", k, s, live[k].s)
			}
			log = append(log, fmt.Sprintf("get %s %T %v", k, x, made))
		}
		if err := m.Close(); err != nil {
			t.failf("values", "Close: %v", err)
		}
		closed := 0
		for _, n := range count {
			if *n > 1 {
				t.failf("values", "a resource was closed %d times", *n)
			}
			closed += *n
		}
		if closed != len(live) {
			t.failf("values", "%d resources closed, %d were there", closed, len(live))
		}
	})
	return strings.Join(log, ";")
}

func oddCloser(x io.Closer) string {
	switch c := x.(type) {
	case structCloser:
		return fmt.Sprintf("struct %v %p", c.id, c.closed)
	}
	return ident(x)
}

func oddC08(t *T, r *rand.Rand) string {
	l := oddList(r, 2+r.Intn(5))
	n := len(l)
	v, c := xonce.NewValue(), xonce.NewChan()
	ok := make([][2]bool, n)
	var fns []func()
	for i := range l {
		i := i
		fns = append(fns, func() {
			ok[i][0] = v.Write(l[i])
			if ok[i][0] && ident(v.Value()) != ident(l[i]) {
				t.failf("values", "the winner %s reads as %s", ident(l[i]), ident(v.Value()))
			}
			ok[i][1] = c.Write(l[i])
		})
	}
	if x := v.Value(); x != nil {
		t.failf("values", "an unset value reads as %s", ident(x))
	}
	t.par("unusual writes", fns...)
	var won [2]int
	var w [2]interface{}
	for i := range l {
		for k := 0; k < 2; k++ {
			if ok[i][k] {
				won[k]++
				w[k] = l[i]
			}
		}
	}
	if won != [2]int{1, 1} {
		t.failf("values", "%v of %d writes succeed", won, n)
	}
	if ident(v.Value()) != ident(w[0]) {
		t.failf("values", "the value is %s, written was %s", ident(v.Value()), ident(w[0]))
	}
	if v.Write(1) || c.Write(nil) {
		t.failf("values", "a later write succeeds after %s", ident(w[0]))
	}
	t.do("receives", func() {
		x, open := <-c.Chan()
		y, open2 := <-c.Chan()
		if !open || open2 || ident(x) != ident(w[1]) || y != nil {
			t.failf("values", "the channel delivers (%s,%v) and (%s,%v), written was %s", ident(x), open, ident(y), open2, ident(w[1]))
		}
	})
	return strings.Join(idents(l), "/")
}

func oddC09(t *T, r *rand.Rand) string {
	l := oddList(r, 1+r.Intn(8))
	capacity := r.Intn(len(l) + 2)
	mode := r.Intn(3) // both ends, writer only, reader only
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan interface{}, capacity)
	var got []interface{}
	t.par("unusual values through barriers", func() {
		b := xbarrier.NewWriteBarrier(ctx, ch)
		for _, v := range l {
			if mode == 2 {
				ch <- v
			} else if !b.Write(v) {
				t.failf("values", "a live write of %s fails", ident(v))
			}
		}
	}, func() {
		b := xbarrier.NewReadBarrier(ctx, ch)
		for range l {
			var v interface{}
			ok := true
			if mode == 1 {
				v = <-ch
			} else {
				v, ok = b.Read()
			}
			if !ok {
				t.failf("values", "a live read fails; before it: %q", idents(got))
			}
			got = append(got, v)
		}
	})
	t.sameList("values through the barriers", got, l)
	return fmt.Sprint(mode, capacity, idents(l))
}

func oddC19(t *T, r *rand.Rand) string {
	n := 1 + r.Intn(5)
	l := oddList(r, r.Intn(12))
	t.do("ring of unusual values", func() {
		g := xring.NewRing(n)
		for i, v := range l {
			g.Add(v)
			lo := max(0, i+1-n)
			t.sameList(fmt.Sprintf("ring of %d", n), g.Take(), l[lo:i+1])
		}
	})
	return fmt.Sprint(n, idents(l))
}

// oddC10 has the function return unusual errors and panic with unusual values.
func oddC10(t *T, r *rand.Rand) string {
	v := oddOne(r)
	var s string
	t.do("unusual outcomes", func() {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if e, ok := v.(error); ok || r.Intn(3) == 0 {
			if !ok {
				e = knownErr(r)
				if r.Intn(6) == 0 {
					e = xtErr{[]int{1}}
				}
			}
			cleanups := 0
			err := xtask.Do(ctx, func() error { return e }, func() { cleanups++ })
			if ident(err) != ident(e) || cleanups != 1 {
				t.failf("values", "the error %s is returned as %s, %d cleanups", ident(e), ident(err), cleanups)
			}
			if err := xtask.DoWithoutDefer(ctx, func() error { return e }); ident(err) != ident(e) {
				t.failf("values", "the error %s is returned as %s", ident(e), ident(err))
			}
			s = "error " + ident(e)
			return
		}
		if v == nil {
			v = "text"
		}
		cleanups := 0
		p, panicked := try(func() { _ = xtask.Do(ctx, func() error { panic(v) }, func() { cleanups++ }) })
		if !panicked || cleanups != 1 {
			t.failf("values", "a panic with %s: panicked %v (%v), %d cleanups", ident(v), panicked, p, cleanups)
		}
		s = "panic " + ident(v)
	})
	return s
}

type xtErr struct{ s []int }

func (xtErr) Error() string { return "uncomparable" }

// ---- mappings and streams ------------------------------------------------

func oddC13(t *T, r *rand.Rand) string {
	l := oddList(r, r.Intn(12))
	workers := 1 + r.Intn(3)
	stream := r.Intn(2) == 0
	var got, given []interface{}
	var mu sync.Mutex
	gen := func(source chan<- interface{}) {
		for _, v := range l {
			source <- v
		}
	}
	mapper := func(item interface{}, w xbarrier.Writer) {
		mu.Lock()
		given = append(given, item)
		mu.Unlock()
		for i := 0; i < 2; i++ {
			if !w.Write(item) {
				t.failf("values", "a live write of %s fails", ident(item))
			}
		}
	}
	t.do("mapping of unusual values", func() {
		opt := xmapreduce.WithWorkerSize(workers)
		if stream {
			xmapreduce.MapStream(context.Background(), gen, mapper, opt).Foreach(func(v interface{}) { got = append(got, v) })
		} else {
			for v := range xmapreduce.Map(context.Background(), gen, mapper, opt) {
				got = append(got, v)
			}
		}
	})
	var want []interface{}
	for _, v := range l {
		want = append(want, v, v)
	}
	mu.Lock()
	defer mu.Unlock()
	t.sameBag("items mapped", given, l)
	t.sameBag("outputs", got, want)
	if workers == 1 {
		t.sameList("outputs of one worker", got, want)
	}
	return fmt.Sprint(workers, stream, idents(l))
}

func oddC14(t *T, r *rand.Rand) string {
	l := oddList(r, 3+r.Intn(20))
	workers := 1 + r.Intn(3)
	stop := r.Intn(len(l))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var mu sync.Mutex
	var accepted, got []interface{}
	mapped := 0
	t.do("cancelled mapping of unusual values", func() {
		out := xmapreduce.Map(ctx, func(source chan<- interface{}) {
			for _, v := range l {
				source <- v
			}
		}, func(item interface{}, w xbarrier.Writer) {
			mu.Lock()
			mapped++
			mu.Unlock()
			if w.Write(item) {
				mu.Lock()
				accepted = append(accepted, item)
				mu.Unlock()
			}
		}, xmapreduce.WithWorkerSize(workers))
		for v := range out {
			if len(got) == stop {
				cancel()
			}
			got = append(got, v)
		}
	})
	// a mapper may still be about to note its success
	t.leak("cancelled mapping of unusual values")
	mu.Lock()
	defer mu.Unlock()
	t.sameBag("values received and values accepted", got, accepted)
	if mapped > len(l) || len(got) <= stop {
		t.failf("values", "%d of %d items mapped, %d received, cancelled after %d", mapped, len(l), len(got), stop)
	}
	return fmt.Sprint(workers, stop, idents(l))
}

func collect(s *xstream.Stream) (l []interface{}) {
	s.Foreach(func(v interface{}) { l = append(l, v) })
	return
}

func oddSource(r *rand.Rand, l []interface{}) *xstream.Stream {
	switch r.Intn(3) {
	case 0:
		return xstream.Of(l...)
	case 1:
		return xstream.From(func(source chan<- interface{}) {
			for _, v := range l {
				source <- v
			}
		})
	}
	c := make(chan interface{}, len(l))
	for _, v := range l {
		c <- v
	}
	close(c)
	return xstream.Range(c)
}

func oddC20(t *T, r *rand.Rand) string {
	l := oddList(r, r.Intn(10))
	n := len(l)
	k := r.Intn(n + 2)
	op := r.Intn(22)
	if op > 19 {
		// keys that are alike, yet not equal
		keys := oddKeys(r)
		if r.Intn(2) == 0 {
			a, b := "same", "same"
			keys = append(keys, &a, &b, &a)
		}
		ks := map[int]interface{}{}
		l = nil
		for i := r.Intn(30); i > 0; i-- {
			ks[i] = keys[r.Intn(len(keys))]
			l = append(l, i)
		}
		key := func(v interface{}) interface{} { return ks[v.(int)] }
		src := oddSource(r, l)
		t.setCase("unusual keys: operator %d on keys %q", op, idents(keys))
		t.do("operator on unusual keys", func() {
			var first []interface{}
			pos := map[interface{}]int{}
			var groups [][]interface{}
			for _, v := range l {
				p, ok := pos[key(v)]
				if !ok {
					p = len(groups)
					pos[key(v)] = p
					first = append(first, v)
					groups = append(groups, nil)
				}
				groups[p] = append(groups[p], v)
			}
			if op == 20 {
				t.sameList("Distinct", collect(src.Distinct(key)), first)
				return
			}
			var got, want []interface{}
			for _, g := range collect(src.Group(key)) {
				got = append(got, fmt.Sprint(g))
			}
			for _, g := range groups {
				want = append(want, fmt.Sprint(g))
			}
			t.sameBag("Group", got, want)
		})
		return fmt.Sprint("keys", op, idents(keys), len(l))
	}
	if op == 19 {
		l = listLike(r) // FlatMap passes over a nil
		n = len(l)
	}
	src := oddSource(r, l)
	t.setCase("unusual values: operator %d(%d) on %q", op, k, idents(l))
	key := func(v interface{}) interface{} { return ident(v) }
	t.do("operator on unusual values", func() {
		want := l
		switch op {
		case 0:
			t.sameList("Buffer", collect(src.Buffer(k)), want)
		case 1:
			t.sameList("Skip", collect(src.Skip(k)), l[min(k, n):])
		case 2:
			t.sameList("Limit", collect(src.Limit(k)), l[:min(k, n)])
		case 3:
			t.sameList("Tail", collect(src.Tail(k)), l[max(0, n-k):])
		case 4:
			var rev []interface{}
			for i := n; i > 0; i-- {
				rev = append(rev, l[i-1])
			}
			t.sameList("Reverse", collect(src.Reverse()), rev)
		case 5:
			t.sameList("Map", collect(src.Map(func(v interface{}) interface{} { return v })), l)
		case 6:
			t.sameList("Filter", collect(src.Filter(func(v interface{}) bool { return true })), l)
		case 7:
			var d []interface{}
			seen := map[string]bool{}
			for _, v := range l {
				if !seen[ident(v)] {
					seen[ident(v)] = true
					d = append(d, v)
				}
			}
			t.sameList("Distinct", collect(src.Distinct(key)), d)
		case 8:
			if c := src.Count(); c != n {
				t.failf("values", "Count is %d for %d elements", c, n)
			}
		case 9:
			v, err := src.FindFirst()
			if (err != nil) != (n == 0) || n > 0 && ident(v) != ident(l[0]) {
				t.failf("values", "FindFirst is (%s,%v) for %q", ident(v), err, idents(l))
			}
		case 10:
			v, err := src.FindLast()
			if (err != nil) != (n == 0) || n > 0 && ident(v) != ident(l[n-1]) {
				t.failf("values", "FindLast is (%s,%v) for %q", ident(v), err, idents(l))
			}
		case 11:
			// the predicate fails on element k
			var got []interface{}
			all := src.AllMach(func(v interface{}) bool { got = append(got, v); return len(got) != k+1 })
			t.sameList("AllMach's arguments", got, l[:min(k+1, n)])
			if all != (k >= n) {
				t.failf("values", "AllMach is %v, failing element %d of %q", all, k, idents(l))
			}
		case 12:
			var got []interface{}
			any := src.AnyMach(func(v interface{}) bool { got = append(got, v); return len(got) == k+1 })
			t.sameList("AnyMach's arguments", got, l[:min(k+1, n)])
			if any != (k < n) {
				t.failf("values", "AnyMach is %v, matching element %d of %q", any, k, idents(l))
			}
		case 13:
			out := collect(src.Merge())
			if len(out) != 1 {
				t.failf("values", "Merge yields %d elements", len(out))
			}
			t.sameList("Merge", out[0].([]interface{}), l)
		case 14:
			var got []interface{}
			src.ForeachOrdered(func(v interface{}) { got = append(got, v) })
			var rev []interface{}
			for i := n; i > 0; i-- {
				rev = append(rev, l[i-1])
			}
			t.sameList("ForeachOrdered", got, rev)
		case 15:
			t.sameList("Walk", collect(src.Walk(func(v interface{}, pipe chan<- interface{}) { pipe <- v; pipe <- nil })), func() (w []interface{}) {
				for _, v := range l {
					w = append(w, v, nil)
				}
				return
			}())
		case 16:
			// indistinguishable elements may be exchanged: sorted by name, any order
			out := collect(src.Sort(func(a, b interface{}) bool { return ident(a) < ident(b) }))
			t.sameBag("Sort", out, l)
			if g := idents(out); !sort.StringsAreSorted(g) {
				t.failf("values", "Sort yields %q", g)
			}
		case 17:
			t.sameList("Chan", func() (o []interface{}) {
				for v := range src.Chan() {
					o = append(o, v)
				}
				return
			}(), l)
		case 18:
			// every group is a non-empty slice of equals
			total := 0
			for _, g := range collect(src.Group(key)) {
				for _, v := range g.([]interface{}) {
					total++
					if ident(v) != ident(g.([]interface{})[0]) {
						t.failf("values", "unequal elements in one group")
					}
				}
			}
			if total != n {
				t.failf("values", "groups hold %d of %d elements", total, n)
			}
		case 19:
			var given []interface{}
			out := collect(src.FlatMap(func(v interface{}) interface{} { given = append(given, v); return v }))
			t.sameList("FlatMap", out, flat(l))
			t.sameList("FlatMap's arguments", given, flat(l))
		}
	})
	return fmt.Sprint(op, k, idents(l))
}

func noNil(l []interface{}) (o []interface{}) {
	for _, v := range l {
		if v != nil {
			o = append(o, v)
		}
	}
	return
}

// listLike gives elements, none of them nil, most of them like a list.
func listLike(r *rand.Rand) []interface{} {
	c := make(chan interface{}, 2)
	c <- 1
	close(c)
	l := oddList(r, r.Intn(5))
	for i := r.Intn(9); i > 0; i-- {
		l = append(l, []interface{}{
			[]string{"a", "b"}, []int{1, 2}, []error{io.EOF}, []byte("ab"), []rune("ab"), []bool{true}, []float64{1, 2}, []int64{3},
			[]map[string]interface{}{nil}, []*int{nil}, []struct{}{{}}, []fmt.Stringer{oddText("x")},
			oddItems{1, 2}, [][]interface{}{{1}, {2}}, &[]interface{}{1, 2}, [2]interface{}{1, 2}, [1]string{"a"},
			xstream.Of(1, 2), c, (<-chan interface{})(c), map[interface{}]interface{}{1: 2}, map[string]int{"a": 1},
			"ab", oddText("ab"), func() []interface{} { return []interface{}{1} }, func() interface{} { return 1 },
			[]interface{}{1, "a"}, []interface{}{}, []interface{}(nil), []interface{}{[]interface{}{1, nil}, []string{"a"}, nil},
		}[r.Intn(30)])
	}
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return noNil(l)
}

// flat opens the lists of items in l, and nothing else.
func flat(l []interface{}) (o []interface{}) {
	for _, v := range l {
		if x, ok := v.([]interface{}); ok {
			o = append(o, x...)
		} else {
			o = append(o, v)
		}
	}
	return
}

func oddC21(t *T, r *rand.Rand) string {
	l := oddList(r, r.Intn(14))
	workers := 1 + r.Intn(4)
	if r.Intn(4) == 0 {
		workers = r.Intn(40)
	}
	op := r.Intn(5)
	if op == 4 {
		l = listLike(r) // FlatMap passes over a nil
	}
	src := oddSource(r, l)
	var mu sync.Mutex
	var given []interface{}
	note := func(v interface{}) {
		mu.Lock()
		given = append(given, v)
		mu.Unlock()
	}
	w := xstream.WithWorkSize(workers)
	t.do("parallel stage on unusual values", func() {
		switch op {
		case 0:
			t.sameBag("Map", collect(src.Map(func(v interface{}) interface{} { note(v); return v }, w)), l)
		case 1:
			t.sameBag("Filter", collect(src.Filter(func(v interface{}) bool { note(v); return true }, w)), l)
		case 2:
			t.sameBag("Walk", collect(src.Walk(func(v interface{}, pipe chan<- interface{}) { note(v); pipe <- v }, w)), l)
		case 3:
			src.ParallelFinish(note, w)
		case 4:
			t.sameBag("FlatMap", collect(src.FlatMap(func(v interface{}) interface{} { note(v); return v }, w)), flat(l))
			l = flat(l)
		}
		mu.Lock()
		defer mu.Unlock()
		t.sameBag("function's arguments", given, l)
	})
	return fmt.Sprint(op, workers, idents(l))
}

func oddC22(t *T, r *rand.Rand) string {
	l := oddList(r, 2+r.Intn(8))
	n := len(l)
	op := r.Intn(5)
	k := 1 + r.Intn(n-1)
	// the source stays open until the result is there
	open := make(chan struct{})
	fed := make(chan struct{})
	src := xstream.From(func(source chan<- interface{}) {
		defer close(fed)
		for _, v := range l {
			source <- v
		}
		<-open
		for i := 0; i < 3; i++ {
			source <- nil
		}
	})
	t.do("early result from unusual values", func() {
		switch op {
		case 0:
			t.sameList("Limit", collect(src.Limit(k)), l[:k])
		case 1:
			v, err := src.FindFirst()
			if err != nil || ident(v) != ident(l[0]) {
				t.failf("values", "FindFirst is (%s,%v) for %q", ident(v), err, idents(l))
			}
		case 2:
			i := 0
			if !src.AnyMach(func(v interface{}) bool { i++; return i == k }) || i != k {
				t.failf("values", "AnyMach stopped at %d of %d", i, k)
			}
		case 3:
			i := 0
			if src.AllMach(func(v interface{}) bool { i++; return i < k }) || i != k {
				t.failf("values", "AllMach stopped at %d of %d", i, k)
			}
		case 4:
			t.sameList("empty tail", collect(src.Tail(0)), nil)
		}
	})
	close(open)
	t.await(fed, "the producer of unusual values")
	return fmt.Sprint(op, k, idents(l))
}

func oddC23(t *T, r *rand.Rand) string {
	l := oddList(r, r.Intn(10))
	l2 := oddList(r, r.Intn(6))
	n := len(l)
	k := 1 + r.Intn(n+1)
	op := r.Intn(6)
	src := oddSource(r, l)
	t.setCase("unusual values: fan %d(%d) on %q", op, k, idents(l))
	t.do("fan-out of unusual values", func() {
		switch op {
		case 0:
			t.sameBag("Concat", collect(src.Concat(oddSource(r, l2))), append(append([]interface{}{}, l...), l2...))
		case 1:
			m := src.Copy(map[string]int{"a": n, "b": 0, "c": 1})
			got := make([][]interface{}, 3)
			var wg sync.WaitGroup
			for i, name := range []string{"a", "b", "c"} {
				i, s := i, m[name]
				wg.Add(1)
				go func() {
					defer wg.Done()
					for v := range s.Chan() {
						got[i] = append(got[i], v)
					}
				}()
			}
			wg.Wait()
			for _, g := range got {
				t.sameList("Copy", g, l)
			}
		case 2:
			var peeked []interface{}
			t.sameList("Peek", collect(src.Peek(func(v interface{}) { peeked = append(peeked, v) })), l)
			t.sameList("peeked values", peeked, l)
		case 3:
			var all []interface{}
			for i, c := range collect(src.Split(k)) {
				p := c.([]interface{})
				if len(p) != min(k, n-i*k) {
					t.failf("values", "chunk %d of %d has %d elements", i, k, len(p))
				}
				all = append(all, p...)
			}
			t.sameList("Split", all, l)
		case 4:
			var all []interface{}
			src.SplitSteam(k).Foreach(func(s interface{}) { all = append(all, collect(s.(*xstream.Stream))...) })
			t.sameList("SplitSteam", all, l)
		case 5:
			g := xstream.GroupBy(func(v interface{}) interface{} { return reflect.TypeOf(v) })
			src.Collection(g)
			total := 0
			for typ, vs := range g.Map() {
				var want []interface{}
				for _, v := range l {
					if reflect.TypeOf(v) == typ {
						want = append(want, v)
					}
				}
				t.sameList("GroupBy", vs, want)
				total += len(vs)
			}
			if total != n {
				t.failf("values", "groups hold %d of %d elements", total, n)
			}
			again := 0
			for _, vs := range g.Map() {
				again += len(vs)
			}
			if again != n {
				t.failf("values", "asked again, groups hold %d of %d elements", again, n)
			}
		}
	})
	return fmt.Sprint(op, k, idents(l), idents(l2))
}

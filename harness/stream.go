package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/chenquan/go-pkg/xstream"
)

func init() {
	checks["C20"] = c20
	checks["C21"] = c21
	checks["C22"] = c22
	checks["C23"] = c23
}

type list = []interface{}

func spin(n int) {
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

// streamOf makes a finite stream of l in some way.
// ofList makes a stream of the items of l, and then uses l for something else.
func ofList(l list) *xstream.Stream {
	s := xstream.Of(l...)
	for i := range l {
		l[i] = "overwritten"
	}
	return s
}

func streamOf(r *rand.Rand, l list) (*xstream.Stream, string) {
	l = append(list(nil), l...)
	switch k := r.Intn(6); k {
	case 0:
		return ofList(l), "of"
	case 1:
		s := r.Intn(4)
		return xstream.From(func(c chan<- interface{}) {
			for _, v := range l {
				spin(s)
				c <- v
			}
		}), "from"
	case 2:
		c := make(chan interface{}, len(l))
		for _, v := range l {
			c <- v
		}
		close(c)
		return xstream.Range(c), "range(full)"
	case 3:
		c := make(chan interface{}, r.Intn(3))
		s := r.Intn(4)
		go func() {
			for _, v := range l {
				spin(s)
				c <- v
			}
			close(c)
		}()
		return xstream.Range(c), "range"
	case 4:
		return xstream.Concat(ofList(l)), "concat"
	default:
		if len(l) == 0 {
			return xstream.Empty(), "empty"
		}
		return ofList(l).Buffer(r.Intn(4) - 1), "buffer"
	}
}

func drainList(s *xstream.Stream) list {
	var l list
	for v := range s.Chan() {
		l = append(l, v)
	}
	return l
}

// show renders elements, chunks and sub-streams alike.
func show(l list) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for i, v := range l {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(show1(v))
	}
	sb.WriteByte(']')
	return sb.String()
}

func show1(v interface{}) string {
	switch x := v.(type) {
	case list:
		return show(x)
	case nil:
		return "nil"
	}
	return fmt.Sprint(v)
}

func reversed(l list) list {
	n := make(list, len(l))
	for i, v := range l {
		n[len(l)-1-i] = v
	}
	return n
}

// ---- C20 -----------------------------------------------------------------

func c20(t *T) {
	t.rule = "one evaluation = one random source (kind, content, length 0..14), pipeline of 0..6 sequential operators with boundary-seeking arguments and one terminal, compared with the same operations on a list; afterwards the goroutine dump must be clean; then every counting operator with arguments it must refuse; non-trivial = the pipeline is not empty; distinct = distinct (source, pipeline, terminal)"
	for e := 0; e < t.n(8000); e++ {
		c20one(t, e)
	}
	for _, n := range []int{0, -1, -2, -1 << 62} {
		for _, x := range []struct {
			op string
			f  func(s *xstream.Stream)
		}{
			{"split", func(s *xstream.Stream) { s.Split(n) }},
			{"splitsteam", func(s *xstream.Stream) { s.SplitSteam(n) }},
			{"tail", func(s *xstream.Stream) { s.Tail(n) }},
			{"skip", func(s *xstream.Stream) { s.Skip(n) }},
			{"limit", func(s *xstream.Stream) { s.Limit(n) }},
		} {
			refused := n < 0 || strings.HasPrefix(x.op, "split")
			for _, l := range []list{nil, ints(1), ints(3)} {
				t.setCase("%s(%d) of %d elements", x.op, n, len(l))
				c := make(chan interface{}, len(l))
				for _, v := range l {
					c <- v
				}
				close(c)
				if _, panicked := try(func() { x.f(xstream.Range(c)) }); panicked != refused {
					t.failf("refusal", "%s(%d) is refused: %v", x.op, n, panicked)
				}
				t.eval()
				t.count("boundary_arguments", 1)
			}
		}
	}
	t.quiet()
	t.leak("refused operators")
}

func c20one(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	if e%3 == 0 {
		t.noise()
	}
	n := r.Intn(10)
	if r.Intn(8) == 0 {
		n = 10 + r.Intn(30)
	}
	long := e%25 == 24
	if long {
		n = middle(r, 4000)
	}
	nils := r.Intn(8) == 0
	nested := r.Intn(6) == 0
	l := make(list, n)
	for i := range l {
		l[i] = r.Intn(6)
		if r.Intn(2) == 0 {
			l[i] = i
		}
		if nils && r.Intn(3) == 0 {
			l[i] = nil
		}
		if nested && r.Intn(2) == 0 {
			l[i] = ints(r.Intn(4))
		}
	}
	if long && !nils && !nested { // texts, more or less in order
		mess, span := r.Intn(4), 1+r.Intn(2*n)
		for i := range l {
			x := i
			if mess == 0 || mess == 1 && r.Intn(n) < 3 || mess == 2 && i > n-3 {
				x = r.Intn(span)
			}
			if mess == 3 {
				x = i * span % (n + 7)
			}
			l[i] = fmt.Sprintf("%05d", x)
		}
	}
	// the pipeline gets its own copies of elements that can be modified
	src := append(list(nil), l...)
	for i, v := range src {
		if x, is := v.(list); is {
			src[i] = append(make(list, 0, len(x)+2), x...)
		}
	}
	var desc []string
	// boundary-seeking argument
	arg := func() int {
		if r.Intn(12) == 0 { // far more than there are
			return []int{math.MaxInt, math.MaxInt - 1, 1 << 60, 1<<62 + 1, 1<<63 - 1<<32, 1<<48 + 2}[r.Intn(6)]
		}
		if long && r.Intn(2) == 0 {
			return r.Intn(len(l) + 2)
		}
		return []int{0, 1, 2, 3, len(l), len(l) + 1, max(len(l)-1, 0), len(l) / 2, 100}[r.Intn(9)]
	}
	key := func(v interface{}) string { return show1(v) }
	var plan []func(s *xstream.Stream) *xstream.Stream
	add := func(d string, f func(s *xstream.Stream) *xstream.Stream) {
		desc = append(desc, d)
		plan = append(plan, f)
	}
	opts := func() []xstream.Option {
		switch r.Intn(5) {
		case 0:
			return []xstream.Option{xstream.WithWorkSize(1)}
		case 1:
			return []xstream.Option{xstream.WithWorkSize(-r.Intn(3))}
		case 2:
			return []xstream.Option{xstream.WithWorkSize(4), xstream.WithOption(&xstream.Options{})}
		}
		return nil
	}
	for k := r.Intn(6); k > 0; k-- {
		o := opts()
		switch r.Intn(17) {
		case 0:
			m := 1 + r.Intn(3)
			kinds := r.Intn(3)
			// keys: texts, some of them nil, or of several types with one text
			dk := func(v interface{}) interface{} {
				x := key(v)[:min(len(key(v)), m)]
				switch {
				case kinds == 1 && x[len(x)-1]%2 == 0:
					return nil
				case kinds == 2:
					n := len(key(v))
					return []interface{}{n, int64(n), uint8(n), fmt.Sprint(n), float64(n)}[int(x[0])%5]
				}
				return x
			}
			add(fmt.Sprintf("distinct(%d/%d)", m, kinds), func(s *xstream.Stream) *xstream.Stream { return s.Distinct(dk) })
			seen := map[interface{}]bool{}
			var nl list
			for _, v := range l {
				if x := dk(v); !seen[x] {
					seen[x] = true
					nl = append(nl, v)
				}
			}
			l = nl
		case 1:
			b := r.Intn(6) - 1
			add(fmt.Sprintf("buffer(%d)", b), func(s *xstream.Stream) *xstream.Stream { return s.Buffer(b) })
		case 2:
			m := max(arg(), 1)
			add(fmt.Sprintf("split(%d)", m), func(s *xstream.Stream) *xstream.Stream { return s.Split(m) })
			l = chunks(l, m)
		case 3:
			m := max(arg(), 1)
			add(fmt.Sprintf("splitstream(%d)", m), func(s *xstream.Stream) *xstream.Stream {
				return s.SplitSteam(m).Map(func(v interface{}) interface{} { return drainList(v.(*xstream.Stream)) })
			})
			l = chunks(l, m)
		case 4:
			add("sort", func(s *xstream.Stream) *xstream.Stream {
				return s.Sort(func(a, b interface{}) bool { return key(a) < key(b) })
			})
			nl := append(list(nil), l...)
			sort.SliceStable(nl, func(i, j int) bool { return key(nl[i]) < key(nl[j]) })
			l = nl
		case 5:
			m := arg()
			add(fmt.Sprintf("tail(%d)", m), func(s *xstream.Stream) *xstream.Stream { return s.Tail(m) })
			if len(l) > m {
				l = l[len(l)-m:]
			}
		case 6:
			m := arg()
			add(fmt.Sprintf("skip(%d)", m), func(s *xstream.Stream) *xstream.Stream { return s.Skip(m) })
			l = l[min(m, len(l)):]
		case 7:
			m := arg()
			add(fmt.Sprintf("limit(%d)", m), func(s *xstream.Stream) *xstream.Stream { return s.Limit(m) })
			l = l[:min(m, len(l))]
		case 8:
			m := r.Intn(3)
			p := func(v interface{}) bool { return len(key(v))%3 != m }
			add(fmt.Sprintf("filter(%d)", m), func(s *xstream.Stream) *xstream.Stream { return s.Filter(p, o...) })
			var nl list
			for _, v := range l {
				if p(v) {
					nl = append(nl, v)
				}
			}
			l = nl
		case 9:
			nilAt := r.Intn(6) // some map functions return nil now and then
			f := func(v interface{}) interface{} {
				if k := key(v); nilAt < 3 && int(k[len(k)-1])%3 == nilAt {
					return nil
				}
				return "m" + key(v)
			}
			add("map", func(s *xstream.Stream) *xstream.Stream { return s.Map(f, o...) })
			nl := make(list, len(l))
			for i, v := range l {
				nl[i] = f(v)
			}
			l = nl
		case 10:
			ok := true
			for _, v := range l {
				if v == nil {
					ok = false
				}
				if x, is := v.(list); is {
					_ = x
				}
			}
			if !ok {
				continue // what becomes of nil is left open
			}
			nilAt := r.Intn(6)
			f := func(v interface{}) interface{} {
				if k := key(v); nilAt < 3 && int(k[len(k)-1])%3 == nilAt {
					return nil
				}
				return "f" + key(v)
			}
			add("flatmap", func(s *xstream.Stream) *xstream.Stream { return s.FlatMap(f, o...) })
			var nl list
			for _, v := range l {
				if x, is := v.(list); is {
					for _, y := range x {
						nl = append(nl, f(y))
					}
				} else {
					nl = append(nl, f(v))
				}
			}
			l = nl
		case 11:
			rep := r.Intn(3)
			add(fmt.Sprintf("walk(%d)", rep), func(s *xstream.Stream) *xstream.Stream {
				return s.Walk(func(v interface{}, pipe chan<- interface{}) {
					for i := 0; i < rep; i++ {
						pipe <- v
					}
				}, o...)
			})
			var nl list
			for _, v := range l {
				for i := 0; i < rep; i++ {
					nl = append(nl, v)
				}
			}
			l = nl
		case 12:
			add("merge", func(s *xstream.Stream) *xstream.Stream { return s.Merge() })
			l = list{append(list(nil), l...)}
		case 13:
			add("reverse", func(s *xstream.Stream) *xstream.Stream { return s.Reverse() })
			l = reversed(l)
		case 14:
			add("peek", func(s *xstream.Stream) *xstream.Stream { return s.Peek(func(interface{}) {}) })
		case 15:
			b := r.Intn(3)
			add(fmt.Sprintf("copy(%d)", b), func(s *xstream.Stream) *xstream.Stream { return s.Copy(map[string]int{"x": b})["x"] })
		case 16:
			add("concat(empty)", func(s *xstream.Stream) *xstream.Stream { return s.Concat(xstream.Empty(), xstream.Of()) })
		}
		if len(l) > 200 && !long || len(l) > 20000 {
			break
		}
	}
	term := r.Intn(13)
	kind := ""
	t.setCase("%d: source %s, %s, terminal %d", e, brief(show(src)), strings.Join(desc, "."), term)
	want, given := show(l), show(src)
	bad := func(what string, got, want interface{}) {
		t.failf("wrong", "%s.%s(%s): %s is %v instead of %v", kind, strings.Join(desc, "."), brief(show(src)), what, brief(fmt.Sprint(got)), brief(fmt.Sprint(want)))
	}
	p := func(v interface{}) bool { return len(key(v)) > 0 && key(v)[len(key(v))-1]%3 == 1 }
	t.do("finite pipeline", func() {
		var s *xstream.Stream
		s, kind = streamOf(r, src)
		for _, f := range plan {
			s = f(s)
		}
		switch term {
		case 0, 1:
			if g := show(drainList(s)); g != want {
				bad("content", g, want)
			}
		case 2:
			if g := s.Count(); g != len(l) {
				bad("count", g, len(l))
			}
		case 3:
			v, err := s.FindFirst()
			if len(l) == 0 {
				if err != xstream.ErrNoElement || v != nil {
					bad("first", fmt.Sprint(v, err), "no element")
				}
			} else if err != nil || show1(v) != show1(l[0]) {
				bad("first", fmt.Sprint(v, err), show1(l[0]))
			}
		case 4:
			v, err := s.FindLast()
			if len(l) == 0 {
				if err != xstream.ErrNoElement || v != nil {
					bad("last", fmt.Sprint(v, err), "no element")
				}
			} else if err != nil || show1(v) != show1(l[len(l)-1]) {
				bad("last", fmt.Sprint(v, err), show1(l[len(l)-1]))
			}
		case 5:
			w := false
			for _, v := range l {
				w = w || p(v)
			}
			if g := s.AnyMach(p); g != w {
				bad("any", g, w)
			}
		case 6:
			w := true
			for _, v := range l {
				w = w && p(v)
			}
			if g := s.AllMach(p); g != w {
				bad("all", g, w)
			}
		case 7:
			var g list
			s.Foreach(func(v interface{}) { g = append(g, v) })
			if show(g) != want {
				bad("traversal", show(g), want)
			}
		case 8:
			var g list
			s.ForeachOrdered(func(v interface{}) { g = append(g, v) })
			if show(g) != show(reversed(l)) {
				bad("reverse traversal", show(g), show(reversed(l)))
			}
		case 9:
			var g list
			s.Collection(xstream.CollectorFunc(func(c <-chan interface{}) {
				for v := range c {
					g = append(g, v)
				}
			}))
			if show(g) != want {
				bad("collection", show(g), want)
			}
		case 10:
			k := groupKey(r, key)
			g := xstream.GroupBy(k)
			s.Collection(g)
			for rep := 0; rep < 2; rep++ {
				m := g.Map()
				wm := groups(l, k)
				if showGroups(m) != showGroups(wm) {
					bad("groups", showGroups(m), showGroups(wm))
				}
			}
		case 11:
			k := groupKey(r, key)
			var g []string
			for _, v := range drainList(s.Group(k)) {
				g = append(g, show(v.(list)))
			}
			sort.Strings(g)
			var w []string
			for _, v := range groups(l, k) {
				w = append(w, show(v))
			}
			sort.Strings(w)
			if fmt.Sprint(g) != fmt.Sprint(w) {
				bad("groups", g, w)
			}
		case 12:
			var g list
			s.ParallelFinish(func(v interface{}) { g = append(g, v) })
			if show(g) != want {
				bad("calls of a single-worker finish", show(g), want)
			}
		}
		for _, v := range src {
			if x, is := v.(list); is && len(x) < cap(x) {
				if y := x[:cap(x)]; y[len(x)] != nil {
					bad("memory behind an element that is a slice", show(y), show(x))
				}
			}
		}
		if show(src) != given {
			bad("source afterwards", show(src), given)
		}
	})
	t.quiet()
	t.leak("finite pipeline " + strings.Join(desc, "."))
	t.eval()
	t.count("operators", int64(len(desc)))
	if len(desc) > 0 {
		t.seen(fmt.Sprint(show(src), desc, term))
	}
	if e == 11 || e == 17 {
		t.sample(map[string]interface{}{"source": show(src), "pipeline": strings.Join(desc, "."), "terminal": term, "result": want})
	}
}

// brief shortens a long text in the middle.
func brief(s string) string {
	if len(s) < 600 {
		return s
	}
	return s[:300] + " … " + s[len(s)-300:]
}

// groupKey makes a key function, some of whose keys are nil or differ only in
// their type.
func groupKey(r *rand.Rand, key func(interface{}) string) func(interface{}) interface{} {
	kinds, at := r.Intn(4), r.Intn(2)
	alike := oddKeys(r)
	if r.Intn(3) == 0 {
		alike = append(alike, math.NaN(), nil, "") // not-a-number is never found again
	}
	return func(v interface{}) interface{} {
		x := key(v)
		if kinds == 3 {
			h := 0
			for i := range x {
				h = h*31 + int(x[i])
			}
			return alike[(h&0xffff)%len(alike)]
		}
		n := int(x[at*(len(x)-1)]) % 3
		switch {
		case kinds == 0 && n == 0:
			return nil
		case kinds == 1:
			return []interface{}{len(x) % 2, int64(len(x) % 2), fmt.Sprint(len(x) % 2)}[n]
		}
		return n
	}
}

func chunks(l list, n int) list {
	var r list
	for len(l) > 0 {
		k := min(n, len(l))
		r = append(r, append(list(nil), l[:k]...))
		l = l[k:]
	}
	return r
}

func groups(l list, k func(interface{}) interface{}) map[interface{}][]interface{} {
	m := map[interface{}][]interface{}{}
	for _, v := range l {
		m[k(v)] = append(m[k(v)], v)
	}
	return m
}

func showGroups(m map[interface{}][]interface{}) string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprintf("%T %v=%s", k, k, show(v)))
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// ---- C21 -----------------------------------------------------------------

func streamWorkers(r *rand.Rand) ([]xstream.Option, int, string) {
	w := 2 + r.Intn(7)
	switch r.Intn(8) {
	case 0:
		return nil, 1, "default"
	case 1:
		n := -r.Intn(4)
		return []xstream.Option{xstream.WithWorkSize(n)}, 1, fmt.Sprint(n)
	case 2:
		return []xstream.Option{xstream.WithWorkSize(9), xstream.WithWorkSize(w)}, w, fmt.Sprint("9,", w)
	case 3:
		return []xstream.Option{xstream.WithOption(&xstream.Options{}), xstream.WithWorkSize(w)}, w, fmt.Sprint("{},", w)
	case 4:
		return []xstream.Option{xstream.WithWorkSize(w), xstream.WithWorkSize(0)}, 1, fmt.Sprint(w, ",0")
	case 5:
		return []xstream.Option{xstream.WithWorkSize(1)}, 1, "1"
	}
	return []xstream.Option{xstream.WithWorkSize(w)}, w, fmt.Sprint(w)
}

func c21(t *T) {
	t.rule = "one evaluation = one parallel stage (walk, map, filter, flat-map or finish; some chained or nested) with random workers, elements, outputs and speeds, or with gated calls; the oracle checks one call per element, the multiset of outputs, calls in progress, order with one worker, end after the last call, and exactly the configured number of gated calls together; non-trivial = at least two elements; distinct = distinct configuration with order of outputs"
	for e := 0; e < t.n(3000); e++ {
		c21one(t, e)
	}
	for e := 0; e < t.n(300); e++ {
		c21gated(t, e)
	}
	for e := 0; e < t.n(150); e++ {
		c21nested(t, e)
	}
}

const (
	stWalk = iota
	stMap
	stFilter
	stFlat
	stFinish
	stKinds
)

var stNames = []string{"walk", "map", "filter", "flat-map", "finish"}

type elem struct {
	id, sub int
	payload []int
}

func newElem(id, sub int) *elem { return &elem{id, sub, []int{id*100 + sub}} }

func (e *elem) String() string { return fmt.Sprintf("%d.%d", e.id, e.sub) }

// elems makes the input of a stage; flat-map gets some slices.
func elems(r *rand.Rand, kind, n int) (in list, all []*elem) {
	for i := 0; i < n; i++ {
		if kind == stFlat && r.Intn(2) == 0 {
			var sub list
			for k := 0; k < r.Intn(4); k++ {
				x := newElem(i, k)
				all = append(all, x)
				sub = append(sub, x)
			}
			in = append(in, sub)
			continue
		}
		x := newElem(i, 0)
		all = append(all, x)
		in = append(in, x)
	}
	return
}

func c21one(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	kind := r.Intn(stKinds)
	opts, workers, od := streamWorkers(r)
	n := r.Intn(20)
	if r.Intn(10) == 0 {
		n = 30 + r.Intn(60)
	}
	in, all := elems(r, kind, n)
	ms, cs := r.Intn(8), r.Intn(4)
	nz := t.noise()
	t.setCase("%d: noise %s %s workers %s elements %d speeds %d %d", e, nz, stNames[kind], od, n, ms, cs)
	calls := map[*elem]*mapLog{}
	for _, x := range all {
		calls[x] = &mapLog{}
	}
	effects := make([]int, n) // plain, one slot per element
	call := func(v interface{}) *elem {
		x := v.(*elem)
		l := calls[x]
		if x.payload[0] != x.id*100+x.sub {
			t.failf("payload", "an element is not what was sent")
		}
		atomic.AddInt32(&l.runs, 1)
		s := now()
		spin((x.id*7 + x.sub*3) % (ms + 1) * 2)
		effects[x.id]++
		l.start, l.end = s, now()
		return x
	}
	// not every element yields one output
	outs := func(x *elem) int { return x.id % 3 }
	var got []string
	var endAt int64
	want := map[string]int{}
	var order []string
	for _, x := range all {
		switch kind {
		case stWalk:
			for i := 0; i < outs(x); i++ {
				if x.id%7 == 5 {
					order = append(order, "nil")
					continue
				}
				order = append(order, fmt.Sprint(x, "/", i))
			}
		case stMap, stFlat:
			if x.id%5 == 4 {
				order = append(order, "nil")
				break
			}
			order = append(order, fmt.Sprint(x, "m"))
		case stFilter:
			if outs(x) > 0 {
				order = append(order, x.String())
			}
		}
	}
	for _, o := range order {
		want[o]++
	}
	var src string
	t.do("parallel stage", func() {
		s, sk := streamOf(r, in)
		src = sk
		switch kind {
		case stWalk:
			s = s.Walk(func(v interface{}, pipe chan<- interface{}) {
				x := call(v)
				for i := 0; i < outs(x); i++ {
					if x.id%7 == 5 {
						pipe <- nil
						continue
					}
					pipe <- &elemOut{text: fmt.Sprint(x, "/", i), p: []int{x.id}}
				}
				calls[x].end = now()
			}, opts...)
		case stMap:
			s = s.Map(func(v interface{}) interface{} {
				x := call(v)
				if x.id%5 == 4 {
					return nil
				}
				return &elemOut{text: fmt.Sprint(x, "m"), p: []int{x.id}}
			}, opts...)
		case stFlat:
			s = s.FlatMap(func(v interface{}) interface{} {
				x := call(v)
				if x.id%5 == 4 {
					return nil
				}
				return &elemOut{text: fmt.Sprint(x, "m"), p: []int{x.id}}
			}, opts...)
		case stFilter:
			s = s.Filter(func(v interface{}) bool { return outs(call(v)) > 0 }, opts...)
		case stFinish:
			s.ParallelFinish(func(v interface{}) { call(v) }, opts...)
			endAt = now()
			return
		}
		for v := range s.Chan() {
			spin(cs)
			switch x := v.(type) {
			case *elemOut:
				if !strings.HasPrefix(x.text, fmt.Sprint(x.p[0], ".")) {
					t.failf("payload", "an output is not what was sent")
				}
				got = append(got, x.text)
			case *elem:
				got = append(got, x.String())
			default:
				got = append(got, show1(v))
			}
		}
		endAt = now()
	})
	t.quiet()
	desc := fmt.Sprintf("%s of %d elements from %s with %s workers", stNames[kind], n, src, od)
	var iv [][2]int64
	sum := 0
	for _, x := range all {
		l := calls[x]
		if l.runs != 1 {
			t.failf("calls", "%s: the function was called %d times for element %v", desc, l.runs, x)
		}
		if l.end > endAt {
			t.failf("early-end", "%s: ended before the call for element %v", desc, x)
		}
		iv = append(iv, [2]int64{l.start, l.end})
	}
	for _, x := range effects {
		sum += x
	}
	if sum != len(all) {
		t.failf("effects", "%s: %d of %d effects are visible", desc, sum, len(all))
	}
	if m := maxOverlap(iv); m > workers {
		t.failf("exceeded", "%s: %d calls ran together", desc, m)
	}
	g := map[string]int{}
	for _, x := range got {
		g[x]++
	}
	if fmt.Sprint(g) != fmt.Sprint(want) {
		t.fail("outputs", fmt.Sprintf("%s: outputs %v instead of %v", desc, g, want), got)
	}
	if workers == 1 && fmt.Sprint(got) != fmt.Sprint(order) {
		t.fail("order", fmt.Sprintf("%s: outputs %v instead of %v", desc, got, order), nil)
	}
	t.leak("parallel stage")
	t.eval()
	t.count("calls", int64(len(all)))
	if n > 1 {
		t.seen(fmt.Sprint(kind, od, n, got))
	}
	if e == 7 {
		t.sample(map[string]interface{}{"case": desc, "outputs": got, "max_together": maxOverlap(iv)})
	}
}

type elemOut struct {
	text string
	p    []int
}

func c21gated(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	kind := r.Intn(stKinds)
	opts, workers, od := streamWorkers(r)
	n := workers + r.Intn(4)
	nz := t.noise()
	desc := fmt.Sprintf("gated %s, %d elements, workers %s", stNames[kind], n, od)
	t.setCase("%d: noise %s %s", e, nz, desc)
	gates := make([]chan struct{}, n)
	in := make(list, n)
	for i := range gates {
		gates[i] = make(chan struct{})
		in[i] = i
	}
	var running, over int32
	call := func(v interface{}) {
		atomic.AddInt32(&running, 1)
		<-gates[v.(int)]
		atomic.AddInt32(&over, 1)
	}
	count := 0
	late := false
	d := t.spawn(desc, func() {
		s := xstream.Of(in...)
		switch kind {
		case stWalk:
			s = s.Walk(func(v interface{}, pipe chan<- interface{}) { call(v); pipe <- v }, opts...)
		case stMap:
			s = s.Map(func(v interface{}) interface{} { call(v); return v }, opts...)
		case stFlat:
			s = s.FlatMap(func(v interface{}) interface{} { call(v); return v }, opts...)
		case stFilter:
			s = s.Filter(func(v interface{}) bool { call(v); return true }, opts...)
		case stFinish:
			s.ParallelFinish(func(v interface{}) { call(v) }, opts...)
			count = n
			late = atomic.LoadInt32(&over) == int32(n)
			return
		}
		for range s.Chan() {
			count++
		}
		late = atomic.LoadInt32(&over) == int32(n)
	})
	t.quiesce(desc)
	if c := atomic.LoadInt32(&running); int(c) != workers {
		t.failf("workers", "%s: %d calls run together", desc, c)
	}
	for k, i := range r.Perm(workers) {
		close(gates[i])
		if k == 0 {
			t.quiesce(desc)
			if c := atomic.LoadInt32(&running); int(c) != min(workers+1, n) {
				t.failf("workers", "%s: after the first end %d calls have begun", desc, c)
			}
			if isDone(d) && n > 1 {
				t.failf("early-end", "%s: ended with %d calls running", desc, atomic.LoadInt32(&running)-atomic.LoadInt32(&over))
			}
		}
	}
	for i := workers; i < n; i++ {
		close(gates[i])
	}
	t.await(d, desc)
	t.quiet()
	if count != n || !late {
		t.failf("early-end", "%s: ended with %d outputs and %d calls over", desc, count, over)
	}
	t.leak(desc)
	t.eval()
	t.count("rendezvous", 1)
	t.seen(desc)
}

// c21nested runs whole pipelines inside the calls of parallel stages, and
// chains parallel stages.
func c21nested(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	n, depth := 1+r.Intn(12), 1+r.Intn(3)
	w := 1 + r.Intn(6)
	t.setCase("nested %d: noise %s n %d depth %d workers %d", e, nz, n, depth, w)
	var calls int64
	var run func(d int) int
	run = func(d int) int {
		in := make(list, n)
		for i := range in {
			in[i] = i
		}
		sum := 0
		xstream.Of(in...).Map(func(v interface{}) interface{} {
			atomic.AddInt64(&calls, 1)
			if d > 1 && v.(int)%3 == 0 {
				return run(d - 1)
			}
			return 1
		}, xstream.WithWorkSize(w)).Map(func(v interface{}) interface{} { return v.(int) * 2 }, xstream.WithWorkSize(w)).
			Filter(func(v interface{}) bool { return true }, xstream.WithWorkSize(2)).
			Foreach(func(v interface{}) { sum += v.(int) })
		return sum
	}
	var model func(d int) (sum int, calls int64)
	model = func(d int) (int, int64) {
		sum, c := 0, int64(0)
		for i := 0; i < n; i++ {
			c++
			if d > 1 && i%3 == 0 {
				s, cc := model(d - 1)
				sum += 2 * s
				c += cc
			} else {
				sum += 2
			}
		}
		return sum, c
	}
	var g int
	t.do("nested parallel stages", func() { g = run(depth) })
	t.quiet()
	ws, wc := model(depth)
	if g != ws || calls != wc {
		t.failf("outputs", "nested stages gave %d after %d calls instead of %d after %d", g, calls, ws, wc)
	}
	t.leak("nested parallel stages")
	t.eval()
	t.count("calls", calls)
	t.seen(fmt.Sprint("nested", n, depth, w))
}

// ---- C22 -----------------------------------------------------------------

func c22(t *T) {
	t.rule = "one evaluation = one pipeline (a) over a source that stalls right after the element that determines an early-stopping operator's result, and later sends on: the result must be there while the source stalls, and the producer must finish; (b) abandoned or fully consumed over a finite source, followed by a goroutine dump; (c) with panicking callbacks or generators: the consumer ends and parallel stages deliver all other elements; (d) fed one element at a time: at rest the consumer has exactly what the elements so far determine; non-trivial = the source stalled, a producer was drained, or a callback panicked; distinct = distinct pipeline and stopping point"
	for e := 0; e < t.n(900); e++ {
		c22early(t, e)
	}
	for e := 0; e < t.n(1500); e++ {
		c22panic(t, e)
	}
	for e := 0; e < t.n(500); e++ {
		c22drain(t, e)
	}
	for e := 0; e < t.n(400); e++ {
		c22live(t, e)
	}
	for e := 0; e < t.n(150); e++ {
		c22ahead(t, e)
	}
}

// c22ahead leaves buffers and copies unread: they take up as many elements as
// their sizes say.
func c22ahead(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	size := func() int {
		switch r.Intn(6) {
		case 0:
			return r.Intn(3)
		case 1:
			return r.Intn(5000)
		}
		return r.Intn(100)
	}
	a, b := size(), size()
	n := a + b + r.Intn(20)
	var sent int64
	gen := func(c chan<- interface{}) {
		for i := 0; i < n; i++ {
			c <- i
			atomic.AddInt64(&sent, 1)
		}
	}
	var s *xstream.Stream
	if r.Intn(2) == 0 {
		s = xstream.From(gen)
	} else {
		c := make(chan interface{})
		go func() { gen(c); close(c) }()
		s = xstream.Range(c)
	}
	want := list(ints(n))
	check := func(what string, ahead int, got int64) {
		if got < int64(min(ahead, n)) {
			t.failf("ahead", "only %d of %d elements are taken up %s", got, n, what)
		}
	}
	end := func(what string, l list) {
		if show(l) != show(want) {
			t.failf("ahead", "%s then gives %s, want %s", what, show(l), show(want))
		}
	}
	var desc string
	switch r.Intn(3) {
	case 0:
		desc = fmt.Sprintf("buffer(%d) of %d elements", a, n)
		t.setCase("%s%s: %s", nz, "C22", desc)
		s = s.Buffer(a)
		t.quiesce(desc + " which nobody reads")
		check("by "+desc+" which nobody reads", a, atomic.LoadInt64(&sent))
		var l list
		t.do(desc, func() { l = collect(s) })
		end(desc, l)
	case 1:
		desc = fmt.Sprintf("buffer(%d), buffer(%d) of %d elements", a, b, n)
		t.setCase("%s%s: %s", nz, "C22", desc)
		s = s.Buffer(a).Buffer(b)
		t.quiesce(desc + " which nobody reads")
		check("by "+desc+" which nobody reads", a+b, atomic.LoadInt64(&sent))
		var l list
		t.do(desc, func() { l = collect(s) })
		end(desc, l)
	default:
		desc = fmt.Sprintf("copy(%d, %d) of %d elements", a, b, n)
		t.setCase("%s%s: %s", nz, "C22", desc)
		m := s.Copy(map[string]int{"a": a, "b": b})
		t.quiesce(desc + " which nobody reads")
		check("by "+desc+" which nobody reads", min(a, b), atomic.LoadInt64(&sent))
		var got int64
		var la, lb list
		done := t.spawn(desc, func() {
			for v := range m["a"].Chan() {
				la = append(la, v)
				atomic.AddInt64(&got, 1)
			}
		})
		t.quiesce(desc + " of which one is read")
		check("by "+desc+" and passed on to the one that is read", b, atomic.LoadInt64(&got))
		t.do(desc, func() { lb = collect(m["b"]) })
		t.await(done, desc)
		end(desc+", the first", la)
		end(desc+", the second", lb)
	}
	t.evals++
	t.count("taken_ahead", atomic.LoadInt64(&sent))
	t.seen("ahead " + desc)
}

// c22live feeds a pipeline of operators that need not see the whole source one
// element at a time: whenever everything is at rest, the consumer has what the
// elements sent so far determine.
func c22live(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	n := 1 + r.Intn(9)
	tick := make(chan struct{})
	idle := make(chan interface{})
	vals := make(list, n)
	for i := range vals {
		vals[i] = r.Intn(6)
	}
	gen := func(c chan<- interface{}) {
		for _, v := range vals {
			<-tick
			c <- v
		}
		<-tick
	}
	var s *xstream.Stream
	var desc []string
	if r.Intn(2) == 0 {
		desc = append(desc, "from")
		s = xstream.From(gen)
	} else {
		desc = append(desc, "range")
		c := make(chan interface{})
		go func() { gen(c); close(c) }()
		s = xstream.Range(c)
	}
	// what a stage has passed on, given what it was sent and whether that ended
	type model func(l list, end, final bool) (list, bool)
	var models []model
	add := func(d string, ns *xstream.Stream, m model) {
		desc, s, models = append(desc, d), ns, append(models, m)
	}
	keep := func(l list, end, final bool) (list, bool) { return l, end }
	cut := func(m int) model {
		return func(l list, end, final bool) (list, bool) {
			if !end {
				l = l[:len(l)/m*m]
			}
			return l, end
		}
	}
	var others []<-chan struct{}
	for k := 1 + r.Intn(4); k > 0; k-- {
		m := 1 + r.Intn(4)
		switch r.Intn(13) {
		case 0:
			add("map", s.Map(func(v interface{}) interface{} { return v.(int) + m }), func(l list, end, final bool) (list, bool) {
				o := make(list, len(l))
				for i, v := range l {
					o[i] = v.(int) + m
				}
				return o, end
			})
		case 1:
			add("filter", s.Filter(func(v interface{}) bool { return v.(int)%2 == 0 }), func(l list, end, final bool) (list, bool) {
				var o list
				for _, v := range l {
					if v.(int)%2 == 0 {
						o = append(o, v)
					}
				}
				return o, end
			})
		case 2:
			add(fmt.Sprintf("buffer(%d)", m-1), s.Buffer(m-1), keep)
		case 3:
			add(fmt.Sprintf("skip(%d)", m), s.Skip(m), func(l list, end, final bool) (list, bool) { return l[min(m, len(l)):], end })
		case 4:
			m += r.Intn(3)
			add(fmt.Sprintf("limit(%d)", m), s.Limit(m), func(l list, end, final bool) (list, bool) {
				return l[:min(m, len(l))], end || len(l) >= m
			})
		case 5:
			add("peek", s.Peek(func(interface{}) {}), keep)
		case 6:
			add("distinct", s.Distinct(func(v interface{}) interface{} { return v.(int) % 4 }), func(l list, end, final bool) (list, bool) {
				seen := map[int]bool{}
				var o list
				for _, v := range l {
					if !seen[v.(int)%4] {
						seen[v.(int)%4] = true
						o = append(o, v)
					}
				}
				return o, end
			})
		case 7:
			add(fmt.Sprintf("split(%d)", m), s.Split(m).FlatMap(func(v interface{}) interface{} { return v }), cut(m))
		case 8:
			add(fmt.Sprintf("splitsteam(%d)", m), s.SplitSteam(m).Walk(func(v interface{}, pipe chan<- interface{}) {
				for x := range v.(*xstream.Stream).Chan() {
					pipe <- x
				}
			}), cut(m))
		case 9:
			o := xstream.Range(idle)
			var ns *xstream.Stream
			if r.Intn(2) == 0 {
				ns = xstream.Concat(o, s)
			} else {
				ns = s.Concat(o)
			}
			add("concat", ns, func(l list, end, final bool) (list, bool) { return l, end && final })
		case 10:
			c := s.Copy(map[string]int{"a": r.Intn(3), "b": r.Intn(3)})
			others = append(others, t.spawn("other copy", func() { c["b"].Done() }))
			add("copy", c["a"], keep)
		case 11:
			add("walk", s.Walk(func(v interface{}, pipe chan<- interface{}) {
				for i := 0; i < v.(int)%3; i++ {
					pipe <- v
				}
			}), func(l list, end, final bool) (list, bool) {
				var o list
				for _, v := range l {
					for i := 0; i < v.(int)%3; i++ {
						o = append(o, v)
					}
				}
				return o, end
			})
		case 12:
			add("flatmap", s.FlatMap(func(v interface{}) interface{} { return v }), keep)
		}
	}
	var mu sync.Mutex
	var got list
	take := func(v interface{}) {
		mu.Lock()
		got = append(got, v)
		mu.Unlock()
	}
	parallel := false
	var consume func()
	switch r.Intn(5) {
	case 0:
		desc = append(desc, "chan")
		consume = func() {
			for v := range s.Chan() {
				take(v)
			}
		}
	case 1:
		desc = append(desc, "foreach")
		consume = func() { s.Foreach(take) }
	case 2:
		desc = append(desc, "collection")
		consume = func() {
			s.Collection(xstream.CollectorFunc(func(c <-chan interface{}) {
				for v := range c {
					take(v)
				}
			}))
		}
	case 3:
		opts, _, w := streamWorkers(r)
		desc = append(desc, "finish("+w+")")
		parallel = true
		consume = func() { s.ParallelFinish(take, opts...) }
	case 4:
		opts, _, w := streamWorkers(r)
		desc = append(desc, "map("+w+").foreach")
		parallel = true
		consume = func() { s.Map(func(v interface{}) interface{} { return v }, opts...).Foreach(take) }
	}
	what := strings.Join(desc, ".")
	t.setCase("live %d: noise %s %s fed with %s one by one", e, nz, what, show(vals))
	d := t.spawn(what, consume)
	check := func(k int, final bool) {
		want, end := vals[:k], final
		for _, m := range models {
			want, end = m(want, end, final)
		}
		mu.Lock()
		g, w := show(got), show(want)
		if parallel {
			g, w = sortedShow(got), sortedShow(want)
		}
		mu.Unlock()
		if g != w {
			t.fail("held-back", fmt.Sprintf("after %d elements of a live source the consumer has %s, these determine %s (source ended: %v)", k, g, w, final), stacks())
		}
		if end != isDone(d) {
			t.failf("end", "after %d elements of a live source the end of the results is determined: %v, reached: %v", k, end, isDone(d))
		}
	}
	for k := 1; k <= n; k++ {
		tick <- struct{}{}
		t.quiesce("live pipeline")
		check(k, false)
	}
	close(idle)
	tick <- struct{}{}
	t.await(d, "live pipeline after its source ended")
	for _, o := range others {
		t.await(o, "other copy")
	}
	t.quiet()
	check(n, true)
	t.leak("live " + what)
	t.eval()
	t.count("live_elements", int64(n))
	t.seen(fmt.Sprint("live", what, vals))
}

func sortedShow(l list) string {
	c := append(list(nil), l...)
	sort.Slice(c, func(i, j int) bool { return c[i].(int) < c[j].(int) })
	return show(c)
}

// stage adds some lossless, non-buffering-dependent stages before an operator.
func lossless(r *rand.Rand, s *xstream.Stream, desc *[]string) *xstream.Stream {
	for k := r.Intn(3); k > 0; k-- {
		switch r.Intn(5) {
		case 0:
			*desc = append(*desc, "map")
			s = s.Map(func(v interface{}) interface{} { return v })
		case 1:
			b := r.Intn(3)
			*desc = append(*desc, fmt.Sprintf("buffer(%d)", b))
			s = s.Buffer(b)
		case 2:
			*desc = append(*desc, "filter(true)")
			s = s.Filter(func(interface{}) bool { return true })
		case 3:
			*desc = append(*desc, "skip(0)")
			s = s.Skip(0)
		case 4:
			*desc = append(*desc, "distinct")
			s = s.Distinct(func(v interface{}) interface{} { return v })
		}
	}
	return s
}

func c22early(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	op := r.Intn(8)
	k := 1 + r.Intn(5) // elements that determine the result
	if op == 3 || op == 4 {
		k = r.Intn(2) // limit(0), tail(0) need none
	}
	more := []int{0, 1, 5, 300, 3000}[r.Intn(5)]
	gate := make(chan struct{})
	produced := make(chan struct{})
	gen := func(c chan<- interface{}) {
		for i := 0; i < k; i++ {
			c <- i
		}
		<-gate
		for i := 0; i < more; i++ {
			c <- k + i
		}
		close(produced)
	}
	var desc []string
	var s *xstream.Stream
	if r.Intn(2) == 0 {
		desc = append(desc, "from")
		s = xstream.From(gen)
	} else {
		desc = append(desc, "range")
		c := make(chan interface{}, r.Intn(3))
		go func() { gen(c); close(c) }()
		s = xstream.Range(c)
	}
	s = lossless(r, s, &desc)
	var result func() string
	want := ""
	switch op {
	case 0, 1, 5:
		desc = append(desc, fmt.Sprintf("limit(%d)", k))
		want = show(ints(k))
		result = func() string { return show(drainList(s.Limit(k))) }
		if op == 5 {
			desc = append(desc, "map.limit.collect")
			result = func() string {
				return show(drainList(s.Limit(k).Map(func(v interface{}) interface{} { return v }, xstream.WithWorkSize(1)).Limit(k)))
			}
		}
	case 2:
		desc = append(desc, "first")
		k0 := 0
		want = fmt.Sprint(k0, nil)
		result = func() string { v, err := s.FindFirst(); return fmt.Sprint(v, err) }
	case 3:
		desc = append(desc, "limit(0)")
		want = "[]"
		result = func() string { return show(drainList(s.Limit(0))) }
	case 4:
		desc = append(desc, "tail(0)")
		want = "[]"
		result = func() string { return show(drainList(s.Tail(0))) }
	case 6:
		desc = append(desc, fmt.Sprintf("any(%d)", k-1))
		want = "true"
		result = func() string { return fmt.Sprint(s.AnyMach(func(v interface{}) bool { return v == k-1 })) }
	case 7:
		desc = append(desc, fmt.Sprintf("all(%d)", k-1))
		want = "false"
		result = func() string { return fmt.Sprint(s.AllMach(func(v interface{}) bool { return v != k-1 })) }
	}
	what := strings.Join(desc, ".")
	t.setCase("%d: noise %s %s on a source that stalls after %d elements and then sends %d", e, nz, what, k, more)
	got := ""
	d := t.spawn(what, func() { got = result() })
	t.await(d, "result of "+what+" determined by what the stalled source sent")
	if got != want {
		t.failf("wrong", "%s gave %s instead of %s", what, got, want)
	}
	close(gate)
	t.await(produced, "producer after "+what)
	t.quiet()
	t.leak(what)
	t.eval()
	t.count("stalled_sources", 1)
	t.count("elements_drained", int64(more))
	t.seen(fmt.Sprint(what, k, more))
	if e == 4 {
		t.sample(map[string]interface{}{"pipeline": what, "stalls_after": k, "then_sends": more, "result": got})
	}
}

func ints(n int) list {
	l := make(list, n)
	for i := range l {
		l[i] = i
	}
	return l
}

// c22drain abandons results of early stops and consumes others.
func c22drain(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	n := 1 + r.Intn(40)
	buffer := -1
	if r.Intn(4) == 0 {
		// a buffer between, with sources shorter and several times longer
		buffer = []int{0, 1, 2, 10, 99, 100, 128, 300, 1000, 2000}[r.Intn(10)]
		n = 1 + r.Intn(4*buffer+40)
	}
	produced := make(chan struct{})
	gen := func(c chan<- interface{}) {
		for i := 0; i < n; i++ {
			c <- i
		}
		close(produced)
	}
	op := r.Intn(19)
	k := r.Intn(n + 2)
	desc := fmt.Sprintf("op %d argument %d of %d, buffer %d", op, k, n, buffer)
	t.setCase("drain %d: noise %s %s", e, nz, desc)
	ok := true
	t.do("terminal on a finite source: "+desc, func() {
		s := xstream.From(gen)
		if buffer >= 0 {
			s = s.Buffer(buffer)
		}
		switch op {
		case 0:
			l := drainList(s.Limit(k))
			ok = len(l) == min(k, n)
		case 1:
			v, err := s.Skip(k).FindFirst()
			ok = (err == nil && v == k) == (k < n)
		case 2:
			ok = s.AnyMach(func(v interface{}) bool { return v == k }) == (k < n)
		case 3:
			ok = s.AllMach(func(v interface{}) bool { return v != k }) == (k >= n)
		case 4:
			l := drainList(s.Tail(k))
			ok = len(l) == min(k, n)
		case 5:
			s.Done()
		case 6:
			l := drainList(s.Limit(k).Limit(k / 2).Skip(k / 4))
			ok = len(l) == max(0, min(k/2, min(k, n))-k/4)
		case 7:
			v, err := s.Map(func(v interface{}) interface{} { return v }, xstream.WithWorkSize(4)).FindFirst()
			ok = err == nil && v.(int) < n
		case 8:
			c := s.Copy(map[string]int{"a": n, "b": n})
			v, err := c["a"].FindFirst()
			ok = err == nil && v == 0 && c["b"].Count() == n
		case 9:
			ok = len(s.Copy(nil)) == 0 && len(xstream.Of(1).Copy(map[string]int{})) == 0
		case 10:
			c := s.Copy(map[string]int{"a": n, "b": n + 1})
			ok = c["a"].AnyMach(func(v interface{}) bool { return v == k }) == (k < n) && len(drainList(c["b"].Limit(k))) == min(k, n)
		case 11:
			s.Group(func(v interface{}) interface{} { return v.(int) % 3 }).Done()
		case 12:
			v, err := s.SplitSteam(k + 1).FindFirst()
			ok = err == nil && v.(*xstream.Stream).Count() == min(k+1, n)
		case 13:
			_, ok = try(func() { s.Limit(-1 - k) })
		case 14:
			_, ok = try(func() { s.Skip(-1 - k) })
		case 15:
			_, ok = try(func() { s.Tail(-1 - k) })
		case 16:
			_, ok = try(func() { s.Split(-k) })
		case 17:
			_, ok = try(func() { s.SplitSteam(-k) })
		case 18:
			v, err := s.FindFirst()
			ok = err == nil && v == 0
		}
	})
	if !ok {
		t.failf("wrong", "%s: wrong result", desc)
	}
	t.await(produced, "producer after "+desc)
	t.quiet()
	t.leak(desc)
	t.eval()
	t.count("elements_drained", int64(n))
	t.seen(desc)
}

func c22panic(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	kind := r.Intn(9)
	n := 1 + r.Intn(15)
	workers := 1 + r.Intn(5)
	bad := map[int]bool{}
	for i := 1 + r.Intn(3); i > 0; i-- {
		bad[r.Intn(n)] = true
	}
	names := []string{"walk", "map", "filter", "flat-map", "finish", "distinct", "peek", "from", "walk late"}
	// the callback may also end its goroutine, as a failing test does
	exits := r.Intn(4) == 0
	desc := fmt.Sprintf("%s over %d elements, %d workers, panics (exits: %v) at %v", names[kind], n, workers, exits, sortedInts(bad))
	t.setCase("panic %d: noise %s %s", e, nz, desc)
	calls := make([]int32, n)
	call := func(v interface{}) {
		i := v.(int)
		atomic.AddInt32(&calls[i], 1)
		spin(i % 4)
		if bad[i] {
			if exits {
				runtime.Goexit()
			}
			panic(fmt.Sprintf("callback panic %d", i))
		}
	}
	var got list
	w := xstream.WithWorkSize(workers)
	var s *xstream.Stream
	// a full source: a sequential stage that dies may leave it unread
	src := make(chan interface{}, n)
	for i := 0; i < n; i++ {
		src <- i
	}
	close(src)
	t.do("consumer of "+desc, func() {
		s = xstream.Range(src)
		switch kind {
		case 0, 8:
			s = s.Walk(func(v interface{}, pipe chan<- interface{}) {
				if kind == 8 {
					pipe <- v
					call(v)
					return
				}
				call(v)
				pipe <- v
			}, w)
		case 1:
			s = s.Map(func(v interface{}) interface{} { call(v); return v }, w)
		case 2:
			s = s.Filter(func(v interface{}) bool { call(v); return true }, w)
		case 3:
			s = s.FlatMap(func(v interface{}) interface{} { call(v); return v }, w)
		case 4:
			s.ParallelFinish(func(v interface{}) { call(v) }, w)
			return
		case 5:
			s = s.Distinct(func(v interface{}) interface{} { call(v); return v })
		case 6:
			s = s.Peek(func(v interface{}) { call(v) })
		case 7:
			s = xstream.From(func(c chan<- interface{}) {
				for i := 0; i < n; i++ {
					call(i)
					c <- i
				}
			})
		}
		got = drainList(s)
	})
	t.quiet()
	first := sortedInts(bad)[0]
	g := map[int]int{}
	for _, v := range got {
		g[v.(int)]++
	}
	for i := 0; i < n; i++ {
		switch kind {
		case 5, 6, 7:
			// a sequential stage: what came before is there, in order
			if i < first && g[i] != 1 {
				t.failf("lost", "%s: element %d before the panic was delivered %d times", desc, i, g[i])
			}
			if g[i] > 1 {
				t.failf("twice", "%s: element %d was delivered %d times", desc, i, g[i])
			}
		default:
			if calls[i] != 1 {
				t.failf("skipped", "%s: the function was called %d times for element %d", desc, calls[i], i)
			}
			want := 1
			if bad[i] && kind != 8 || kind == 4 {
				want = 0
			}
			if g[i] != want {
				t.failf("lost", "%s: element %d was delivered %d times", desc, i, g[i])
			}
		}
	}
	t.leak(desc)
	t.eval()
	t.count("panics", int64(len(bad)))
	t.seen(desc)
	if e == 4 {
		t.sample(map[string]interface{}{"stage": desc, "delivered": show(got)})
	}
}

func sortedInts(m map[int]bool) []int {
	var l []int
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return l
}

// ---- C23 -----------------------------------------------------------------

func c23(t *T) {
	t.rule = "one evaluation = one fan-in (concatenation of 1..5 sources), fan-out (copies with various buffers and consumer speeds), peek, split, stream split or grouping with recorded events; the oracle checks that every element arrives exactly once per destination, per-source order, ends, callback order and the independence of pieces; non-trivial = at least two elements; distinct = distinct configuration with arrival order"
	for e := 0; e < t.n(1500); e++ {
		c23concat(t, e)
	}
	for e := 0; e < t.n(1500); e++ {
		c23copy(t, e)
	}
	for e := 0; e < t.n(1200); e++ {
		c23peek(t, e)
	}
	for e := 0; e < t.n(1500); e++ {
		c23split(t, e)
	}
}

func c23concat(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	n := 1 + r.Intn(5)
	sizes := make([]int, n)
	var ss []*xstream.Stream
	var kinds []string
	gate := make(chan struct{})
	gated := -1
	if r.Intn(4) == 0 {
		gated = r.Intn(n)
	}
	total := 0
	for i := range sizes {
		sizes[i] = r.Intn(8)
		if r.Intn(8) == 0 {
			sizes[i] = 40
		}
		l := make(list, sizes[i])
		for k := range l {
			l[k] = newElem(i, k)
		}
		total += len(l)
		if i == gated {
			at := r.Intn(len(l) + 1)
			ss = append(ss, xstream.From(func(c chan<- interface{}) {
				for k, v := range l {
					if k == at {
						<-gate
					}
					c <- v
				}
				if at == len(l) {
					<-gate
				}
			}))
			kinds = append(kinds, "gated")
			continue
		}
		s, k := streamOf(r, l)
		ss = append(ss, s)
		kinds = append(kinds, k)
	}
	t.setCase("concat %d: noise %s sizes %v kinds %v", e, nz, sizes, kinds)
	cs := r.Intn(4)
	viaFunc := r.Intn(2) == 0
	var arrived int32
	var got list
	d := t.spawn("concatenation", func() {
		var s *xstream.Stream
		rest := append([]*xstream.Stream(nil), ss[1:]...)
		if viaFunc {
			s = xstream.Concat(ss[0], rest...)
		} else {
			s = ss[0].Concat(rest...)
		}
		for i := range rest {
			rest[i] = xstream.Empty() // the caller's to change
		}
		for v := range s.Chan() {
			spin(cs)
			got = append(got, v)
			atomic.AddInt32(&arrived, 1)
		}
	})
	if gated >= 0 {
		t.quiesce("concatenation with a stalled source")
		if isDone(d) {
			t.failf("early-end", "the concatenation ended before its source %d of %v", gated, sizes)
		}
		if int(atomic.LoadInt32(&arrived)) < total-sizes[gated] && false {
			t.failf("stalled", "a stalled source holds up others")
		}
		close(gate)
	}
	t.await(d, "concatenation")
	t.quiet()
	next := make([]int, n)
	for _, v := range got {
		x := v.(*elem)
		if x.payload[0] != x.id*100+x.sub {
			t.failf("payload", "an element is not what was sent")
		}
		if x.sub != next[x.id] {
			t.fail("order", fmt.Sprintf("source %d: element %d arrived in place of %d", x.id, x.sub, next[x.id]), show(got))
		}
		next[x.id]++
	}
	for i := range sizes {
		if next[i] != sizes[i] {
			t.fail("lost", fmt.Sprintf("%d of %d elements of source %d (%s) arrived", next[i], sizes[i], i, kinds[i]), show(got))
		}
	}
	t.leak("concatenation")
	t.eval()
	t.count("elements", int64(total))
	if total > 1 {
		t.seen("concat" + fmt.Sprint(sizes) + show(got))
	}
	if e == 5 {
		t.sample(map[string]interface{}{"kind": "concat", "sizes": sizes, "arrivals": show(got)})
	}
}

func c23copy(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	n := r.Intn(20)
	copies := r.Intn(5)
	param := map[string]int{}
	late := r.Intn(3) == 0 // read one after the other, all fully buffered
	firstUnbuffered := late && r.Intn(2) == 0
	for i := 0; i < copies; i++ {
		param[fmt.Sprint("c", i)] = r.Intn(5)
		if late {
			param[fmt.Sprint("c", i)] = n + r.Intn(3)
			if i == 0 && firstUnbuffered {
				param["c0"] = 0
			}
		}
	}
	t.setCase("copy %d: noise %s %d elements to %v, late %v", e, nz, n, param, late)
	in := make(list, n)
	for i := range in {
		in[i] = newElem(i, 0)
	}
	want := show(in)
	var src string
	results := make([]list, copies)
	speeds := make([]int, copies)
	for i := range speeds {
		speeds[i] = r.Intn(6)
	}
	var m map[string]*xstream.Stream
	t.do("copying", func() {
		var s *xstream.Stream
		s, src = streamOf(r, in)
		given := map[string]int{}
		for k, n := range param {
			given[k] = n
		}
		m = s.Copy(given)
		if fmt.Sprint(given) != fmt.Sprint(param) {
			t.failf("copies", "the list of copies %v becomes %v", param, given)
		}
		if r.Intn(2) == 0 {
			for k := range given { // the caller's to reuse
				delete(given, k)
			}
		}
	})
	if len(m) != copies {
		t.failf("copies", "%d copies instead of %d", len(m), copies)
	}
	read := func(i int) {
		s := m[fmt.Sprint("c", i)]
		if s == nil {
			t.failf("copies", "no copy named c%d", i)
		}
		for v := range s.Chan() {
			spin(speeds[i])
			x := v.(*elem)
			if x.payload[0] != x.id*100 {
				t.failf("payload", "an element is not what was sent")
			}
			results[i] = append(results[i], v)
		}
	}
	if late {
		for i := 0; i < copies; i++ {
			i := i
			t.do("reading copies one after the other", func() { read(i) })
		}
	} else {
		var fns []func()
		for i := 0; i < copies; i++ {
			i := i
			fns = append(fns, func() { read(i) })
		}
		t.par("reading copies", fns...)
	}
	t.quiet()
	for i, l := range results {
		if show(l) != want {
			t.failf("wrong", "copy %d of %v from %s is %s instead of %s", i, param, src, show(l), want)
		}
	}
	t.leak("copying")
	t.eval()
	t.count("elements", int64(n*copies))
	if n > 1 {
		t.seen(fmt.Sprint("copy", n, param, late, src, speeds))
	}
}

func c23peek(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	n := r.Intn(14)
	in := make(list, n)
	for i := range in {
		in[i] = newElem(i, 0)
	}
	fs, cs := r.Intn(10), r.Intn(3)
	t.setCase("peek %d: noise %s %d elements", e, nz, n)
	var seen list // plain: complete when the stream has ended
	finished := 0
	var got list
	var src string
	finishedAtEnd := -1
	t.do("peek", func() {
		var s *xstream.Stream
		s, src = streamOf(r, in)
		for v := range s.Peek(func(v interface{}) {
			seen = append(seen, v)
			spin(fs)
			finished++
		}).Chan() {
			spin(cs)
			got = append(got, v)
		}
		finishedAtEnd = finished
	})
	t.quiet()
	if show(got) != show(in) {
		t.failf("wrong", "peek over %s (%s) delivers %s", show(in), src, show(got))
	}
	if show(seen) != show(in) || finishedAtEnd != n {
		t.failf("peek", "peek over %s (%s) called its function for %s, %d calls done at the end", show(in), src, show(seen), finishedAtEnd)
	}
	t.leak("peek")
	t.eval()
	t.count("elements", int64(n))
	if n > 1 {
		t.seen(fmt.Sprint("peek", n, src, fs, cs))
	}
}

func c23split(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	n := r.Intn(16)
	size := []int{1, 2, 3, 4, max(n, 1), n + 1, max(n-1, 1)}[r.Intn(7)]
	if r.Intn(20) == 0 {
		size = math.MaxInt - r.Intn(2)<<20
	}
	in := ints(n)
	kind := r.Intn(5)
	t.setCase("split %d: noise %s kind %d, %d elements by %d", e, nz, kind, n, size)
	mod := 1 + r.Intn(4)
	key := func(v interface{}) interface{} { return v.(int) % mod }
	var src string
	bad := func(what, got, want string) {
		t.failf("wrong", "%s of %d elements (%s) by %d/%d: %s instead of %s", what, n, src, size, mod, got, want)
	}
	t.do("splitting", func() {
		s, k := streamOf(r, in)
		src = k
		switch kind {
		case 0: // chunks, kept, and spoilt one by one
			want := chunks(in, size)
			var got list
			for v := range s.Split(size).Chan() {
				c := v.(list)
				got = append(got, append(list(nil), c...))
				for i := range c {
					c[i] = "scribble"
				}
				c = append(c, "more")
				_ = c[:cap(c)]
			}
			if show(got) != show(want) {
				bad("split", show(got), show(want))
			}
		case 1: // kept until the end
			want := chunks(in, size)
			got := drainList(s.Split(size))
			if show(got) != show(want) {
				bad("split", show(got), show(want))
			}
			for i := range got { // change one after the other
				for j := range got[i].(list) {
					got[i].(list)[j] = "scribble"
				}
				_ = append(got[i].(list), "more", "and more")
				for j := range got {
					if j > i && show1(got[j]) != show1(want[j]) {
						bad("chunk", show1(got[j]), show1(want[j]))
					}
				}
			}
		case 2: // sub-streams, read in any order, alone or together
			want := chunks(in, size)
			subs := drainList(s.SplitSteam(size))
			if len(subs) != len(want) {
				bad("number of sub-streams", fmt.Sprint(len(subs)), fmt.Sprint(len(want)))
			}
			got := make(list, len(subs))
			if r.Intn(2) == 0 {
				for _, i := range r.Perm(len(subs)) {
					got[i] = drainList(subs[i].(*xstream.Stream))
				}
			} else {
				var wg sync.WaitGroup
				for i := range subs {
					i := i
					wg.Add(1)
					go func() {
						defer wg.Done()
						got[i] = drainList(subs[i].(*xstream.Stream))
					}()
				}
				wg.Wait()
			}
			if show(got) != show(want) {
				bad("sub-streams", show(got), show(want))
			}
		case 4: // sub-streams of a slow source, read eagerly as they come
			want := chunks(in, size)
			slow := 1 + r.Intn(30)
			s.Done()
			s = xstream.From(func(c chan<- interface{}) {
				for _, v := range in {
					spin(slow)
					c <- v
				}
			})
			var got []*list
			var wg sync.WaitGroup
			for v := range s.SplitSteam(size).Chan() {
				sub, l := v.(*xstream.Stream), &list{}
				got = append(got, l)
				wg.Add(1)
				go func() {
					defer wg.Done()
					*l = drainList(sub)
				}()
			}
			wg.Wait()
			var flat list
			for _, l := range got {
				flat = append(flat, *l)
			}
			if show(flat) != show(want) {
				bad("sub-streams", show(flat), show(want))
			}
		case 3: // groups
			want := groups(in, key)
			got := map[interface{}][]interface{}{}
			for v := range s.Group(key).Chan() {
				g := v.(list)
				if len(g) == 0 {
					bad("group", "an empty group", "none")
				}
				k := key(g[0])
				if got[k] != nil {
					bad("group", "two groups of one key", "one")
				}
				got[k] = append(list(nil), g...)
				for i := range g {
					g[i] = -1
				}
				g = append(g, "more")
				_ = g
			}
			if showGroups(got) != showGroups(want) {
				bad("groups", showGroups(got), showGroups(want))
			}
		}
	})
	t.quiet()
	t.leak("splitting")
	t.eval()
	t.count("elements", int64(n))
	if n > 1 {
		t.seen(fmt.Sprint("split", kind, n, size, mod, src))
	}
}

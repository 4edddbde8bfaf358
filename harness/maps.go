package main

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/anishathalye/porcupine"
	"github.com/chenquan/go-pkg/xsync"
)

func init() {
	checks["C01"] = c01
	checks["C02"] = c02
	checks["C03"] = c03
	checks["C04"] = c04
}

// dict is the common view of the two maps.
type dict interface {
	Load(k string) (interface{}, bool)
	Has(k string) bool
	Store(k string, v interface{})
	LoadOrStore(k string, v interface{}) (actual interface{}, known, loaded bool)
	LoadAndDelete(k string) (interface{}, bool)
	Delete(k string)
	ComputeIfAbsent(k string, f func(string) interface{}) (interface{}, bool)
	ComputeIfPresent(k string, f func(string, interface{}) interface{}) (interface{}, bool)
	Clear()
	Range(f func(k, v interface{}) bool)
	MStore(m map[string]interface{})
}

type plainMap struct{ m *xsync.Map }

func (p plainMap) Load(k string) (interface{}, bool) { return p.m.Load(k) }
func (p plainMap) Has(k string) bool                 { _, ok := p.m.Load(k); return ok }
func (p plainMap) Store(k string, v interface{})     { p.m.Store(k, v) }
func (p plainMap) LoadOrStore(k string, v interface{}) (interface{}, bool, bool) {
	a, l := p.m.LoadOrStore(k, v)
	return a, true, l
}
func (p plainMap) LoadAndDelete(k string) (interface{}, bool) { return p.m.LoadAndDelete(k) }
func (p plainMap) Delete(k string)                            { p.m.Delete(k) }
func (p plainMap) ComputeIfAbsent(k string, f func(string) interface{}) (interface{}, bool) {
	return p.m.ComputeIfAbsent(k, func(key interface{}) interface{} { return f(key.(string)) })
}
func (p plainMap) ComputeIfPresent(k string, f func(string, interface{}) interface{}) (interface{}, bool) {
	return p.m.ComputeIfPresent(k, func(key, v interface{}) interface{} { return f(key.(string), v) })
}
func (p plainMap) Clear()                              { p.m.Clear() }
func (p plainMap) Range(f func(k, v interface{}) bool) { p.m.Range(f) }
func (p plainMap) MStore(m map[string]interface{}) {
	for k, v := range m {
		p.m.Store(k, v)
	}
}

type shardMap struct{ m *xsync.SharedMap }

func (p shardMap) Load(k string) (interface{}, bool) { return p.m.Load(k) }
func (p shardMap) Has(k string) bool                 { return p.m.Has(k) }
func (p shardMap) Store(k string, v interface{})     { p.m.Store(k, v) }
func (p shardMap) LoadOrStore(k string, v interface{}) (interface{}, bool, bool) {
	return nil, false, !p.m.LoadOrStore(k, v)
}
func (p shardMap) LoadAndDelete(k string) (interface{}, bool) {
	return p.m.GetShard(k).LoadAndDelete(k)
}
func (p shardMap) Delete(k string) { p.m.Delete(k) }
func (p shardMap) ComputeIfAbsent(k string, f func(string) interface{}) (interface{}, bool) {
	return p.m.ComputeIfAbsent(k, f)
}
func (p shardMap) ComputeIfPresent(k string, f func(string, interface{}) interface{}) (interface{}, bool) {
	return p.m.ComputeIfPresent(k, f)
}
func (p shardMap) Clear()                              { p.m.Clear() }
func (p shardMap) Range(f func(k, v interface{}) bool) { p.m.Range(f) }
func (p shardMap) MStore(m map[string]interface{})     { p.m.MStore(m) }

func newDict(r *rand.Rand) (dict, string) {
	if r.Intn(2) == 0 {
		return plainMap{&xsync.Map{}}, "map"
	}
	n := []int{1, 2, 3, 4, 32}[r.Intn(5)]
	if r.Intn(10) == 0 {
		n = []int{64, 128, 200, 256, 500, 1000}[r.Intn(6)]
	}
	if n == 32 && r.Intn(2) == 0 {
		return shardMap{xsync.NewSharedMap()}, "shared(default)"
	}
	return shardMap{xsync.NewSharedMap(xsync.WithShardBlockSize(n))}, fmt.Sprintf("shared(%d)", n)
}

// lval is a value or its absence.
type lval struct {
	V  interface{}
	OK bool
}

func (l lval) String() string {
	if !l.OK {
		return "-"
	}
	return fmt.Sprint(l.V)
}

type losOut struct {
	Actual interface{}
	Known  bool
	Loaded bool
}

// mapModel is the dictionary of one key.
var mapModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[string][]porcupine.Operation{}
		for _, o := range h {
			by[o.Input.(hop).Key] = append(by[o.Input.(hop).Key], o)
		}
		var r [][]porcupine.Operation
		for _, l := range by {
			r = append(r, l)
		}
		return r
	},
	Init: func() interface{} { return lval{} },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, o := st.(lval), in.(hop)
		switch o.Op {
		case "load":
			return out.(lval) == s, s
		case "has":
			return out.(bool) == s.OK, s
		case "store":
			return true, lval{o.In, true}
		case "los":
			r := out.(losOut)
			if s.OK {
				return r.Loaded && (!r.Known || r.Actual == s.V), s
			}
			return !r.Loaded && (!r.Known || r.Actual == o.In), lval{o.In, true}
		case "lad":
			return out.(lval) == s, lval{}
		case "del", "clear":
			return true, lval{}
		case "cia":
			// In: the values computed by this call; Out: actual, loaded
			r := out.(losOut)
			if s.OK {
				return r.Loaded && r.Actual == s.V, s
			}
			if r.Loaded {
				return false, s
			}
			for _, c := range o.In.([]interface{}) {
				if c == r.Actual {
					return true, lval{r.Actual, true}
				}
			}
			return false, s
		case "cip":
			// In: (given, computed) pairs; Out: actual, exist
			r := out.(lval)
			if !s.OK {
				return !r.OK, s
			}
			if !r.OK {
				return false, s
			}
			for _, c := range o.In.([][2]interface{}) {
				if c[1] == r.V {
					return c[0] == s.V, lval{r.V, true}
				}
			}
			return false, s
		}
		panic("unknown op " + o.Op)
	},
	Equal: func(a, b interface{}) bool { return a == b },
}

var valueSeq int64

// fresh returns a value never used before; per-goroutine ranges would do as
// well, but one plain counter per client keeps values readable.
type valgen struct {
	client int
	n      int
}

func (g *valgen) next() interface{} {
	g.n++
	return g.client*100000 + g.n
}

// mapOp performs one operation and records it.
func mapOp(m dict, h *hist, client int, op, key string, keys []string, vals *valgen) {
	o := hop{Client: client, Key: key, Op: op}
	switch op {
	case "load":
		o.Call = now()
		v, ok := m.Load(key)
		o.Ret = now()
		o.Out = lval{v, ok}
	case "has":
		o.Call = now()
		ok := m.Has(key)
		o.Ret = now()
		o.Out = ok
	case "store":
		o.In = vals.next()
		o.Call = now()
		m.Store(key, o.In)
		o.Ret = now()
	case "mstore":
		data := map[string]interface{}{}
		for _, k := range keys {
			data[k] = vals.next()
		}
		c := now()
		m.MStore(data)
		r := now()
		for _, k := range keys {
			h.add(hop{Client: client, Key: k, Op: "store", In: data[k], Call: c, Ret: r})
		}
		return
	case "los":
		o.In = vals.next()
		o.Call = now()
		a, known, loaded := m.LoadOrStore(key, o.In)
		o.Ret = now()
		o.Out = losOut{a, known, loaded}
	case "lad":
		o.Call = now()
		v, ok := m.LoadAndDelete(key)
		o.Ret = now()
		o.Out = lval{v, ok}
	case "del":
		o.Call = now()
		m.Delete(key)
		o.Ret = now()
	case "clear":
		c := now()
		m.Clear()
		r := now()
		for _, k := range keys {
			h.add(hop{Client: client, Key: k, Op: "clear", Call: c, Ret: r})
		}
		return
	case "cia":
		var cand []interface{}
		o.Call = now()
		a, loaded := m.ComputeIfAbsent(key, func(string) interface{} {
			v := vals.next()
			cand = append(cand, v)
			return v
		})
		o.Ret = now()
		o.In = cand
		if cand == nil {
			o.In = []interface{}{}
		}
		o.Out = losOut{a, true, loaded}
	case "cip":
		pairs := [][2]interface{}{}
		o.Call = now()
		a, ok := m.ComputeIfPresent(key, func(_ string, v interface{}) interface{} {
			n := vals.next()
			pairs = append(pairs, [2]interface{}{v, n})
			return n
		})
		o.Ret = now()
		o.In = pairs
		o.Out = lval{a, ok}
	}
	h.add(o)
}

var allMapOps = []string{"load", "has", "store", "los", "lad", "del", "cia", "cip", "clear", "mstore"}

// prelude brings the map into some internal shape by a sequential history.
func prelude(m dict, h *hist, r *rand.Rand, client int, keys []string, vals *valgen) {
	filler := r.Intn(4)
	for i := 0; i < filler; i++ {
		m.Store(fmt.Sprintf("filler%d", i), i)
	}
	touch := func() { m.Range(func(k, v interface{}) bool { return true }) }
	for _, k := range keys {
		switch r.Intn(7) {
		case 0: // never seen
		case 1: // in the dirty part only
			mapOp(m, h, client, "store", k, keys, vals)
		case 2: // promoted
			mapOp(m, h, client, "store", k, keys, vals)
			touch()
		case 3: // promoted, deleted
			mapOp(m, h, client, "store", k, keys, vals)
			touch()
			mapOp(m, h, client, "del", k, keys, vals)
		case 4: // promoted, deleted, expunged
			mapOp(m, h, client, "store", k, keys, vals)
			touch()
			mapOp(m, h, client, "del", k, keys, vals)
			m.Store("expunger", 1)
		case 5: // deleted from the dirty part
			mapOp(m, h, client, "store", k, keys, vals)
			mapOp(m, h, client, "lad", k, keys, vals)
		case 6:
			n := r.Intn(8)
			for i := 0; i < n; i++ {
				mapOp(m, h, client, allMapOps[r.Intn(len(allMapOps))], k, keys, vals)
				if r.Intn(4) == 0 {
					touch()
				}
			}
		}
	}
	// leave the miss counter anywhere
	for i := r.Intn(4); i > 0; i-- {
		m.Load("nobody")
	}
	if r.Intn(5) == 0 {
		touch()
	}
}

func c01(t *T) {
	t.rule = "one evaluation = one concurrent history on a fresh map (a random sequential prelude shapes its read/dirty/deleted/expunged state, then 2..6 goroutines run random operations on 1..3 keys under scheduling noise, then every key is read back), decided per key by porcupine against a one-key dictionary; non-trivial = at least two operations of different goroutines overlapped in time; distinct = distinct order of calls, returns and outcomes"
	N := t.n(6000)
	for e := 0; e < N; e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		m, kind := newDict(r)
		t.quiet()
		keys := []string{"a", "b", "c"}[:1+r.Intn(3)]
		if r.Intn(4) == 0 {
			keys = append([]string{""}, nearKeys(r)...)[r.Intn(2):][:len(keys)] // "" is a key like any other
		}
		clients := 2 + r.Intn(5)
		h := newHist(clients + 1)
		prelude(m, h, r, clients, keys, &valgen{client: clients})
		// a focused subset of the operations
		ops := append([]string(nil), allMapOps...)
		r.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		ops = ops[:2+r.Intn(len(ops)-1)]
		per := 1 + r.Intn(6)
		churn := r.Intn(3) == 0
		nz := t.noise()
		t.setCase("episode %d: %s, noise %s, keys %v, ops %v, %d clients x %d", e, kind, nz, keys, ops, clients, per)
		var fns []func()
		for c := 0; c < clients; c++ {
			c, seed := c, r.Int63()
			fns = append(fns, func() {
				rr := rand.New(rand.NewSource(seed))
				vals := &valgen{client: c}
				for i := 0; i < per; i++ {
					if churn && rr.Intn(3) == 0 {
						// promotions and new dirty parts around the operations
						switch rr.Intn(3) {
						case 0:
							m.Range(func(k, v interface{}) bool { return true })
						case 1:
							m.Store(fmt.Sprintf("churn%d-%d", c, i), i)
						case 2:
							m.Load("nobody")
						}
					}
					mapOp(m, h, c, ops[rr.Intn(len(ops))], keys[rr.Intn(len(keys))], keys, vals)
				}
			})
		}
		t.par("concurrent map operations", fns...)
		t.quiet()
		ranged := map[string]interface{}{}
		for _, k := range keys {
			mapOp(m, h, clients, "load", k, keys, nil)
		}
		c0 := now()
		m.Range(func(k, v interface{}) bool { ranged[k.(string)] = v; return true })
		c1 := now()
		for _, k := range keys {
			v, ok := ranged[k]
			h.add(hop{Client: clients, Key: k, Op: "load", Out: lval{v, ok}, Call: c0, Ret: c1})
		}
		all := h.all()
		t.eval()
		t.count("operations", int64(len(all)))
		if ov := overlaps(all); ov > 0 {
			t.seen(shape(all))
			t.count("overlapping_pairs", int64(ov))
		}
		if !t.linear(mapModel, all, kind) {
			return
		}
		if e == 5 || e == 50 {
			t.sample(map[string]interface{}{"map": kind, "noise": nz, "history": render(all)})
		}
	}
	// sustained storm on one map with Clear: safety and final agreement
	for e := 0; e < t.n(30); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		m, kind := newDict(r)
		nz := t.noise()
		t.setCase("storm %d: %s, noise %s", e, kind, nz)
		var fns []func()
		for c := 0; c < 6; c++ {
			seed := r.Int63()
			fns = append(fns, func() {
				rr := rand.New(rand.NewSource(seed))
				for i := 0; i < 400; i++ {
					k := fmt.Sprintf("k%d", rr.Intn(6))
					switch rr.Intn(9) {
					case 0, 1:
						if v, ok := m.Load(k); ok && v.(string) != k {
							t.failf("wrong-value", "Load(%q) returned %v, stored for another key", k, v)
						}
					case 2, 3:
						m.Store(k, k)
					case 4:
						m.LoadOrStore(k, k)
					case 5:
						m.Delete(k)
					case 6:
						if rr.Intn(4) == 0 {
							m.Clear()
						}
					case 7:
						m.ComputeIfAbsent(k, func(key string) interface{} { return key })
					case 8:
						m.Range(func(k, v interface{}) bool { return k == v || true })
					}
				}
			})
		}
		t.par("map storm with Clear", fns...)
		t.quiet()
		t.eval()
		t.count("storm_operations", 6*400)
		for i := 0; i < 6; i++ {
			k := fmt.Sprintf("k%d", i)
			v, ok := m.Load(k)
			n := 0
			m.Range(func(kk, vv interface{}) bool {
				if kk == k {
					n++
				}
				return true
			})
			if (n == 1) != ok || n > 1 || (ok && v != k) {
				t.failf("incoherent", "%s after a storm: Load(%q)=%v,%v but Range shows it %d times", kind, k, v, ok, n)
			}
			m.Store(k, "x"+k)
			if v, ok := m.Load(k); !ok || v != "x"+k {
				t.failf("lost-store", "%s after a storm: stored value not read back: %v,%v", kind, v, ok)
			}
		}
		m.Clear()
		m.Range(func(k, v interface{}) bool {
			t.failf("clear", "%s: key %v survives Clear", kind, k)
			return false
		})
	}
}

// ---- C02 -----------------------------------------------------------------

type span struct {
	val      int
	from, to int64 // earliest and latest moment the key may have held val
	sureFrom int64 // moments between sureFrom and sureTo it certainly did
	sureTo   int64
	deleted  bool
}

const never = int64(1) << 62

func c02(t *T) {
	t.rule = "one evaluation = one monitored iteration (or re-entrant / early-stopped iteration) over a map whose keys are written by one goroutine each with recorded store/delete intervals; the oracle derives from those intervals which keys must, may and must not be reported and with which values; non-trivial = writers were active during the iteration or the callback acted on the map; distinct = distinct content, reported sequence and writer history"
	N := t.n(1500)
	for e := 0; e < N; e++ {
		c02concurrent(t, e)
	}
	for e := 0; e < t.n(2500); e++ {
		c02stop(t, e)
	}
	for e := 0; e < t.n(1200); e++ {
		c02reentrant(t, e)
	}
}

func c02concurrent(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	m, kind := newDict(r)
	t.quiet()
	nk := 1 + r.Intn(10)
	writers := 1 + r.Intn(3)
	iters := 1 + r.Intn(3)
	spans := make([][]span, nk) // owned by the key's writer
	key := func(i int) string { return fmt.Sprintf("key%d", i) }
	seq := 0
	// initial content, in every internal state
	for i := 0; i < nk; i++ {
		if r.Intn(5) > 0 {
			seq++
			c := now()
			m.Store(key(i), seq)
			spans[i] = append(spans[i], span{val: seq, from: c, sureFrom: now(), to: never, sureTo: never})
		}
		if r.Intn(4) == 0 {
			m.Range(func(k, v interface{}) bool { return true })
		}
		if r.Intn(4) == 0 {
			m.Load("nobody")
		}
		if r.Intn(5) == 0 {
			m.Store("gone", 0)
			m.Delete("gone")
		}
	}
	nz := t.noise()
	t.setCase("concurrent %d: %s noise %s keys %d", e, kind, nz, nk)
	var fns []func()
	for w := 0; w < writers; w++ {
		w, seed := w, r.Int63()
		churn := r.Intn(2) == 0
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			n := 0
			for step := 0; step < 12; step++ {
				i := rr.Intn(nk)
				if i%writers != w {
					continue
				}
				if i%4 == 0 && rr.Intn(3) > 0 {
					continue // keys that mostly stay
				}
				ss := &spans[i]
				var cur *span
				if k := len(*ss); k > 0 && !(*ss)[k-1].deleted {
					cur = &(*ss)[k-1]
				}
				if rr.Intn(3) == 0 {
					if cur == nil {
						continue
					}
					cur.sureTo = now()
					m.Delete(key(i))
					cur.to = now()
					cur.deleted = true
				} else {
					n++
					v := (w+1)*1000 + n
					c := now()
					if cur != nil {
						cur.sureTo = c
					}
					switch {
					case cur == nil && rr.Intn(2) == 0:
						m.LoadOrStore(key(i), v)
					case cur != nil && rr.Intn(3) == 0:
						m.ComputeIfPresent(key(i), func(string, interface{}) interface{} { return v })
					default:
						m.Store(key(i), v)
					}
					d := now()
					if cur != nil {
						cur.to = d
						cur.deleted = true
					}
					*ss = append(*ss, span{val: v, from: c, sureFrom: d, to: never, sureTo: never})
				}
				if churn && rr.Intn(2) == 0 {
					m.Store(fmt.Sprintf("churn%d-%d", w, step), step)
				}
			}
		})
	}
	type seenKV struct {
		k string
		v interface{}
	}
	type iter struct {
		from, to int64
		got      []seenKV
	}
	its := make([]iter, iters)
	for i := 0; i < iters; i++ {
		it := &its[i]
		fns = append(fns, func() {
			it.from = now()
			m.Range(func(k, v interface{}) bool {
				it.got = append(it.got, seenKV{k.(string), v})
				return true
			})
			it.to = now()
		})
	}
	t.par("iteration with writers", fns...)
	t.quiet()
	// a last iteration must be exact
	last := iter{from: now()}
	m.Range(func(k, v interface{}) bool {
		last.got = append(last.got, seenKV{k.(string), v})
		return true
	})
	last.to = now()
	its = append(its, last)
	for _, it := range its {
		t.eval()
		t.count("callbacks", int64(len(it.got)))
		counts := map[string]int{}
		for _, g := range it.got {
			counts[g.k]++
			if counts[g.k] > 1 {
				t.fail("duplicate", fmt.Sprintf("%s: one iteration reported key %q twice", kind, g.k), it.got)
			}
		}
		desc := strings.Builder{}
		for i := 0; i < nk; i++ {
			k := key(i)
			var rep interface{}
			reported := false
			for _, g := range it.got {
				if g.k == k {
					rep, reported = g.v, true
				}
			}
			fmt.Fprintf(&desc, "%d:%v/%d ", i, rep, len(spans[i]))
			// present throughout: a chain of spans without deletion covers the iteration
			must := false
			if len(spans[i]) > 0 {
				must = mustReport(spans[i], it.from, it.to)
			}
			if must && !reported {
				t.fail("missing", fmt.Sprintf("%s: key %q was present throughout the iteration but not reported", kind, k), fmt.Sprintf("iteration [%d,%d] got %v; history %+v", it.from, it.to, it.got, spans[i]))
			}
			if reported {
				ok := false
				for _, s := range spans[i] {
					if s.val == rep && s.from <= it.to && s.to >= it.from {
						ok = true
					}
				}
				if !ok {
					t.fail("wrong-value", fmt.Sprintf("%s: key %q reported with %v, which it did not hold during the iteration", kind, k, rep), fmt.Sprintf("iteration [%d,%d]; history %+v", it.from, it.to, spans[i]))
				}
			}
		}
		for k := range counts {
			if !strings.HasPrefix(k, "key") && !strings.HasPrefix(k, "churn") {
				t.failf("phantom", "%s: key %q was reported but is not in the map", kind, k)
			}
		}
		t.seen(fmt.Sprint(kind, desc.String(), it.got))
		if e == 3 {
			t.sample(map[string]interface{}{"map": kind, "reported": fmt.Sprint(it.got), "history": fmt.Sprintf("%+v", spans)})
		}
	}
}

// mustReport: the key was certainly present during the whole of [from,to].
// Successive values of one writer replace each other without absence unless a
// delete lies between them, which shows as sureTo/to ending before the next
// value starts.
func mustReport(ss []span, from, to int64) bool {
	// present from sureFrom of some span until a span that ended by deletion
	for i := 0; i < len(ss); i++ {
		if ss[i].sureFrom > from {
			return false
		}
		// extend over overwrites: next span's call equals this span's sureTo
		j := i
		for j+1 < len(ss) && ss[j+1].from == ss[j].sureTo {
			j++
		}
		if ss[j].sureTo >= to {
			return true
		}
		i = j
	}
	return false
}

func fillDict(m dict, r *rand.Rand, n int) map[string]interface{} {
	want := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("key%d", i)
		m.Store(k, i)
		want[k] = i
		switch r.Intn(8) {
		case 0:
			m.Range(func(k, v interface{}) bool { return true })
		case 1:
			m.Delete(k)
			delete(want, k)
		case 2:
			m.Load("nobody")
		}
	}
	return want
}

func c02stop(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	m, kind := newDict(r)
	want := fillDict(m, r, r.Intn(20))
	stop := r.Intn(len(want) + 3)
	t.setCase("early stop %d: %s, %d keys, stop at callback %d", e, kind, len(want), stop)
	calls := 0
	t.do("early-stopped iteration", func() {
		m.Range(func(k, v interface{}) bool {
			calls++
			if w, ok := want[k.(string)]; !ok || w != v {
				t.failf("wrong-value", "%s: reported %v=%v", kind, k, v)
			}
			return calls != stop
		})
	})
	exp := len(want)
	if stop > 0 && stop < exp {
		exp = stop
	}
	if calls != exp {
		t.failf("stop", "%s: iteration over %d keys told to stop at callback %d made %d callbacks", kind, len(want), stop, calls)
	}
	t.eval()
	if stop > 0 && stop < len(want) {
		t.seen(fmt.Sprint(kind, len(want), stop, e))
	}
}

func c02reentrant(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	m, kind := newDict(r)
	want := fillDict(m, r, 1+r.Intn(12))
	t.setCase("re-entrant %d: %s, %d keys", e, kind, len(want))
	acts := make([]int, 64)
	for i := range acts {
		acts[i] = r.Intn(11)
	}
	var log []string
	stopped := false
	clear := false
	// gone: keys the callback deleted before their turn; an iteration over a
	// snapshot may still report them.
	gone := map[string]bool{}
	t.do("re-entrant iteration", func() {
		seen := map[string]bool{}
		i := 0
		m.Range(func(k, v interface{}) bool {
			ks := k.(string)
			if seen[ks] {
				t.failf("duplicate", "%s: key %v reported twice while the callback modifies the map: %v", kind, k, log)
			}
			seen[ks] = true
			a := acts[i%len(acts)]
			i++
			if i > 4*len(acts) {
				stopped = true
				return false
			}
			log = append(log, fmt.Sprintf("%s:%d", ks, a))
			switch a {
			case 0:
				m.Store(fmt.Sprintf("new%d", i), i)
			case 1:
				m.Delete(ks)
			case 2:
				m.Store(ks, v)
			case 3:
				if _, ok := m.Load(ks); !ok && !clear && !gone[ks] {
					t.failf("missing", "%s: the key being reported is not loadable: %v", kind, log)
				}
			case 4:
				inner := map[string]int{}
				m.Range(func(k, v interface{}) bool { inner[k.(string)]++; return true })
				for k, n := range inner {
					if n > 1 {
						t.failf("duplicate", "%s: nested iteration reported %v twice", kind, k)
					}
				}
				if inner[ks] != 1 && !clear && !gone[ks] {
					t.failf("missing", "%s: nested iteration misses the current key %v", kind, ks)
				}
			case 5:
				m.ComputeIfPresent(ks, func(_ string, v interface{}) interface{} { return v })
			case 6:
				m.ComputeIfAbsent(fmt.Sprintf("cia%d", i), func(string) interface{} { return i })
			case 7:
				m.LoadOrStore(fmt.Sprintf("los%d", i), i)
			case 8:
				d := fmt.Sprintf("key%d", i)
				m.LoadAndDelete(d)
				gone[d] = true
			case 9:
				if acts[(i+7)%len(acts)] == 0 {
					clear = true
					m.Clear()
				}
			case 10:
				m.Range(func(k, v interface{}) bool { return false })
			}
			return true
		})
		if !stopped && !clear {
			for k := range want {
				if !seen[k] && !gone[k] {
					t.failf("missing", "%s: key %q was present throughout and not reported: %v", kind, k, log)
				}
			}
		}
	})
	t.eval()
	t.count("reentrant_actions", int64(len(log)))
	t.seen(kind + strings.Join(log, " "))
	if e == 2 {
		t.sample(map[string]interface{}{"map": kind, "callback_actions": log})
	}
}

// ---- C03 -----------------------------------------------------------------

type keyStruct struct {
	a int
	b string
}

// fnv1 is used only to generate keys that collide; it decides nothing.
func fnv1(s string) uint32 {
	h := uint32(2166136261)
	for i := 0; i < len(s); i++ {
		h *= 16777619
		h ^= uint32(s[i])
	}
	return h
}

func keyPool(r *rand.Rand) []string {
	pool := []string{"", "a", "b", "\x00", "\xff\xfe", "é", "世界", " ", strings.Repeat("long", 3000), strings.Repeat("long", 3000) + "x"}
	// keys colliding in every shard count up to 256
	want := fnv1("a") & 255
	for i := 0; len(pool) < 16; i++ {
		k := fmt.Sprintf("c%d-%d", r.Intn(1000), i)
		if fnv1(k)&255 == want {
			pool = append(pool, k)
		}
	}
	for i := 0; i < 14; i++ {
		b := make([]byte, 1+r.Intn(6))
		r.Read(b)
		pool = append(pool, string(b))
	}
	pool = append(pool, nearKeys(r)...)
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	return pool[:1+r.Intn(len(pool))]
}

func randValue(r *rand.Rand, n int) interface{} {
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return n
	case 2:
		return fmt.Sprint(n)
	case 3:
		p := new(int)
		*p = n
		return p
	case 4:
		return keyStruct{n, "v"}
	default:
		return (*int)(nil)
	}
}

func c03(t *T) {
	t.rule = "one evaluation = one random sequential operation sequence (up to 60 operations over keys from a hostile pool, with nil and typed-nil values) on the concurrent map or on a sharded map of a given shard count, compared after every operation with a Go map and at the end by iteration; non-trivial = the sequence mixed stores with deletes, computes or clears; distinct = distinct sequence"
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097}
	N := t.n(4000)
	for e := 0; e < N; e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		var d dict
		var kind string
		var sm *xsync.SharedMap
		switch r.Intn(3) {
		case 0:
			d, kind = plainMap{&xsync.Map{}}, "map"
		case 1:
			if r.Intn(4) == 0 {
				sm = xsync.NewSharedMap()
				kind = "shared(default)"
			} else {
				n := sizes[r.Intn(len(sizes))]
				if r.Intn(3) == 0 {
					n = 1 + r.Intn(70)
				}
				sm = xsync.NewSharedMap(xsync.WithShardBlockSize(n))
				kind = fmt.Sprintf("shared(%d)", n)
			}
			d = shardMap{sm}
		case 2:
			c03generic(t, e, r)
			continue
		}
		t.setCase("sequence %d on %s", e, kind)
		keys := keyPool(r)
		ref := map[string]interface{}{}
		var log []string
		bad := func(what string, got, want interface{}) {
			t.fail("differs", fmt.Sprintf("%s: %s: got %v, want %v", kind, what, got, want), log)
		}
		kinds := map[string]bool{}
		n := 5 + r.Intn(56)
		t.do("sequential history", func() {
			for i := 0; i < n; i++ {
				k := keys[r.Intn(len(keys))]
				v := randValue(r, i)
				cur, present := ref[k]
				op := r.Intn(14)
				sk := k
				if len(sk) > 20 {
					sk = fmt.Sprintf("%s..(%d)", sk[:8], len(sk))
				}
				log = append(log, fmt.Sprintf("%d %q %v", op, sk, v))
				switch op {
				case 0, 1:
					d.Store(k, v)
					ref[k] = v
					kinds["store"] = true
				case 2:
					g, ok := d.Load(k)
					if ok != present || g != cur {
						bad("Load "+sk, lval{g, ok}, lval{cur, present})
					}
				case 3:
					if d.Has(k) != present {
						bad("Has "+sk, !present, present)
					}
				case 4:
					a, known, loaded := d.LoadOrStore(k, v)
					if loaded != present {
						bad("LoadOrStore loaded "+sk, loaded, present)
					}
					if !present {
						ref[k] = v
					}
					if known && a != ref[k] {
						bad("LoadOrStore actual "+sk, a, ref[k])
					}
				case 5:
					g, ok := d.LoadAndDelete(k)
					if ok != present || g != cur {
						bad("LoadAndDelete "+sk, lval{g, ok}, lval{cur, present})
					}
					delete(ref, k)
					kinds["delete"] = true
				case 6:
					d.Delete(k)
					delete(ref, k)
					kinds["delete"] = true
				case 7:
					calls := 0
					a, loaded := d.ComputeIfAbsent(k, func(kk string) interface{} {
						calls++
						if kk != k {
							bad("ComputeIfAbsent callback key", kk, k)
						}
						return v
					})
					if loaded != present || (present && calls != 0) || (!present && calls != 1) {
						bad("ComputeIfAbsent "+sk, fmt.Sprint(loaded, calls), present)
					}
					if !present {
						ref[k] = v
					}
					if a != ref[k] {
						bad("ComputeIfAbsent actual "+sk, a, ref[k])
					}
					kinds["compute"] = true
				case 8:
					calls := 0
					a, ok := d.ComputeIfPresent(k, func(kk string, old interface{}) interface{} {
						calls++
						if kk != k || old != cur {
							bad("ComputeIfPresent callback", fmt.Sprint(kk, old), cur)
						}
						return v
					})
					if ok != present || (present && calls != 1) || (!present && calls != 0) {
						bad("ComputeIfPresent "+sk, fmt.Sprint(ok, calls), present)
					}
					if present {
						ref[k] = v
						if a != v {
							bad("ComputeIfPresent actual", a, v)
						}
					} else if a != nil {
						bad("ComputeIfPresent absent actual", a, nil)
					}
					kinds["compute"] = true
				case 9:
					if r.Intn(3) == 0 {
						d.Clear()
						ref = map[string]interface{}{}
						kinds["clear"] = true
					}
				case 10:
					data := map[string]interface{}{}
					for j := r.Intn(4); j > 0; j-- {
						data[keys[r.Intn(len(keys))]] = randValue(r, i*10+j)
					}
					if len(data) == 0 && r.Intn(2) == 0 {
						data = nil
					}
					given := map[string]interface{}{}
					for kk, vv := range data {
						given[kk] = vv
					}
					d.MStore(data)
					for kk, vv := range given {
						ref[kk] = vv
						if x, ok := data[kk]; !ok || x != vv {
							bad("the caller's map after MStore, "+fmt.Sprintf("%q", kk), x, vv)
						}
						data[kk] = "overwritten" // the caller's to change
					}
					if len(data) != len(given) {
						bad("size of the caller's map after MStore", len(data), len(given))
					}
				case 11, 12:
					compareAll(d, ref, bad)
				case 13:
					if sm != nil {
						s := sm.GetShard(k)
						if s == nil || s != sm.GetShard(k) {
							bad("GetShard not stable for "+sk, s, "one shard")
						}
						g, ok := s.Load(k)
						if ok != present || g != cur {
							bad("key not in its reported shard "+sk, lval{g, ok}, lval{cur, present})
						}
						for _, o := range keys {
							if os := sm.GetShard(o); os != s {
								if _, ok := os.Load(k); ok {
									bad("key in a foreign shard "+sk, true, false)
								}
							}
						}
					}
				}
			}
			compareAll(d, ref, bad)
			for _, k := range keys {
				g, ok := d.Load(k)
				w, wok := ref[k]
				if g != w || ok != wok {
					bad("final Load", lval{g, ok}, lval{w, wok})
				}
			}
		})
		t.eval()
		t.count("operations", int64(n))
		if len(kinds) >= 2 {
			t.seen(kind + strings.Join(log, ";"))
		}
		if e == 4 || e == 7 {
			t.sample(map[string]interface{}{"map": kind, "sequence": log})
		}
	}
	// construction
	for _, n := range []int{0, -1, -2, -5, -31, -32, -1 << 31, -1 << 40, -1<<32 + 3, -1 << 62} {
		t.setCase("construction with shard count %d", n)
		if _, p := try(func() { xsync.NewSharedMap(xsync.WithShardBlockSize(n)) }); !p {
			t.failf("accepted", "NewSharedMap accepted the shard count %d", n)
		}
		t.eval()
		t.count("constructions", 1)
	}
	// far more shards than anybody needs, or than 32 bits can tell
	for _, n := range []int{1<<31 + 1, 1 << 32, 1<<32 + 5, 1<<40 + 1, 1 << 40, math.MaxInt} {
		t.setCase("construction with shard count %d", n)
		_, p := try(func() {
			m := xsync.NewSharedMap(xsync.WithShardBlockSize(n))
			for i, k := range []string{"", "a", "xyz", "a longer key than the others"} {
				m.Store(k, i)
				if v, ok := m.Load(k); !ok || v != i {
					t.failf("wrong", "with the shard count %d, %q reads as %v, %v", n, k, v, ok)
				}
				if v, ok := m.GetShard(k).Load(k); !ok || v != i {
					t.failf("wrong", "with the shard count %d, %q is not in its shard", n, k)
				}
			}
			seen := 0
			m.Range(func(k, v interface{}) bool { seen++; return true })
			if seen != 4 {
				t.failf("wrong", "with the shard count %d, an iteration over 4 keys reports %d", n, seen)
			}
		})
		if p {
			t.failf("refused", "the shard count %d is refused, or the map made with it cannot be used", n)
		}
		t.eval()
		t.count("constructions", 1)
	}
	hi := 300
	if t.tier == "thorough" {
		hi = 5000
	}
	for n := 1; n <= hi; n++ {
		t.setCase("construction with shard count %d", n)
		m := xsync.NewSharedMap(xsync.WithShardBlockSize(n))
		for i := 0; i < 40; i++ {
			m.Store(fmt.Sprint("k", i), i)
		}
		c := 0
		m.Range(func(k, v interface{}) bool { c++; return true })
		if c != 40 {
			t.failf("differs", "shared(%d): 40 keys stored, %d iterated", n, c)
		}
		for i := 0; i < 40; i++ {
			if v, ok := m.Load(fmt.Sprint("k", i)); !ok || v != i {
				t.failf("differs", "shared(%d): key k%d lost", n, i)
			}
		}
		m.Clear()
		m.Range(func(k, v interface{}) bool { t.failf("differs", "shared(%d): %v survives Clear", n, k); return false })
		t.eval()
		t.count("constructions", 1)
	}
	m := xsync.NewSharedMap(xsync.WithShardBlockSize(1 << 17))
	m.Store("x", 1)
	if v, ok := m.Load("x"); !ok || v != 1 {
		t.failf("differs", "shared(1<<17): key lost")
	}
}

func compareAll(d dict, ref map[string]interface{}, bad func(string, interface{}, interface{})) {
	got := map[string]interface{}{}
	d.Range(func(k, v interface{}) bool {
		if _, dup := got[k.(string)]; dup {
			bad("iteration repeats a key", k, nil)
		}
		got[k.(string)] = v
		return true
	})
	if len(got) != len(ref) {
		bad("number of iterated keys", len(got), len(ref))
	}
	for k, v := range ref {
		g, ok := got[k]
		if !ok || g != v {
			bad("iterated value of "+fmt.Sprintf("%.20q", k), g, v)
		}
	}
}

// c03generic drives the concurrent map with keys of mixed dynamic types.
func c03generic(t *T, e int, r *rand.Rand) {
	t.setCase("generic sequence %d", e)
	m := &xsync.Map{}
	p1, p2 := new(int), new(int)
	keys := []interface{}{1, int64(1), int8(1), "1", 1.0, true, nil, keyStruct{1, "x"}, keyStruct{2, "x"}, [2]int{1, 2}, p1, p2, struct{}{}, 'x'}
	ref := map[interface{}]interface{}{}
	var log []string
	bad := func(what string, got, want interface{}) {
		t.fail("differs", fmt.Sprintf("map with mixed keys: %s: got %v, want %v", what, got, want), log)
	}
	t.do("sequential history", func() {
		for i := 0; i < 50; i++ {
			k := keys[r.Intn(len(keys))]
			v := randValue(r, i)
			cur, present := ref[k]
			op := r.Intn(9)
			log = append(log, fmt.Sprintf("%d %T:%v %v", op, k, k, v))
			switch op {
			case 0, 1:
				m.Store(k, v)
				ref[k] = v
			case 2:
				g, ok := m.Load(k)
				if ok != present || g != cur {
					bad("Load", lval{g, ok}, lval{cur, present})
				}
			case 3:
				a, loaded := m.LoadOrStore(k, v)
				if !present {
					ref[k] = v
				}
				if loaded != present || a != ref[k] {
					bad("LoadOrStore", a, ref[k])
				}
			case 4:
				g, ok := m.LoadAndDelete(k)
				if ok != present || g != cur {
					bad("LoadAndDelete", lval{g, ok}, lval{cur, present})
				}
				delete(ref, k)
			case 5:
				a, loaded := m.ComputeIfAbsent(k, func(kk interface{}) interface{} {
					if kk != k {
						bad("callback key", kk, k)
					}
					return v
				})
				if !present {
					ref[k] = v
				}
				if loaded != present || a != ref[k] {
					bad("ComputeIfAbsent", a, ref[k])
				}
			case 6:
				a, ok := m.ComputeIfPresent(k, func(kk, old interface{}) interface{} {
					if kk != k || old != cur {
						bad("callback", old, cur)
					}
					return v
				})
				if present {
					ref[k] = v
				}
				if ok != present || a != ref[k] {
					bad("ComputeIfPresent", a, ref[k])
				}
			case 7:
				if r.Intn(4) == 0 {
					m.Clear()
					ref = map[interface{}]interface{}{}
				}
			case 8:
				n := 0
				m.Range(func(k, v interface{}) bool {
					n++
					if w, ok := ref[k]; !ok || w != v {
						bad("iterated", v, w)
					}
					return true
				})
				if n != len(ref) {
					bad("number of keys", n, len(ref))
				}
			}
		}
	})
	t.eval()
	t.count("operations", 50)
	t.seen(strings.Join(log, ";"))
}

// ---- C04 -----------------------------------------------------------------

func c04(t *T) {
	t.rule = "one evaluation = one episode of concurrent compute operations on a map brought into a given internal state: (a) increments by compute-if-present, counted; (b) racing compute-if-absent, agreement; (c) mixed computes with stores and deletes, decided by porcupine; (d) callbacks that panic, alone and concurrently, followed by full use of the map by other goroutines; non-trivial = operations of different goroutines overlapped, or a callback panicked; distinct = distinct history or (state, operation) of the panic"
	for e := 0; e < t.n(1200); e++ {
		c04inc(t, e)
	}
	for e := 0; e < t.n(2000); e++ {
		c04absent(t, e)
	}
	for e := 0; e < t.n(2000); e++ {
		c04lin(t, e)
	}
	for e := 0; e < t.n(1200); e++ {
		c04panic(t, e)
	}
}

func shapeKey(m dict, state int, k string, v interface{}) (present bool) {
	touch := func() { m.Range(func(k, v interface{}) bool { return true }) }
	switch state {
	case 0:
		return false
	case 1:
		m.Store(k, v)
		return true
	case 2:
		m.Store(k, v)
		touch()
		return true
	case 3:
		m.Store(k, v)
		touch()
		m.Delete(k)
		return false
	case 4:
		m.Store(k, v)
		touch()
		m.Delete(k)
		m.Store("expunger", 1)
		return false
	case 5:
		m.Store(k, v)
		m.Delete(k)
		return false
	case 6:
		m.Store(k, v)
		touch()
		m.Store("amender", 1)
		return true
	case 7:
		m.Store("a1", 1)
		m.Store("a2", 1)
		touch()
		m.Store("a3", 1)
		m.Store(k, v)
		return true
	}
	panic("state")
}

func c04inc(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	m, kind := newDict(r)
	t.quiet()
	keys := []string{"x", "y"}[:1+r.Intn(2)]
	for _, k := range keys {
		shapeKey(m, []int{1, 2, 6, 7}[r.Intn(4)], k, 0)
	}
	g := 2 + r.Intn(6)
	per := 3 + r.Intn(12)
	nz := t.noise()
	t.setCase("increments %d: %s noise %s, %d goroutines x %d", e, kind, nz, g, per)
	counts := make([]map[string]int, g)
	type rep struct{ in, out interface{} }
	reps := make([]map[string][]rep, g)
	var fns []func()
	for c := 0; c < g; c++ {
		c, seed := c, r.Int63()
		counts[c] = map[string]int{}
		reps[c] = map[string][]rep{}
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			for i := 0; i < per; i++ {
				k := keys[rr.Intn(len(keys))]
				var in interface{}
				a, ok := m.ComputeIfPresent(k, func(_ string, v interface{}) interface{} {
					in = v
					return v.(int) + 1
				})
				if !ok {
					t.failf("absent", "%s: compute-if-present of a present key reported it absent", kind)
				}
				if a != in.(int)+1 {
					t.failf("wrong-result", "%s: compute-if-present returned %v, its callback made %v from %v", kind, a, in.(int)+1, in)
				}
				counts[c][k]++
				reps[c][k] = append(reps[c][k], rep{in, a})
				switch rr.Intn(6) {
				case 0:
					m.Store(fmt.Sprintf("other%d-%d", c, i), 1)
				case 1:
					m.Range(func(k, v interface{}) bool { return true })
				case 2:
					m.Load("nobody")
				}
			}
		})
	}
	t.par("concurrent increments", fns...)
	t.quiet()
	t.eval()
	t.count("computes", int64(g*per))
	var sig strings.Builder
	for _, k := range keys {
		total := 0
		used := map[interface{}]bool{}
		for c := range counts {
			total += counts[c][k]
			for _, x := range reps[c][k] {
				if used[x.in] {
					t.failf("lost-update", "%s: two successful compute-if-present calls on %q both replaced the value %v", kind, k, x.in)
				}
				used[x.in] = true
				fmt.Fprintf(&sig, "%d%s%v,", c, k, x.in)
			}
		}
		v, ok := m.Load(k)
		if !ok || v != total {
			t.failf("lost-update", "%s: %d increments of %q left it at %v", kind, total, k, v)
		}
	}
	t.seen(sig.String())
	if e == 3 {
		t.sample(map[string]interface{}{"kind": "increments", "map": kind, "goroutines": g, "per_goroutine": per, "order": sig.String()})
	}
}

func c04absent(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	m, kind := newDict(r)
	t.quiet()
	state := []int{0, 3, 4, 5}[r.Intn(4)]
	shapeKey(m, state, "k", -1)
	if r.Intn(2) == 0 {
		m.Store("a9", 1)
	}
	g := 2 + r.Intn(6)
	nz := t.noise()
	t.setCase("absent %d: %s state %d noise %s, %d goroutines", e, kind, state, nz, g)
	type out struct {
		v      interface{}
		loaded bool
		calls  int
		after  interface{}
	}
	outs := make([]out, g)
	var fns []func()
	for c := 0; c < g; c++ {
		c := c
		mode := r.Intn(8)
		fns = append(fns, func() {
			o := &outs[c]
			switch mode {
			case 0:
				m.Store(fmt.Sprintf("other%d", c), 1)
			case 1:
				m.Range(func(k, v interface{}) bool { return true })
			}
			o.v, o.loaded = m.ComputeIfAbsent("k", func(string) interface{} {
				o.calls++
				return 1000*c + o.calls
			})
			o.after, _ = m.Load("k")
		})
	}
	t.par("racing compute-if-absent", fns...)
	t.quiet()
	t.eval()
	installed := 0
	for c, o := range outs {
		if !o.loaded {
			installed++
			if o.calls == 0 {
				t.failf("wrong-result", "%s: an install without a call of the callback", kind)
			}
			if n := o.v.(int); n/1000 != c {
				t.failf("wrong-result", "%s: goroutine %d installed %v, a value of another", kind, c, o.v)
			}
		}
		if o.v != outs[0].v || o.after != outs[0].v {
			t.fail("disagree", fmt.Sprintf("%s: goroutines computing one absent key got different values", kind), fmt.Sprintf("%+v", outs))
		}
	}
	if installed != 1 {
		t.fail("installs", fmt.Sprintf("%s: %d goroutines say they installed the absent key", kind, installed), fmt.Sprintf("%+v", outs))
	}
	if v, ok := m.Load("k"); !ok || v != outs[0].v {
		t.failf("disagree", "%s: the key holds %v but everyone got %v", kind, v, outs[0].v)
	}
	t.count("computes", int64(g))
	t.seen(fmt.Sprint(kind, state, outs))
}

func c04lin(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	m, kind := newDict(r)
	t.quiet()
	keys := []string{"k"}
	clients := 2 + r.Intn(4)
	h := newHist(clients + 1)
	prelude(m, h, r, clients, keys, &valgen{client: clients})
	ops := [][]string{{"cia", "cip"}, {"cip", "cip", "store"}, {"cip", "cip", "del", "store"}, {"cia", "lad"}, {"cia", "cip", "del"}, {"cia", "cip", "los", "del", "load"}, {"cip", "clear", "cia"}}[r.Intn(7)]
	nz := t.noise()
	t.setCase("mixed %d: %s noise %s ops %v", e, kind, nz, ops)
	var fns []func()
	for c := 0; c < clients; c++ {
		c, seed := c, r.Int63()
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			vals := &valgen{client: c}
			for i := 0; i < 4; i++ {
				if rr.Intn(5) == 0 {
					m.Store(fmt.Sprintf("churn%d-%d", c, i), i)
				}
				if rr.Intn(8) == 0 {
					m.Range(func(k, v interface{}) bool { return true })
				}
				mapOp(m, h, c, ops[rr.Intn(len(ops))], "k", keys, vals)
			}
		})
	}
	t.par("mixed computes", fns...)
	t.quiet()
	mapOp(m, h, clients, "load", "k", keys, nil)
	all := h.all()
	t.eval()
	t.count("computes", int64(len(all)))
	if overlaps(all) > 0 {
		t.seen(shape(all))
	}
	// no callback is called by an operation that reports the key absent all along
	t.linear(mapModel, all, kind)
}

func c04panic(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	m, kind := newDict(r)
	t.quiet()
	state := r.Intn(8)
	present := shapeKey(m, state, "k", "old")
	if r.Intn(3) == 0 {
		m.Load("nobody")
	}
	// operations that must not call anything
	t.setCase("panic %d: %s state %d", e, kind, state)
	want := lval{nil, false}
	if present {
		want = lval{"old", true}
	}
	before := map[string]interface{}{}
	m.Range(func(k, v interface{}) bool { before[k.(string)] = v; return true })
	// rangeless shape again, since Range promotes
	m2, _ := m, 0
	if r.Intn(2) == 0 {
		if sm, ok := m.(shardMap); ok {
			_ = sm
			m2 = shardMap{xsync.NewSharedMap(xsync.WithShardBlockSize(4))}
		} else {
			m2 = plainMap{&xsync.Map{}}
		}
		present = shapeKey(m2, state, "k", "old")
		m = m2
		before = nil
	}
	if present {
		if a, l := m.ComputeIfAbsent("k", func(string) interface{} {
			t.failf("called", "%s state %d: compute-if-absent called its callback for a present key", kind, state)
			return nil
		}); !l || a != "old" {
			t.failf("wrong-result", "%s state %d: compute-if-absent of a present key returned %v,%v", kind, state, a, l)
		}
	} else {
		if a, ok := m.ComputeIfPresent("k", func(string, interface{}) interface{} {
			t.failf("called", "%s state %d: compute-if-present called its callback for an absent key", kind, state)
			return nil
		}); ok || a != nil {
			t.failf("wrong-result", "%s state %d: compute-if-present of an absent key returned %v,%v", kind, state, a, ok)
		}
		if _, ok := m.Load("k"); ok {
			t.failf("stored", "%s state %d: compute-if-present stored an absent key", kind, state)
		}
	}
	type boom struct{ n int }
	concurrent := r.Intn(2) == 0
	nz := "none"
	var once sync.Once
	var panicked int32
	bomb := func() {
		p, ok := try(func() {
			if present {
				m.ComputeIfPresent("k", func(_ string, v interface{}) interface{} {
					if v != "old" {
						t.failf("wrong-value", "%s state %d: callback got %v", kind, state, v)
					}
					panic(boom{e})
				})
			} else {
				m.ComputeIfAbsent("k", func(string) interface{} { panic(boom{e}) })
			}
		})
		if !ok || p != (boom{e}) {
			t.failf("swallowed", "%s state %d: the callback's panic did not reach the caller (%v,%v)", kind, state, p, ok)
		}
		atomic.AddInt32(&panicked, 1)
		once.Do(func() {})
	}
	if concurrent {
		nz = t.noise()
		t.par("panicking callbacks among other users", bomb, bomb,
			func() { m.Store("other", 1); m.Load("k"); m.Range(func(k, v interface{}) bool { return true }) },
			func() { m.Load("nobody"); m.Store("other2", 1); m.Delete("other2") })
		t.quiet()
	} else {
		t.do("panicking callback", bomb)
	}
	// every goroutine can use the map, and the key is as it was
	t.do("use of the map after a panicking callback", func() {
		if v, ok := m.Load("k"); (lval{v, ok}) != want {
			t.failf("changed", "%s state %d: after a panicking callback the key is %v, was %v", kind, state, lval{v, ok}, want)
		}
		m.Store("fresh1", 1)
		m.Store("fresh2", 2)
		if v, ok := m.Load("fresh1"); !ok || v != 1 {
			t.failf("broken", "%s state %d: a store after a panicking callback is lost", kind, state)
		}
		got := map[string]interface{}{}
		m.Range(func(k, v interface{}) bool { got[k.(string)] = v; return true })
		if v, ok := got["k"]; (lval{v, ok}) != want {
			t.failf("changed", "%s state %d: iteration after a panicking callback shows %v, was %v", kind, state, lval{v, ok}, want)
		}
		for k, v := range before {
			if got[k] != v {
				t.failf("changed", "%s state %d: key %q changed from %v to %v", kind, state, k, v, got[k])
			}
		}
		if present {
			if a, ok := m.ComputeIfPresent("k", func(_ string, v interface{}) interface{} { return v.(string) + "!" }); !ok || a != "old!" {
				t.failf("broken", "%s state %d: compute-if-present after a panic: %v,%v", kind, state, a, ok)
			}
		} else {
			if a, l := m.ComputeIfAbsent("k", func(string) interface{} { return "new" }); l || a != "new" {
				t.failf("broken", "%s state %d: compute-if-absent after a panic: %v,%v", kind, state, a, l)
			}
			if v, _ := m.Load("k"); v != "new" {
				t.failf("broken", "%s state %d: value computed after a panic is lost", kind, state)
			}
		}
		m.Clear()
		m.Store("k", 5)
		if v, _ := m.Load("k"); v != 5 {
			t.failf("broken", "%s state %d: map unusable after a panic", kind, state)
		}
	})
	t.eval()
	t.count("panics", int64(panicked))
	t.seen(fmt.Sprint(kind, state, concurrent, nz))
	if e == 1 {
		t.sample(map[string]interface{}{"kind": "panic", "map": kind, "state": state, "concurrent": concurrent})
	}
}

func sortedKeys(m map[string]int) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

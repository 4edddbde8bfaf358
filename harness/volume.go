package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/xerror"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/xstring"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
)

// Large episodes: sizes at which narrow counters wrap, caches spill and
// thresholds are crossed. One or a few of them end every check.
var volumes = map[string]func(t *T, r *rand.Rand){
	"C01": volC01, "C02": volC02, "C03": volC03, "C04": volC04, "C05": volC05, "C06": volC06, "C07": volC07, "C08": volC08,
	"C09": volC09, "C10": volC10, "C11": volC11, "C12": volC12, "C13": volC13, "C14": volC14, "C15": volC15, "C16": volC16,
	"C17": volC17, "C18": volC18, "C19": volC19, "C20": volC20, "C21": volC21, "C22": volC22, "C23": volC23, "C24": volC24,
	"C25": volC25, "C27": volC27, "C28": volC28, "C29": volC29,
}

// midProps are the properties whose large episodes also come in middling sizes.
var midProps = map[string]bool{
	"C01": true, "C02": true, "C03": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true, "C11": true, "C12": true, "C13": true, "C14": true,
	"C18": true, "C19": true, "C20": true, "C21": true, "C22": true, "C23": true, "C24": true, "C25": true, "C27": true, "C28": true, "C29": true,
}

// volume runs the large episodes of a property.
func (t *T) volume() {
	f := volumes[t.prop]
	if f == nil {
		return
	}
	n := 1
	if t.tier == "thorough" {
		n = 10
	}
	runtime.GOMAXPROCS(runtime.NumCPU())
	t.procs = runtime.NumCPU()
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		t.quiet()
		t.setCase("large episode %d", i)
		f(t, r)
		t.eval()
		t.count("large_episodes", 1)
		t.seen(fmt.Sprintf("large %s %d %d", t.prop, t.seed, i))
	}
	if !midProps[t.prop] {
		return
	}
	middling = true
	start := time.Now()
	limit := time.Duration(8*n) * time.Second
	for i := 0; i < 100*n && (i < 3 || time.Since(start) < limit); i++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		t.quiet()
		t.setCase("middling episode %d", i)
		f(t, r)
		t.eval()
		t.count("middling_episodes", 1)
		t.seen(fmt.Sprintf("middling %s %d %d", t.prop, t.seed, i))
	}
	middling = false
}

// middling makes the episodes below one of the sizes between those of the main
// workloads and the largest ones.
var middling bool

// middle returns a size of any order of magnitude up to n.
func middle(r *rand.Rand, n int) int {
	return int(16 * math.Exp(r.Float64()*math.Log(float64(n)/16)))
}

// beyond returns a size over one of the usual limits.
func beyond(r *rand.Rand) int {
	if middling {
		return middle(r, 8000)
	}
	return 65536 + r.Intn(6000)
}

// about returns a size from n up to n+n/4.
func about(r *rand.Rand, n int) int {
	if middling {
		return middle(r, n)
	}
	return n + r.Intn(n/4+1)
}

// oneOf returns one of the sizes.
func oneOf(r *rand.Rand, l ...int) int {
	if middling {
		return middle(r, 700)
	}
	return l[r.Intn(len(l))]
}

// wide returns a number of goroutines up to n; the race detector allows 8128 in
// all, and each may stand for a few.
func wide(r *rand.Rand, n int) int {
	if middling {
		return middle(r, 700)
	}
	return n - r.Intn(100)
}

func volDict(r *rand.Rand) (dict, string) {
	if r.Intn(2) == 0 {
		return plainMap{&xsync.Map{}}, "map"
	}
	n := []int{1, 2, 16, 64, 1000}[r.Intn(5)]
	return shardMap{xsync.NewSharedMap(xsync.WithShardBlockSize(n))}, fmt.Sprintf("shared(%d)", n)
}

// ---- maps ----------------------------------------------------------------

// dictStep performs one random operation on key k and compares it with ref.
func dictStep(t *T, d dict, ref map[string]interface{}, k string, v interface{}, op int) {
	old, had := ref[k]
	bad := func(what string, got ...interface{}) {
		t.failf("large", "%s of key %q (present %v, value %v) gave %v", what, k, had, old, got)
	}
	switch op {
	case 0, 1:
		d.Store(k, v)
		ref[k] = v
	case 2, 3:
		if x, ok := d.Load(k); ok != had || x != old {
			bad("Load", x, ok)
		}
	case 4:
		x, hasActual, loaded := d.LoadOrStore(k, v)
		if loaded != had || (hasActual && had && x != old) || (hasActual && !had && x != v) {
			bad("LoadOrStore", x, loaded)
		}
		if !had {
			ref[k] = v
		}
	case 5:
		if x, ok := d.Load(k); ok != had || x != old {
			bad("Load", x, ok)
		}
		d.Delete(k)
		delete(ref, k)
	case 6:
		d.Delete(k)
		delete(ref, k)
		if x, ok := d.Load(k); ok || x != nil {
			bad("Load after Delete", x, ok)
		}
	case 7:
		calls := 0
		x, loaded := d.ComputeIfAbsent(k, func(string) interface{} { calls++; return v })
		if had && (!loaded || x != old || calls != 0) || !had && (x != v || calls < 1) {
			bad("ComputeIfAbsent", x, loaded, calls)
		}
		if !had {
			ref[k] = v
		}
	case 8:
		calls := 0
		var given interface{}
		x, exist := d.ComputeIfPresent(k, func(_ string, o interface{}) interface{} { calls++; given = o; return v })
		if had && (!exist || calls < 1 || given != old || x != v) || !had && (exist || calls != 0) {
			bad("ComputeIfPresent", x, exist, calls, given)
		}
		if had {
			ref[k] = v
		}
	case 9:
		if d.Has(k) != had {
			bad("Has", !had)
		}
	}
}

// dictEqual compares the whole contents.
func dictEqual(t *T, d dict, ref map[string]interface{}, what string) {
	n := 0
	seen := make(map[string]bool, len(ref))
	d.Range(func(k, v interface{}) bool {
		n++
		x, ok := ref[k.(string)]
		if !ok || x != v || seen[k.(string)] {
			t.failf("large", "%s: iteration reports %q=%v, expected %v (%v), reported before %v", what, k, v, x, ok, seen[k.(string)])
		}
		seen[k.(string)] = true
		return true
	})
	if n != len(ref) {
		t.failf("large", "%s: iteration reports %d of %d keys", what, n, len(ref))
	}
	for k, v := range ref {
		if x, ok := d.Load(k); !ok || x != v {
			t.failf("large", "%s: key %q is %v,%v instead of %v", what, k, x, ok, v)
		}
	}
}

func volC01(t *T, r *rand.Rand) {
	d, kind := volDict(r)
	const G = 8
	K, per := about(r, 300), about(r, 3500)
	refs := make([]map[string]interface{}, G)
	for g := range refs {
		refs[g] = map[string]interface{}{}
	}
	for round := 0; round < 3; round++ {
		t.setCase("large: %s, %d goroutines, each with %d keys of its own, round %d", kind, G, K, round)
		var fns []func()
		var left int32 = G
		for g := 0; g < G; g++ {
			g, rr := g, rand.New(rand.NewSource(r.Int63()))
			fns = append(fns, func() {
				defer atomic.AddInt32(&left, -1)
				for i := 0; i < per; i++ {
					k := fmt.Sprintf("g%d/%d", g, rr.Intn(K))
					dictStep(t, d, refs[g], k, g<<24+round<<16+i, rr.Intn(10))
				}
			})
		}
		fns = append(fns, func() {
			for n := 0; atomic.LoadInt32(&left) > 0; n++ {
				if n%3 == 0 {
					d.Range(func(k, v interface{}) bool { return true })
				}
				d.Store("common", n)
				if x, ok := d.Load("common"); !ok || x != n {
					t.failf("large", "common key: stored %d, got %v,%v", n, x, ok)
				}
				d.Load("missing")
			}
			d.Delete("common")
		})
		t.par("operations on own keys", fns...)
		all := map[string]interface{}{}
		for _, ref := range refs {
			for k, v := range ref {
				all[k] = v
			}
		}
		dictEqual(t, d, all, "after the goroutines ended")
		if r.Intn(2) == 0 {
			d.Clear()
			for g := range refs {
				refs[g] = map[string]interface{}{}
			}
			dictEqual(t, d, refs[0], "after a clear")
		}
	}
	t.count("large_operations", int64(3*G*per))
}

func volC02(t *T, r *rand.Rand) {
	d, kind := volDict(r)
	n := about(r, 3000)
	t.setCase("large: iteration of %s with %d keys", kind, n)
	ref := map[string]interface{}{}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("s%d", i)
		d.Store(k, i)
		ref[k] = i
	}
	dictEqual(t, d, ref, "quiet")
	for _, stop := range []int{1, 2, 255, 256, 257, 1000, n - 1, n, n + 1} {
		calls := 0
		d.Range(func(k, v interface{}) bool {
			calls++
			return calls != stop
		})
		if calls != min(stop, n) {
			t.failf("large", "iteration of %d keys stopped after %d callbacks made %d", n, stop, calls)
		}
	}
	// keys are added between iterations, none of them ever looked up: few and
	// many beside thousands that earlier iterations have reported
	fresh, freshKind := volDict(r)
	if r.Intn(2) == 0 {
		fresh, freshKind = plainMap{&xsync.Map{}}, "map"
	}
	t.setCase("large: %s iterated, added to and iterated again", freshKind)
	had := map[string]interface{}{}
	for _, more := range []int{about(r, 6000), 1, 2, 5 + r.Intn(200), 1, 3 + r.Intn(3000)} {
		for i := 0; i < more; i++ {
			k := fmt.Sprintf("f%d", len(had))
			fresh.Store(k, i)
			had[k] = i
		}
		got := make(map[string]interface{}, len(had))
		fresh.Range(func(k, v interface{}) bool { got[k.(string)] = v; return true })
		if len(got) != len(had) {
			t.failf("large", "%s: iteration reports %d of %d keys, %d of them added since the last one", freshKind, len(got), len(had), more)
		}
	}
	dictEqual(t, fresh, had, "added between iterations")
	// stable keys, while others come and go
	var left int32 = 4
	var fns []func()
	for g := 0; g < 4; g++ {
		fns = append(fns, func() {
			defer atomic.AddInt32(&left, -1)
			for i := 0; i < 6; i++ {
				seen := make(map[string]bool, n)
				stable := 0
				d.Range(func(k, v interface{}) bool {
					s := k.(string)
					if seen[s] {
						t.failf("large", "key %q reported twice by one iteration", s)
					}
					seen[s] = true
					if s[0] == 's' {
						stable++
						if v != ref[s] {
							t.failf("large", "key %q reported with %v instead of %v", s, v, ref[s])
						}
					}
					return true
				})
				if stable != n {
					t.failf("large", "iteration reports %d of %d keys that were there throughout", stable, n)
				}
			}
		})
	}
	for g := 0; g < 2; g++ {
		g := g
		fns = append(fns, func() {
			for i := 0; atomic.LoadInt32(&left) > 0; i++ {
				k := fmt.Sprintf("u%d/%d", g, i%1500)
				d.Store(k, i)
				d.Load(fmt.Sprintf("u%d/%d", 1-g, i%1500))
				d.Delete(fmt.Sprintf("u%d/%d", g, (i+700)%1500))
			}
		})
	}
	t.par("iterations", fns...)
	// nested, with removal of everything on the way
	half := min(300, n/2)
	outer, inner := 0, 0
	d.Range(func(k, v interface{}) bool {
		outer++
		if outer == half {
			d.Range(func(k2, v2 interface{}) bool {
				inner++
				d.Delete(k2.(string))
				return true
			})
		}
		return outer < half
	})
	left2 := 0
	d.Range(func(k, v interface{}) bool { left2++; return true })
	if outer != half || inner < n || left2 != 0 {
		t.failf("large", "nested iteration: %d outer, %d inner callbacks for %d keys, %d keys left", outer, inner, n, left2)
	}
}

func volC03(t *T, r *rand.Rand) {
	for round := 0; round < 2; round++ {
		d, kind := volDict(r)
		K := []int{about(r, 300), about(r, 3000)}[round]
		steps := about(r, 20000)
		if round == 1 && r.Intn(3) == 0 {
			d, kind = shardMap{xsync.NewSharedMap(xsync.WithShardBlockSize(beyond(r)))}, "shared(beyond 65536)"
		}
		t.setCase("large: %s with %d keys, sequential", kind, K)
		ref := map[string]interface{}{}
		pool := nearKeys(r)
		key := func() string {
			if r.Intn(50) == 0 {
				return pool[r.Intn(len(pool))]
			}
			return fmt.Sprint("k", r.Intn(K))
		}
		for i := 0; i < steps; i++ {
			switch x := r.Intn(min(4000, steps)); {
			case x == 0:
				d.Clear()
				ref = map[string]interface{}{}
			case x < 3: // a bulk store
				m := map[string]interface{}{}
				for j := r.Intn(K); j >= 0; j-- {
					m[key()] = i<<12 + j
				}
				d.MStore(m)
				for k, v := range m {
					ref[k] = v
				}
			case x < 6: // mass removal
				f := r.Intn(3)
				for k := range ref {
					if (len(k)+i)%3 != f {
						d.Delete(k)
						delete(ref, k)
					}
				}
			case x < 12:
				dictEqual(t, d, ref, "midway")
			default:
				dictStep(t, d, ref, key(), i, r.Intn(10))
			}
		}
		dictEqual(t, d, ref, "in the end")
	}
	t.count("large_operations", 40000)
}

func volC04(t *T, r *rand.Rand) {
	d, kind := volDict(r)
	const G = 8
	per := about(r, 4000)
	t.setCase("large: %d increments by %d goroutines on %s", G*per, G, kind)
	d.Store("n", 0)
	var fns []func()
	for g := 0; g < G; g++ {
		fns = append(fns, func() {
			for i := 0; i < per; i++ {
				if _, ok := d.ComputeIfPresent("n", func(_ string, v interface{}) interface{} { return v.(int) + 1 }); !ok {
					t.failf("large", "a compute-if-present found a present key absent")
				}
			}
		})
	}
	t.par("increments", fns...)
	if v, _ := d.Load("n"); v != G*per {
		t.failf("large", "%d increments left %v", G*per, v)
	}
	K := about(r, 2000)
	won := make([]int32, K)
	got := make([][]interface{}, G)
	fns = nil
	for g := 0; g < G; g++ {
		g := g
		got[g] = make([]interface{}, K)
		fns = append(fns, func() {
			for k := 0; k < K; k++ {
				mine := g*K + k
				v, _ := d.ComputeIfAbsent(fmt.Sprint("a", k), func(string) interface{} { return mine })
				if v == mine {
					atomic.AddInt32(&won[k], 1)
				}
				got[g][k] = v
			}
		})
	}
	t.par("computations of absent keys", fns...)
	for k := 0; k < K; k++ {
		v, _ := d.Load(fmt.Sprint("a", k))
		if won[k] != 1 {
			t.failf("large", "key a%d: %d goroutines installed their value", k, won[k])
		}
		for g := 0; g < G; g++ {
			if got[g][k] != v {
				t.failf("large", "key a%d: goroutine %d got %v, the map holds %v", k, g, got[g][k], v)
			}
		}
	}
	// many panics in a row
	for i := 0; i < about(r, 1500); i++ {
		k := fmt.Sprint("a", i%K)
		before, _ := d.Load(k)
		if i%2 == 0 {
			k = fmt.Sprint("b", i)
			before = nil
			if _, panicked := try(func() { d.ComputeIfAbsent(k, func(string) interface{} { panic("volume") }) }); !panicked {
				t.failf("large", "the panic of a computation was swallowed")
			}
		} else if _, panicked := try(func() {
			d.ComputeIfPresent(k, func(string, interface{}) interface{} { panic("volume") })
		}); !panicked {
			t.failf("large", "the panic of a computation was swallowed")
		}
		if v, ok := d.Load(k); v != before || ok != (i%2 == 1) {
			t.failf("large", "key %s after panic %d: %v,%v", k, i, v, ok)
		}
	}
	t.do("use after many panics", func() { d.Store("end", 1); d.ComputeIfAbsent("end2", func(string) interface{} { return 2 }) })
}

// ---- sync ----------------------------------------------------------------

func volC05(t *T, r *rand.Rand) {
	var l xsync.Spinlock
	n := 0
	G, per := 8, about(r, 9000)
	if middling {
		G = 2 + r.Intn(30)
	}
	t.setCase("large: %d acquisitions", G*per)
	var fns []func()
	var tries int64
	for g := 0; g < G; g++ {
		g := g
		fns = append(fns, func() {
			for i := 0; i < per; i++ {
				if (g+i)%3 == 0 {
					for !l.TryLock() {
						atomic.AddInt64(&tries, 1)
						runtime.Gosched()
					}
				} else {
					l.Lock()
				}
				n++
				l.Unlock()
			}
		})
	}
	t.par("acquisitions", fns...)
	if n != G*per {
		t.failf("large", "%d acquisitions counted %d", G*per, n)
	}
	// many failed tries leave no trace
	l.Lock()
	for i := 0; i < beyond(r); i++ {
		if l.TryLock() {
			t.failf("large", "try-lock number %d succeeded on a held lock", i)
		}
	}
	l.Unlock()
	if !l.TryLock() {
		t.failf("large", "try-lock fails on a free lock after many failures")
	}
	// a crowd
	crowd := about(r, 600)
	in, order := 0, 0
	fns = nil
	for g := 0; g < crowd; g++ {
		fns = append(fns, func() {
			l.Lock()
			in++
			if in != 1 {
				t.failf("large", "%d holders", in)
			}
			order++
			in--
			l.Unlock()
		})
	}
	gate := t.spawn("crowd", func() { t.par("crowd", fns...) })
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	l.Unlock()
	t.await(gate, "crowd of waiting goroutines")
	if order != crowd {
		t.failf("large", "%d of %d got in", order, crowd)
	}
	for i := 0; i < beyond(r); i++ {
		l.Lock()
		if l.TryLock() {
			t.failf("large", "try-lock succeeded on a held lock, round %d", i)
		}
		l.Unlock()
	}
	t.count("large_try_failures", tries)
}

func volC06(t *T, r *rand.Rand) {
	m := xsync.NewResourceManager()
	K := about(r, 1300)
	t.setCase("large: %d keys", K)
	creations := make([]int32, K)
	res := make([][]io.Closer, 6)
	var fns []func()
	for g := range res {
		g, off := g, r.Intn(K)
		res[g] = make([]io.Closer, K)
		fns = append(fns, func() {
			for i := 0; i < K; i++ {
				k := (i + off) % K
				x, err := m.Get(fmt.Sprint("key", k), func() (io.Closer, error) {
					atomic.AddInt32(&creations[k], 1)
					return &resource{id: k, key: fmt.Sprint(k)}, nil
				})
				if err != nil {
					t.failf("large", "Get: %v", err)
				}
				res[g][k] = x
			}
		})
	}
	t.par("requests", fns...)
	for k := 0; k < K; k++ {
		if creations[k] != 1 {
			t.failf("large", "key %d of %d was created %d times", k, K, creations[k])
		}
		for g := range res {
			if res[g][k] != res[0][k] || res[g][k].(*resource).id != k {
				t.failf("large", "requests for key %d of %d received different resources", k, K)
			}
		}
	}
	// remove a random half; requests then create anew for those only
	gone := map[int]bool{}
	for _, k := range r.Perm(K)[:K/2] {
		gone[k] = true
		if !m.Remove(fmt.Sprint("key", k)) {
			t.failf("large", "Remove of present key %d reports absence", k)
		}
	}
	for k := 0; k < K; k++ {
		made := false
		x, err := m.Get(fmt.Sprint("key", k), func() (io.Closer, error) {
			made = true
			return &resource{id: k}, nil
		})
		if err != nil || made != gone[k] || (x == res[0][k]) == gone[k] {
			t.failf("large", "key %d (removed %v): created %v, same resource %v, error %v", k, gone[k], made, x == res[0][k], err)
		}
	}
	// one key over and over
	for i := 0; i < about(r, 3000); i++ {
		fail := i%2 == 0
		made := 0
		x, err := m.Get("again", func() (io.Closer, error) {
			made++
			if fail {
				return nil, fmt.Errorf("no %d", i)
			}
			return &resource{id: i}, nil
		})
		if made != 1 || fail != (err != nil) || fail && err.Error() != fmt.Sprintf("no %d", i) || !fail && x.(*resource).id != i {
			t.failf("large", "round %d: created %d times, got %v,%v", i, made, x, err)
		}
		if !fail {
			m.Remove("again")
		}
	}
	// many creations in progress together: no key waits for another
	width := oneOf(r, 300, 600, 1000)
	open := make(chan struct{})
	var inside int32
	var wait []<-chan struct{}
	for g := 0; g < width; g++ {
		g := g
		wait = append(wait, t.spawn("one of many keys", func() {
			x, err := m.Get(fmt.Sprint("wide", g), func() (io.Closer, error) {
				atomic.AddInt32(&inside, 1)
				<-open
				return &resource{id: g}, nil
			})
			if err != nil || x.(*resource).id != g {
				t.failf("large", "one of %d keys: %v,%v", width, x, err)
			}
		}))
	}
	t.quiesce("many creations together")
	if k := int(atomic.LoadInt32(&inside)); k != width {
		t.failf("large", "%d of %d keys are being created, the others wait", k, width)
	}
	close(open)
	for _, c := range wait {
		t.await(c, "many creations together")
	}
	// a crowd on one key
	crowd := about(r, 500)
	var made int32
	gate := make(chan struct{})
	got := make([]io.Closer, crowd)
	fns = nil
	for g := 0; g < crowd; g++ {
		g := g
		fns = append(fns, func() {
			x, err := m.Get("crowd", func() (io.Closer, error) {
				atomic.AddInt32(&made, 1)
				<-gate
				return &resource{id: -1}, nil
			})
			if err != nil {
				t.failf("large", "crowd: %v", err)
			}
			got[g] = x
		})
	}
	done := t.spawn("crowd", func() { t.par("crowd", fns...) })
	for atomic.LoadInt32(&made) == 0 {
		runtime.Gosched()
	}
	close(gate)
	t.await(done, "crowd on one key")
	for g := range got {
		if made != 1 || got[g] != got[0] {
			t.failf("large", "a crowd on one key: %d creations, equal %v", made, got[g] == got[0])
		}
	}
}

func volC07(t *T, r *rand.Rand) {
	m := xsync.NewResourceManager()
	K := about(r, 1300)
	t.setCase("large: closing %d resources", K)
	var all []*resource
	removed := map[*resource]bool{}
	want := map[string]int{}
	for k := 0; k < K; k++ {
		x := &resource{id: k, key: fmt.Sprint(k)}
		if r.Intn(3) > 0 {
			x.closeErr = fmt.Errorf("close error of %d", k)
		}
		all = append(all, x)
		if _, err := m.Get(x.key, func() (io.Closer, error) { return x, nil }); err != nil {
			t.failf("large", "Get: %v", err)
		}
		if r.Intn(10) == 0 {
			m.Remove(x.key)
			removed[x] = true
		} else if x.closeErr != nil {
			want[x.closeErr.Error()]++
		}
	}
	err := m.Close()
	got := errLines(err)
	for _, x := range all {
		n := int32(1)
		if removed[x] {
			n = 0
		}
		if c := atomic.LoadInt32(&x.closed); c != n {
			t.failf("large", "resource %d of %d (removed %v) was closed %d times", x.id, K, removed[x], c)
		}
	}
	if len(got) != len(want) {
		t.failf("large", "close reported %d errors of %d", len(got), len(want))
	}
	for k, n := range want {
		if got[k] != n {
			t.failf("large", "close reported %q %d times", k, got[k])
		}
	}
	if err := m.Close(); err != nil {
		t.failf("large", "a second close reports %v", err)
	}
}

func volC08(t *T, r *rand.Rand) {
	W := about(r, 700)
	t.setCase("large: %d writers of one cell", W)
	v := xonce.NewValue()
	c := xonce.NewChan()
	var okV, okC int32
	var winV, winC int32
	var fns []func()
	for g := 1; g <= W; g++ {
		g := g
		fns = append(fns, func() {
			if v.Write(g) {
				atomic.AddInt32(&okV, 1)
				atomic.StoreInt32(&winV, int32(g))
			}
			if c.Write(g) {
				atomic.AddInt32(&okC, 1)
				atomic.StoreInt32(&winC, int32(g))
			}
		})
	}
	t.par("writers", fns...)
	if okV != 1 || okC != 1 {
		t.failf("large", "%d writes to the value and %d to the channel succeeded", okV, okC)
	}
	for i := 0; i < beyond(r); i++ {
		if v.Write(-i-1) || c.Write(-i-1) {
			t.failf("large", "write number %d after the first succeeded", i)
		}
	}
	if x := v.Value(); x != int(winV) {
		t.failf("large", "value reads %v, written %d", x, winV)
	}
	n := 0
	for x := range c.Chan() {
		if n++; x != int(winC) || n > 1 {
			t.failf("large", "channel delivered %v, written %d", x, winC)
		}
	}
	if n != 1 {
		t.failf("large", "channel delivered %d values", n)
	}
}

// ---- tasks ---------------------------------------------------------------

func volC09(t *T, r *rand.Rand) {
	for _, capacity := range []int{0, 1, about(r, 1000)} {
		n := about(r, 25000)
		if capacity > 1 {
			n = beyond(r)
		}
		t.setCase("large: %d transfers over a channel of capacity %d", n, capacity)
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan interface{}, capacity)
		w, rd := xbarrier.NewWriteBarrier(ctx, ch), xbarrier.NewReadBarrier(ctx, ch)
		t.par("transfers", func() {
			for i := 0; i < n; i++ {
				if !w.Write(i) {
					t.failf("large", "write %d failed", i)
				}
			}
		}, func() {
			for i := 0; i < n; i++ {
				if v, ok := rd.Read(); !ok || v != i {
					t.failf("large", "read %d gave %v,%v", i, v, ok)
				}
			}
		})
		cancel()
		for i := 0; i < 70000/(1+capacity); i++ {
			if w.Write(i) {
				t.failf("large", "write %d after cancellation succeeded", i)
			}
			if _, ok := rd.Read(); ok {
				t.failf("large", "read %d after cancellation succeeded", i)
			}
		}
		if len(ch) != 0 {
			t.failf("large", "%d values left in the channel", len(ch))
		}
	}
	// a crowd of blocked users
	ctx, cancel := context.WithCancel(context.Background())
	ch := make(chan interface{})
	ch2 := make(chan interface{})
	var fns []func()
	crowd := about(r, 300)
	for g := 0; g < crowd; g++ {
		fns = append(fns, func() {
			if xbarrier.NewWriteBarrier(ctx, ch).Write(1) {
				t.failf("large", "write without a reader succeeded")
			}
		}, func() {
			if _, ok := xbarrier.NewReadBarrier(ctx, ch2).Read(); ok {
				t.failf("large", "read without a writer succeeded")
			}
		})
	}
	done := t.spawn("blocked users", func() { t.par("blocked users of barriers", fns...) })
	for i := 0; i < 50; i++ {
		runtime.Gosched()
	}
	cancel()
	t.await(done, "blocked users of barriers after the cancellation")
}

func volC10(t *T, r *rand.Rand) {
	G := about(r, 100) * 5
	t.setCase("large: %d concurrent controlled calls", G)
	ctx, cancel := context.WithCancel(context.Background())
	gate := make(chan struct{})
	var fns []func()
	var in, abandoned int32
	runs, cleans := make([]int32, G), make([]int32, G)
	for g := 0; g < G; g++ {
		g := g
		want := fmt.Errorf("error of %d", g)
		fns = append(fns, func() {
			c := ctx
			if g%5 > 0 {
				c = context.Background()
			}
			err := xtask.Do(c, func() error {
				atomic.AddInt32(&runs[g], 1)
				atomic.AddInt32(&in, 1)
				<-gate
				return want
			}, func() { atomic.AddInt32(&cleans[g], 1) })
			switch {
			case g%5 > 0 && err != want, g%5 == 0 && err != context.Canceled:
				t.failf("large", "call %d returned %v", g, err)
			}
			if g%5 == 0 && atomic.AddInt32(&abandoned, 1) == int32(G/5) {
				close(gate)
			}
			if n := atomic.LoadInt32(&cleans[g]); n != 1 {
				t.failf("large", "call %d: %d cleanups at its return", g, n)
			}
		})
	}
	done := t.spawn("calls", func() { t.par("calls", fns...) })
	for atomic.LoadInt32(&in) < int32(G) {
		if isDone(done) {
			break
		}
		runtime.Gosched()
	}
	cancel()
	t.await(done, "concurrent controlled calls")
	for g := range runs {
		if runs[g] != 1 || cleans[g] != 1 {
			t.failf("large", "call %d: %d runs, %d cleanups", g, runs[g], cleans[g])
		}
	}
	n, c := 0, 0
	for i := 0; i < about(r, 12000); i++ {
		var want error
		if i%3 == 0 {
			want = errors.New("mine")
		}
		if err := xtask.Do(context.Background(), func() error { n++; return want }, func() { c++ }); err != want || n != i+1 || c != i+1 {
			t.failf("large", "call %d of a series returned %v, %d runs, %d cleanups", i, err, n, c)
		}
	}
	t.leak("controlled calls")
}

func volC11(t *T, r *rand.Rand) {
	for _, budget := range []int{255, 256, about(r, 300), 1024, about(r, 5000), beyond(r)} {
		for _, success := range []int{-1, 0, budget / 2, budget} {
			t.setCase("large: retry budget %d, success at %d", budget, success)
			calls := 0
			err := xtask.DoWithRetry(func() error {
				calls++
				if calls-1 == success {
					return nil
				}
				return errors.New("e")
			}, xtask.WithRetry(budget))
			want := budget + 1
			if success >= 0 {
				want = success + 1
			}
			if calls != want || (err == nil) != (success >= 0) {
				t.failf("large", "budget %d, success at %d: %d calls instead of %d, error %v", budget, success, calls, want, err != nil)
			}
			if err != nil {
				if s := err.Error(); len(s) != 2*want-1 || strings.Count(s, "e") != want || strings.Count(s, "\n") != want-1 {
					t.failf("large", "budget %d: %d attempts reported by a text of %d bytes", budget, want, len(s))
				}
			}
		}
	}
	many := make([]xtask.RetryOption, about(r, 300))
	for i := range many {
		many[i] = xtask.WithRetry(i % 7)
	}
	calls := 0
	_ = xtask.DoWithRetry(func() error { calls++; return errors.New("e") }, many...)
	if want := (len(many)-1)%7 + 1; calls != want {
		t.failf("large", "%d options: %d calls instead of %d", len(many), calls, want)
	}
}

func volC12(t *T, r *rand.Rand) {
	size := wide(r, 2200)
	extra := about(r, 100)
	t.setCase("large: a limiter of size %d", size)
	w := xworker.NewWorker(size)
	var in, most, cleaned, ran int32
	for round := 0; round < 2; round++ {
		gate := make(chan struct{})
		var submitted int32
		done := t.spawn("submissions", func() {
			for i := 0; i < size+extra; i++ {
				w.Run(context.Background(), func() {
					n := atomic.AddInt32(&in, 1)
					for {
						m := atomic.LoadInt32(&most)
						if n <= m || atomic.CompareAndSwapInt32(&most, m, n) {
							break
						}
					}
					atomic.AddInt32(&ran, 1)
					<-gate
				}, func() {
					atomic.AddInt32(&in, -1)
					atomic.AddInt32(&cleaned, 1)
				})
				atomic.AddInt32(&submitted, 1)
			}
		})
		t.quiesce("a full limiter")
		if s, n := atomic.LoadInt32(&submitted), atomic.LoadInt32(&in); int(s) != size || int(n) != size {
			t.failf("large", "limiter of size %d, round %d: %d submissions accepted, %d tasks in progress", size, round, s, n)
		}
		close(gate)
		t.await(done, "submissions once slots are free")
		t.quiesce("the tasks of a limiter")
		if a, b, c := atomic.LoadInt32(&ran), atomic.LoadInt32(&cleaned), atomic.LoadInt32(&in); int(a) != (round+1)*(size+extra) || a != b || c != 0 {
			t.failf("large", "limiter of size %d: %d runs, %d cleanups of %d tasks, %d in progress", size, a, b, (round+1)*(size+extra), c)
		}
	}
	if most := atomic.LoadInt32(&most); int(most) > size {
		t.failf("large", "limiter of size %d: %d tasks in progress together", size, most)
	}
	// a long series over few slots
	few := 1 + r.Intn(3)
	if middling {
		few = middle(r, 100)
	}
	w = xworker.NewWorker(few)
	dead, cancel := context.WithCancel(context.Background())
	cancel()
	var wg sync.WaitGroup
	var runs, cleans, cur int32
	n := about(r, 2000) * 4
	t.do("a long series of tasks", func() {
		for i := 0; i < n; i++ {
			wg.Add(1)
			ctx := context.Background()
			if i%4 == 3 {
				ctx = dead
			}
			w.Run(ctx, func() {
				if k := atomic.AddInt32(&cur, 1); int(k) > few {
					t.failf("large", "limiter of size %d: %d tasks together", few, k)
				}
				atomic.AddInt32(&runs, 1)
				atomic.AddInt32(&cur, -1)
			}, func() {
				atomic.AddInt32(&cleans, 1)
				wg.Done()
			})
		}
		wg.Wait()
	})
	if runs, cleans := atomic.LoadInt32(&runs), atomic.LoadInt32(&cleans); int(runs) != n/4*3 || int(cleans) != n {
		t.failf("large", "%d tasks, a quarter of them dead: %d runs, %d cleanups", n, runs, cleans)
	}
	t.leak("limiter")
}

// ---- mapping -------------------------------------------------------------

func volC13(t *T, r *rand.Rand) {
	for form := 0; form < 2; form++ {
		workers := oneOf(r, 1, 1, 8, 300)
		if middling && r.Intn(3) == 0 {
			workers = 1
		}
		n := about(r, 30000)
		if form == r.Intn(2) {
			n = beyond(r)
		}
		t.setCase("large: form %d, %d items, %d workers", form, n, workers)
		ran := make([]int32, n)
		got := make([]int32, n)
		last, ordered := -1, true
		t.do("a large mapping", func() {
			startMap(form, context.Background(), func(s chan<- interface{}) {
				for i := 0; i < n; i++ {
					s <- i
				}
			}, func(v interface{}, w xbarrier.Writer) {
				atomic.AddInt32(&ran[v.(int)], 1)
				if !w.Write(v) {
					t.failf("large", "write of item %v failed", v)
				}
			}, xmapreduce.WithWorkerSize(workers))(func(v interface{}) bool {
				got[v.(int)]++
				ordered = ordered && v.(int) > last
				last = v.(int)
				return true
			})
		})
		for i := range ran {
			if ran[i] != 1 || got[i] != 1 {
				t.failf("large", "item %d of %d: mapped %d times, delivered %d times", i, n, ran[i], got[i])
			}
		}
		if workers == 1 && !ordered {
			t.failf("large", "one worker did not keep the order of %d items", n)
		}
	}
	// many outputs of few items, nobody reads at first
	per := about(r, 6000)
	seen := make([]int, 4)
	t.do("a mapping with many outputs per item", func() {
		for v := range xmapreduce.Map(context.Background(), func(s chan<- interface{}) {
			for i := 0; i < 4; i++ {
				s <- i
			}
		}, func(v interface{}, w xbarrier.Writer) {
			for j := 0; j < per; j++ {
				if !w.Write([2]int{v.(int), j}) {
					t.failf("large", "output %d of item %v was refused", j, v)
				}
			}
		}, xmapreduce.WithWorkerSize(3)) {
			x := v.([2]int)
			if x[1] != seen[x[0]] {
				t.failf("large", "outputs of item %d: %d instead of %d", x[0], x[1], seen[x[0]])
			}
			seen[x[0]]++
		}
	})
	for i, n := range seen {
		if n != per {
			t.failf("large", "item %d: %d of %d outputs", i, n, per)
		}
	}
	// that many mappers can run together, and no more
	workers := wide(r, 2200)
	t.setCase("large: %d workers", workers)
	var in, peak int32
	gate := make(chan struct{})
	out := xmapreduce.Map(context.Background(), func(s chan<- interface{}) {
		for i := 0; i < workers+150; i++ {
			s <- i
		}
	}, func(v interface{}, w xbarrier.Writer) {
		k := atomic.AddInt32(&in, 1)
		for {
			m := atomic.LoadInt32(&peak)
			if k <= m || atomic.CompareAndSwapInt32(&peak, m, k) {
				break
			}
		}
		<-gate
		atomic.AddInt32(&in, -1)
	}, xmapreduce.WithWorkerSize(workers))
	t.quiesce("a full mapping")
	if n := atomic.LoadInt32(&in); int(n) != workers {
		t.failf("large", "%d of %d mappers run together", n, workers)
	}
	close(gate)
	t.do("the rest of a full mapping", func() {
		for range out {
		}
	})
	if int(peak) > workers {
		t.failf("large", "%d mappers ran together with %d workers", peak, workers)
	}
	t.leak("mapping")
}

func volC14(t *T, r *rand.Rand) {
	for round := 0; round < 4; round++ {
		workers := oneOf(r, 1, 16, 100, 300)
		stop := []int{0, about(r, 300), about(r, 5000), about(r, 20000)}[round]
		t.setCase("large: cancelled after %d outputs, %d workers", stop, workers)
		ctx, cancel := context.WithCancel(context.Background())
		n := 30000
		ran := make([]int32, n)
		accepted := make([]int32, n)
		got := make([]int32, n)
		genDone := make(chan struct{})
		out := xmapreduce.Map(ctx, func(s chan<- interface{}) {
			for i := 0; i < n; i++ {
				s <- i
			}
			close(genDone)
		}, func(v interface{}, w xbarrier.Writer) {
			atomic.AddInt32(&ran[v.(int)], 1)
			if w.Write(v) {
				atomic.AddInt32(&accepted[v.(int)], 1)
			}
		}, xmapreduce.WithWorkerSize(workers))
		t.do("a cancelled mapping", func() {
			i := 0
			for v := range out {
				got[v.(int)]++
				if i++; i == stop {
					cancel()
				}
				if stop == 0 {
					cancel()
				}
			}
		})
		cancel()
		t.await(genDone, "the generator of a cancelled mapping")
		t.leak("cancelled mapping")
		for i := range ran {
			if a, b := atomic.LoadInt32(&ran[i]), atomic.LoadInt32(&accepted[i]); a > 1 || b != got[i] {
				t.failf("large", "item %d: mapped %d times, accepted %d, delivered %d", i, a, b, got[i])
			}
		}
	}
}

// ---- bytes ---------------------------------------------------------------

func volC15(t *T, r *rand.Rand) {
	h := &bufHolder{t: t, r: r, id: 1}
	t.setCase("large: thousands of buffers held together")
	total := 0
	alloc := func(size, capacity int) {
		b := xbytes.Malloc(size, capacity)
		if len(b) != size || cap(b) < capacity || cap(b) < size {
			t.failf("large", "Malloc(%d,%d) has length %d and capacity %d", size, capacity, len(b), cap(b))
		}
		total += cap(b)
		h.tag(b[:cap(b)], fmt.Sprintf("Malloc(%d,%d)", size, capacity))
	}
	for round := 0; round < 3; round++ {
		for i := 0; i < 1500; i++ {
			n := r.Intn(2000)
			if i%3 == 0 {
				n = 1 << uint(r.Intn(11))
			}
			alloc(r.Intn(n+1), n)
		}
		for _, n := range []int{1 << 16, 1<<16 + 1, 1 << 18, 1<<20 + 3, 1<<22 - 1} {
			alloc(n-1, n)
		}
		for i := 0; i < 1000; i++ {
			x := h.drop(r.Intn(len(h.live)))
			b := x.b
			if r.Intn(4) == 0 {
				b = b[:r.Intn(len(b)+1)]
			}
			xbytes.Free(b)
		}
	}
	h.finish()
	checkLives(t, h.lives)
	// a few big sizes over and over: what one holder frees another gets, once
	big := &bufHolder{t: t, r: r, id: 2}
	for _, n := range []int{1 << 15, 1<<16 + 1, 1 << 18, 1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 19, 1 << 21, 1<<22 + 1} {
		for i := 0; i < 6; i++ {
			for len(big.live) > r.Intn(3) {
				xbytes.Free(big.drop(r.Intn(len(big.live))).b)
			}
			for j := 0; j < 3; j++ {
				size := n - r.Intn(2)*r.Intn(n)
				b := xbytes.Malloc(size, n)
				if len(b) != size || cap(b) < n {
					t.failf("large", "Malloc(%d,%d) has length %d and capacity %d", size, n, len(b), cap(b))
				}
				big.tag(b[:cap(b)], fmt.Sprintf("Malloc(%d,%d)", size, n))
				total += cap(b)
			}
		}
	}
	big.finish()
	checkLives(t, big.lives)
	// every small size, after every small size was freed
	for n := 0; n < 2100; n++ {
		xbytes.Free(make([]byte, n))
		b := xbytes.Malloc(n, 0)
		if len(b) != n {
			t.failf("large", "Malloc(%d,0) has length %d", n, len(b))
		}
		c := xbytes.Malloc(0, n)
		if len(c) != 0 || cap(c) < n {
			t.failf("large", "Malloc(0,%d) has length %d and capacity %d", n, len(c), cap(c))
		}
		xbytes.Free(b)
		xbytes.Free(c)
	}
	t.count("large_bytes", int64(total))
}

func volC16(t *T, r *rand.Rand) {
	t.setCase("large: every 16-bit integer and many byte strings in one stream")
	var buf bytes.Buffer
	for i := 0; i < 1<<16; i++ {
		if err := xbinary.WriteUint16(&buf, uint16(i)); err != nil {
			t.failf("large", "WriteUint16(%d): %v", i, err)
		}
	}
	if buf.Len() != 2<<16 {
		t.failf("large", "65536 16-bit integers take %d bytes", buf.Len())
	}
	for i := 0; i < 1<<16; i++ {
		if x, err := xbinary.ReadUint16(&buf); err != nil || x != uint16(i) {
			t.failf("large", "ReadUint16 gave %d,%v instead of %d", x, err, i)
		}
	}
	for b := uint(0); b < 32; b++ {
		for _, x := range []uint32{1 << b, 1<<b - 1, ^(uint32(1) << b), 0xa5 << b, r.Uint32()} {
			buf.Reset()
			err := xbinary.WriteUint32(&buf, x)
			w := buf.Bytes()
			if err != nil || len(w) != 4 || uint32(w[0])<<24|uint32(w[1])<<16|uint32(w[2])<<8|uint32(w[3]) != x {
				t.failf("large", "WriteUint32(%d) wrote %x, %v", x, w, err)
			}
			if y, err := xbinary.ReadUint32(&buf); err != nil || x != y {
				t.failf("large", "ReadUint32 gave %d,%v instead of %d", y, err, x)
			}
		}
	}
	// byte strings: all decoded ones stay intact
	var lens []int
	for n := 0; n < 600; n++ {
		lens = append(lens, n)
	}
	for _, n := range []int{1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 32769, 65534, 65535} {
		lens = append(lens, n)
	}
	for i := 0; i < 60; i++ {
		lens = append(lens, r.Intn(65536))
	}
	buf.Reset()
	fill := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + n)
		}
		return b
	}
	size := 0
	for _, n := range lens {
		if err := xbinary.WriteBytes(&buf, fill(n)); err != nil {
			t.failf("large", "WriteBytes of %d bytes: %v", n, err)
		}
		size += 2 + n
	}
	if buf.Len() != size {
		t.failf("large", "%d byte strings take %d bytes instead of %d", len(lens), buf.Len(), size)
	}
	var all [][]byte
	for _, n := range lens {
		b, err := xbinary.ReadBytes(&buf)
		if err != nil || !bytes.Equal(b, fill(n)) {
			t.failf("large", "ReadBytes of %d bytes gave %d bytes, %v", n, len(b), err)
		}
		all = append(all, b)
	}
	for i, n := range lens {
		if !bytes.Equal(all[i], fill(n)) {
			t.failf("large", "a decoded string of %d bytes changed later", n)
		}
	}
}

func volC17(t *T, r *rand.Rand) {
	t.setCase("large: faults far into long strings, oversized strings")
	fault := errors.New("fault")
	data := make([]byte, 2+65535)
	data[0], data[1] = 0xff, 0xff
	for _, at := range []int{2, 255, 256, 257, 511, 512, 4095, 4096, 4097, 32768, 65535, 65536, 2 + r.Intn(65535), 2 + r.Intn(65535)} {
		for _, e := range []error{io.EOF, fault} {
			b, err := xbinary.ReadBytes(io.MultiReader(bytes.NewReader(data[:at]), &endReader{e}))
			if err == nil || b != nil {
				t.failf("large", "a string cut at byte %d decoded to %d bytes, error %v", at, len(b), err)
			}
			if e == fault && !errors.Is(err, fault) {
				t.failf("large", "cut at byte %d: error %v instead of the reader's", at, err)
			}
		}
		w := &limitWriter{n: at, err: fault}
		if err := xbinary.WriteBytes(w, data[2:]); !errors.Is(err, fault) {
			t.failf("large", "a writer failing at byte %d: %v", at, err)
		}
		if w.after > 0 {
			t.failf("large", "%d writes after the failure at byte %d", w.after, at)
		}
	}
	for _, n := range []int{65536, 65537, 65536 + 255, 1 << 17, 1<<17 + 5, 1 << 20, 1 << 24, beyond(r)} {
		w := &limitWriter{n: 1 << 30}
		if err := xbinary.WriteBytes(w, make([]byte, n)); err == nil || w.wrote > 0 {
			t.failf("large", "a string of %d bytes: error %v, %d bytes written", n, err, w.wrote)
		}
	}
}

type endReader struct{ err error }

func (e *endReader) Read(p []byte) (int, error) { return 0, e.err }

// limitWriter accepts n bytes, then fails.
type limitWriter struct {
	n, wrote, after int
	failed          bool
	err             error
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, w.err
	}
	if w.wrote+len(p) > w.n {
		k := w.n - w.wrote
		w.wrote = w.n
		w.failed = true
		return k, w.err
	}
	w.wrote += len(p)
	return len(p), nil
}

func volC18(t *T, r *rand.Rand) {
	K := about(r, 500)
	for round := 0; round < 4; round++ {
		t.setCase("large: %d readers and writers held together, round %d", K, round)
		seen := map[interface{}]bool{}
		var puts []func()
		var use []func()
		for i := 0; i < K; i++ {
			i := i
			size := []int{1, 16, 100, 4096, 5000, 0, -1, 1 << 16, 1<<16 + 1, 1 << 18, middle(r, 20000), middle(r, 20000)}[r.Intn(12)]
			text := fmt.Sprintf("stream %d/%d ", round, i)
			text = strings.Repeat(text, 1+r.Intn(20))
			if r.Intn(2) == 0 {
				b := xio.GetBufferReaderSize(strings.NewReader(text), size)
				if size > 0 && b.Size() < size || b.Size() < 16 {
					t.failf("large", "reader of size %d for %d", b.Size(), size)
				}
				if seen[b] {
					t.failf("large", "one reader held twice")
				}
				seen[b] = true
				part := r.Intn(2) == 0
				use = append(use, func() {
					want := text
					if part {
						want = text[:len(text)/2]
					}
					got := make([]byte, len(want))
					if _, err := io.ReadFull(b, got); err != nil || string(got) != want {
						t.failf("large", "reader %d read %q, %v", i, got, err)
					}
					if !part {
						if c, err := b.ReadByte(); err != io.EOF {
							t.failf("large", "reader %d read %q beyond its stream, %v", i, c, err)
						}
					}
				})
				puts = append(puts, func() { xio.PutBufferReader(b) })
			} else {
				var sink bytes.Buffer
				b := xio.GetBufferWriterSize(&sink, size)
				if size > 0 && b.Size() < size || b.Buffered() != 0 {
					t.failf("large", "writer of size %d with %d bytes for %d", b.Size(), b.Buffered(), size)
				}
				if seen[b] {
					t.failf("large", "one writer held twice")
				}
				seen[b] = true
				leave := r.Intn(3) == 0
				use = append(use, func() {
					if _, err := b.WriteString(text); err != nil {
						t.failf("large", "writer %d: %v", i, err)
					}
					if leave {
						return
					}
					if err := b.Flush(); err != nil || sink.String() != text {
						t.failf("large", "writer %d wrote %q, %v", i, sink.String(), err)
					}
				})
				puts = append(puts, func() { xio.PutBufferWriter(b) })
			}
		}
		for _, i := range r.Perm(K) {
			use[i]()
		}
		for _, i := range r.Perm(K) {
			puts[i]()
		}
	}
}

func ringSizes(r *rand.Rand) []int {
	if middling {
		return []int{middle(r, 40), middle(r, 300), middle(r, 3000)}
	}
	return []int{1, 2, 255, 256, 257, 1000, 65535, 65536, 65537, 70000}
}

func volC19(t *T, r *rand.Rand) {
	for _, n := range ringSizes(r) {
		adds := []int{n - 1, n, n + 1, 2 * n, 2*n + 1, beyond(r)}[r.Intn(6)]
		if n < 1000 && r.Intn(3) > 0 {
			adds = beyond(r)
		}
		t.setCase("large: ring of %d, %d additions", n, adds)
		g := xring.NewRing(n)
		check := func(i int) {
			l := g.Take()
			if len(l) != min(n, i) {
				t.failf("large", "ring of %d after %d additions reports %d elements", n, i, len(l))
			}
			for k, v := range l {
				if v != i-len(l)+k {
					t.failf("large", "ring of %d after %d additions: element %d is %v", n, i, k, v)
				}
			}
		}
		for i := 0; i < adds; i++ {
			g.Add(i)
			if r.Intn(min(5000, adds)) == 0 || i == n-1 || i == n {
				check(i + 1)
			}
		}
		check(adds)
	}
	// additions of several goroutines, each in its order
	n := about(r, 5000) * 6
	g := xring.NewRing(n + r.Intn(500))
	var fns []func()
	for k := 0; k < 6; k++ {
		k := k
		fns = append(fns, func() {
			for i := 0; i < n/6; i++ {
				g.Add([2]int{k, i})
				if i%2000 == 0 {
					g.Take()
				}
			}
		})
	}
	t.par("additions to a large ring", fns...)
	l := g.Take()
	next := make([]int, 6)
	for _, v := range l {
		x := v.([2]int)
		if x[1] != next[x[0]] {
			t.failf("large", "additions of one goroutine out of order: %v, expected %d", x, next[x[0]])
		}
		next[x[0]]++
	}
	if len(l) != n {
		t.failf("large", "%d of %d additions", len(l), n)
	}
}

// ---- streams -------------------------------------------------------------

func intStream(n int) *xstream.Stream {
	return xstream.From(func(c chan<- interface{}) {
		for i := 0; i < n; i++ {
			c <- i
		}
	})
}

// run checks that s is the sequence f(0), f(1) .. f(n-1).
func (t *T) run(what string, s *xstream.Stream, n int, f func(i int) interface{}) {
	i := 0
	s.Foreach(func(v interface{}) {
		if i < n && v != f(i) {
			t.failf("large", "%s: element %d is %v instead of %v", what, i, v, f(i))
		}
		i++
	})
	if i != n {
		t.failf("large", "%s: %d elements instead of %d", what, i, n)
	}
}

func volC20(t *T, r *rand.Rand) {
	n := beyond(r)
	m := 1 + r.Intn(n)
	id := func(i int) interface{} { return i }
	ops := []func(){
		func() { t.run("skip", intStream(n).Skip(m), n-m, func(i int) interface{} { return i + m }) },
		func() { t.run("limit", intStream(n).Limit(m), m, id) },
		func() { t.run("tail", intStream(n).Tail(m), m, func(i int) interface{} { return n - m + i }) },
		func() { t.run("buffer", intStream(n).Buffer(m), n, id) },
		func() {
			t.run("sort", intStream(n).Sort(func(a, b interface{}) bool { return a.(int) > b.(int) }), n, func(i int) interface{} { return n - 1 - i })
		},
		func() { t.run("reverse", intStream(n).Reverse(), n, func(i int) interface{} { return n - 1 - i }) },
		func() {
			t.run("distinct", intStream(n).Distinct(func(v interface{}) interface{} { return v.(int) % m }), m, id)
		},
		func() {
			t.run("filter", intStream(n).Filter(func(v interface{}) bool { return v.(int)%3 == 0 }), (n+2)/3, func(i int) interface{} { return 3 * i })
		},
		func() {
			t.run("map", intStream(n).Map(func(v interface{}) interface{} { return -v.(int) }), n, func(i int) interface{} { return -i })
		},
		func() {
			t.run("walk", intStream(n/2).Walk(func(v interface{}, p chan<- interface{}) { p <- v; p <- v }), n/2*2, func(i int) interface{} { return i / 2 })
		},
		func() {
			t.run("split", intStream(n).Split(m).FlatMap(func(v interface{}) interface{} { return v }), n, id)
			size := 1 + r.Intn(3)
			t.run("small splits", intStream(n).Split(size).FlatMap(func(v interface{}) interface{} { return v }), n, id)
			if c := intStream(n).Split(size).Count(); c != (n+size-1)/size {
				t.failf("large", "%d elements split by %d: %d chunks", n, size, c)
			}
		},
		func() {
			k := 0
			intStream(n).SplitSteam(m).Foreach(func(v interface{}) {
				v.(*xstream.Stream).Foreach(func(v interface{}) {
					if v != k {
						t.failf("large", "split streams: element %d is %v", k, v)
					}
					k++
				})
			})
			if k != n {
				t.failf("large", "split streams: %d of %d elements", k, n)
			}
		},
		func() {
			v, _ := intStream(n).Merge().FindFirst()
			l, _ := v.(list)
			if len(l) != n || l[n-1] != n-1 || l[n/3] != n/3 {
				t.failf("large", "merge of %d elements has %d", n, len(l))
			}
		},
		func() {
			k := min(1+r.Intn(400), n)
			groups, total := 0, 0
			intStream(n).Group(func(v interface{}) interface{} { return v.(int) % k }).Foreach(func(v interface{}) {
				l := v.(list)
				groups++
				total += len(l)
				for i, x := range l {
					if x != l[0].(int)+i*k {
						t.failf("large", "group of %v: element %d is %v", l[0], i, x)
					}
				}
			})
			if groups != k || total != n {
				t.failf("large", "%d elements in %d groups became %d in %d", n, k, total, groups)
			}
		},
		func() {
			if c := intStream(n).Count(); c != n {
				t.failf("large", "count of %d elements: %d", n, c)
			}
			items := make(list, n)
			for i := range items {
				items[i] = i
			}
			t.run("of", ofList(items), n, id)
			if v, err := intStream(n).FindLast(); v != n-1 || err != nil {
				t.failf("large", "last of %d elements: %v,%v", n, v, err)
			}
			if intStream(n).AnyMach(func(v interface{}) bool { return v == n }) || !intStream(n).AnyMach(func(v interface{}) bool { return v == n-1 }) {
				t.failf("large", "any of %d elements", n)
			}
			if !intStream(n).AllMach(func(v interface{}) bool { return v.(int) < n }) || intStream(n).AllMach(func(v interface{}) bool { return v.(int) < n-1 }) {
				t.failf("large", "all of %d elements", n)
			}
		},
		func() {
			k := n
			intStream(n).ForeachOrdered(func(v interface{}) {
				k--
				if v != k {
					t.failf("large", "reverse traversal: %v instead of %d", v, k)
				}
			})
			G := min(about(r, 300), n)
			g := xstream.GroupBy(func(v interface{}) interface{} { return v.(int) % G })
			intStream(n).Collection(g)
			total := 0
			for _, l := range g.Map() {
				total += len(l)
			}
			if k != 0 || total != n || len(g.Map()) != G {
				t.failf("large", "reverse traversal missed %d, collector has %d of %d in %d groups", k, total, n, len(g.Map()))
			}
		},
		func() { // arguments just about a multiple of the size
			for k := 0; k < 12; k++ {
				a := 1 + r.Intn(60+k*25)
				n := max(0, a*(1+r.Intn(4))-1+r.Intn(3))
				if k%3 == 0 {
					a, n = 1+middle(r, 2000), middle(r, 4000)
				}
				b := min(a, n)
				t.setCase("large: argument %d of %d elements", a, n)
				t.run("tail", intStream(n).Tail(a), b, func(i int) interface{} { return n - b + i })
				t.run("skip", intStream(n).Skip(a), n-b, func(i int) interface{} { return i + a })
				t.run("limit", intStream(n).Limit(a), b, id)
				t.run("tail of a limit", intStream(n+a).Limit(n).Tail(a), b, func(i int) interface{} { return n - b + i })
				i := 0
				intStream(n).Split(a).Foreach(func(v interface{}) {
					l := v.(list)
					if len(l) == 0 || len(l) != min(a, n-i) || l[0] != i || l[len(l)-1] != i+len(l)-1 {
						t.failf("large", "%d elements split by %d: %d of them at %d", n, a, len(l), i)
					}
					i += len(l)
				})
				if i != n {
					t.failf("large", "%d elements split by %d: %d of them", n, a, i)
				}
			}
		},
		func() { // a long pipeline
			stages := about(r, 300)
			s := intStream(500)
			for i := 0; i < stages; i++ {
				switch i % 4 {
				case 0:
					s = s.Map(func(v interface{}) interface{} { return v })
				case 1:
					s = s.Filter(func(interface{}) bool { return true })
				case 2:
					s = s.Buffer(i % 3)
				default:
					s = s.Peek(func(interface{}) {})
				}
			}
			t.run("a long pipeline", s, 500, id)
		},
	}
	for i, f := range ops {
		t.setCase("large: stream operator %d on %d elements, argument %d", i, n, m)
		t.do("a large stream", f)
		t.count("large_streams", 1)
	}
	t.leak("large streams")
}

func volC21(t *T, r *rand.Rand) {
	for i, workers := range []int{0, 2, 8, oneOf(r, 100, 200, 300, 500)} {
		n := about(r, 20000)
		if i == 2 {
			n = beyond(r)
		}
		t.setCase("large: %d elements through %d workers", n, workers)
		calls := make([]int32, n)
		got := make([]int32, n)
		t.do("a large parallel stage", func() {
			intStream(n).Map(func(v interface{}) interface{} {
				atomic.AddInt32(&calls[v.(int)], 1)
				return v
			}, xstream.WithWorkSize(workers)).Filter(func(v interface{}) bool {
				atomic.AddInt32(&calls[v.(int)], 1)
				return v.(int)%2 == 0
			}, xstream.WithWorkSize(workers)).Walk(func(v interface{}, p chan<- interface{}) {
				p <- v
				p <- v.(int) + 1
			}, xstream.WithWorkSize(workers)).Foreach(func(v interface{}) {
				if v.(int) < n {
					got[v.(int)]++
				}
			})
			intStream(n).ParallelFinish(func(v interface{}) { atomic.AddInt32(&calls[v.(int)], 1) }, xstream.WithWorkSize(workers))
		})
		for k := range calls {
			if calls[k] != 3 || got[k] != 1 {
				t.failf("large", "element %d of %d: %d calls in three stages, %d outputs", k, n, calls[k], got[k])
			}
		}
	}
	workers := wide(r, 3500)
	t.setCase("large: %d workers", workers)
	var in, peak int32
	gate := make(chan struct{})
	done := t.spawn("a wide stage", func() {
		intStream(workers+200).ParallelFinish(func(v interface{}) {
			k := atomic.AddInt32(&in, 1)
			for {
				m := atomic.LoadInt32(&peak)
				if k <= m || atomic.CompareAndSwapInt32(&peak, m, k) {
					break
				}
			}
			<-gate
			atomic.AddInt32(&in, -1)
		}, xstream.WithWorkSize(workers))
	})
	t.quiesce("a wide stage")
	if k := atomic.LoadInt32(&in); int(k) != workers {
		t.failf("large", "%d of %d calls run together", k, workers)
	}
	close(gate)
	t.await(done, "a wide stage")
	if int(peak) > workers {
		t.failf("large", "%d calls ran together with %d workers", peak, workers)
	}
	t.leak("parallel stages")
}

func volC22(t *T, r *rand.Rand) {
	m := 1 + r.Intn(1000)
	n := 2*m + 10 + beyond(r)
	for i, f := range []func(s *xstream.Stream){
		func(s *xstream.Stream) {
			t.run("limit", s.Limit(m), m, func(i int) interface{} { return i })
		},
		func(s *xstream.Stream) {
			if v, err := s.FindFirst(); v != 0 || err != nil {
				t.failf("large", "first is %v,%v", v, err)
			}
		},
		func(s *xstream.Stream) {
			if !s.AnyMach(func(v interface{}) bool { return v == m }) {
				t.failf("large", "any is false")
			}
		},
		func(s *xstream.Stream) {
			if s.AllMach(func(v interface{}) bool { return v != m }) {
				t.failf("large", "all is true")
			}
		},
		func(s *xstream.Stream) {
			if c := s.Tail(0).Count(); c != 0 {
				t.failf("large", "zero tail has %d elements", c)
			}
		},
		func(s *xstream.Stream) {
			if c := s.Limit(0).Count(); c != 0 {
				t.failf("large", "zero limit has %d elements", c)
			}
		},
		func(s *xstream.Stream) {
			if c := s.Buffer(m).Limit(m).Count(); c != m {
				t.failf("large", "limit %d has %d elements", m, c)
			}
		},
	} {
		t.setCase("large: early stop %d, then %d more elements", i, n)
		// the source goes on after the result
		open := make(chan struct{})
		sent := make(chan struct{})
		s := xstream.From(func(c chan<- interface{}) {
			for k := 0; k < n; k++ {
				if k == 2*m+3 {
					<-open
				}
				c <- k
			}
			close(sent)
		})
		t.do("an early stop", func() { f(s) })
		close(open)
		t.await(sent, "the producer of a stopped stream")
	}
	t.leak("stopped streams")
	t.setCase("large: a hundred abandoned sources at once")
	var fns []func()
	for g := 0; g < 100; g++ {
		fns = append(fns, func() {
			_, _ = intStream(300).FindFirst()
			intStream(300).Limit(1).Done()
		})
	}
	t.par("many early stops", fns...)
	t.leak("many stopped streams")
	// many sources concatenated, one of which has elements while the rest pause
	S := about(r, 300)
	t.setCase("large: %d sources, all but one pausing", S)
	pause := make(chan struct{})
	fed := r.Intn(S)
	ss := make([]*xstream.Stream, S)
	for k := range ss {
		k := k
		ss[k] = xstream.From(func(c chan<- interface{}) {
			if k != fed {
				<-pause
			}
			for i := 0; i < 5; i++ {
				c <- [2]int{k, i}
			}
		})
	}
	var both *xstream.Stream
	t.do("five elements of one source among many", func() {
		both = xstream.Concat(ss[0], ss[1:]...)
		for i := 0; i < 5; i++ {
			if v := <-both.Chan(); v != [2]int{fed, i} {
				t.failf("large", "got %v instead of element %d of source %d", v, i, fed)
			}
		}
	})
	close(pause)
	t.do("the rest of many sources", func() {
		if c := both.Count(); c != 5*S-5 {
			t.failf("large", "%d of %d elements", c, 5*S-5)
		}
	})
	t.leak("many sources")
	// thousands of stages alive at once: each needs its goroutine
	depth := about(r, 3500)
	t.setCase("large: %d stages alive at once", depth)
	stop := make(chan struct{})
	ended := make(chan struct{})
	t.do("a deep pipeline over an endless source", func() {
		s := xstream.From(func(c chan<- interface{}) {
			defer close(ended)
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				case c <- i:
				}
			}
		})
		for i := 0; i < depth; i++ {
			switch r.Intn(3) {
			case 0:
				s = s.Buffer(r.Intn(2))
			case 1:
				s = s.Skip(1)
				depth--
			default:
				s = s.Distinct(func(v interface{}) interface{} { return v })
			}
		}
		v, err := s.FindFirst()
		if err != nil {
			t.failf("large", "first of an endless stream is %v,%v", v, err)
		}
	})
	close(stop)
	t.await(ended, "the endless producer")
	t.leak("a deep pipeline")
}

func volC23(t *T, r *rand.Rand) {
	S := about(r, 300)
	per := about(r, 100)
	t.setCase("large: %d streams concatenated", S)
	t.do("a large concatenation", func() {
		ss := make([]*xstream.Stream, S)
		for k := range ss {
			k := k
			ss[k] = xstream.From(func(c chan<- interface{}) {
				for i := 0; i < per; i++ {
					c <- [2]int{k, i}
				}
			})
		}
		next := make([]int, S)
		ss[0].Concat(ss[1:]...).Foreach(func(v interface{}) {
			x := v.([2]int)
			if x[1] != next[x[0]] {
				t.failf("large", "source %d of %d: element %d instead of %d", x[0], S, x[1], next[x[0]])
			}
			next[x[0]]++
		})
		for k, n := range next {
			if n != per {
				t.failf("large", "source %d of %d: %d of %d elements", k, S, n, per)
			}
		}
	})
	n := beyond(r)
	id := func(i int) interface{} { return i }
	t.setCase("large: %d elements copied, peeked and concatenated", n)
	t.do("large copies", func() {
		t.run("two long streams concatenated", xstream.Concat(intStream(n), xstream.Empty()), n, id)
		m := intStream(n).Copy(map[string]int{"a": 0, "b": 5, "c": about(r, 1000)})
		var wg sync.WaitGroup
		for _, s := range m {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer t.guard("copy")
				t.run("copy", s, n, id)
			}()
		}
		wg.Wait()
		k := 0
		t.run("peek", intStream(n).Peek(func(v interface{}) {
			if v != k {
				t.failf("large", "peeked %v instead of %d", v, k)
			}
			k++
		}), n, id)
		if k != n {
			t.failf("large", "peeked %d of %d elements", k, n)
		}
		big := 1 + r.Intn(3*n/2)
		got := 0
		var keep []list
		intStream(n).Split(big).Foreach(func(v interface{}) { keep = append(keep, v.(list)) })
		for _, c := range keep {
			for _, v := range c {
				if v != got {
					t.failf("large", "split by %d: %v instead of %d", big, v, got)
				}
				got++
			}
		}
		if got != n {
			t.failf("large", "split by %d: %d of %d elements", big, got, n)
		}
	})
	t.do("large groups", func() {
		k := 1 + r.Intn(9)
		total := 0
		intStream(n).Group(func(v interface{}) interface{} { return v.(int) % k }).Foreach(func(v interface{}) {
			l := v.(list)
			total += len(l)
			for i, x := range l {
				if x != l[0].(int)+i*k || l[0].(int) >= k {
					t.failf("large", "group of %v: element %d is %v", l[0], i, x)
				}
			}
		})
		if total != n {
			t.failf("large", "%d elements grouped became %d", n, total)
		}
	})
	C := about(r, 300)
	params := map[string]int{}
	for i := 0; i < C; i++ {
		params[fmt.Sprint("copy", i)] = i % 7
	}
	t.setCase("large: %d copies", C)
	t.do("many copies", func() {
		m := intStream(50).Copy(params)
		if len(m) != C {
			t.failf("large", "%d copies instead of %d", len(m), C)
		}
		var wg sync.WaitGroup
		for _, s := range m {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer t.guard("copy")
				t.run("one of many copies", s, 50, id)
			}()
		}
		wg.Wait()
	})
	t.leak("large fan-in and fan-out")
}

// ---- texts ---------------------------------------------------------------

func volC24(t *T, r *rand.Rand) {
	n := beyond(r)
	t.setCase("large: %d errors", n)
	var be xerror.BatchError
	var early error
	var want strings.Builder
	earlyText := ""
	at := 2 + r.Intn(min(2000, n-2))
	for i := 0; i < n; i++ {
		be.Add(fmt.Errorf("%d", i))
		if i%100 == 0 {
			be.Add(nil)
		}
		if i > 0 {
			want.WriteByte('\n')
		}
		fmt.Fprintf(&want, "%d", i)
		if i == at {
			early, earlyText = be.Err(), want.String()
		}
	}
	if got := be.Err().Error(); got != want.String() {
		t.failf("large", "%d errors reported by a text of %d bytes instead of %d", n, len(got), want.Len())
	}
	if early.Error() != earlyText {
		t.failf("large", "an error obtained after %d additions changed", at+1)
	}
	for i := 0; i < about(r, 5000); i++ {
		var b xerror.BatchError
		for k := 0; k < i%5; k++ {
			b.Add(nil)
		}
		if b.NotNil() || b.Err() != nil {
			t.failf("large", "nil errors left a trace")
		}
	}
}

func volC25(t *T, r *rand.Rand) {
	n := beyond(r)
	step := []string{"", ",", "::"}[r.Intn(3)]
	t.setCase("large: %d pieces, delimiter %q", n, step)
	every := about(r, 30000)
	j := xstring.NewJoiner(xstring.WithJoiner("<", step, ">"))
	for round := 0; round < 2; round++ {
		var want strings.Builder
		want.WriteByte('<')
		for i := 0; i < n; i++ {
			if i > 0 {
				want.WriteString(step)
			}
			switch i % 5 {
			case 0:
				_, _ = j.WriteString("text")
				want.WriteString("text")
			case 1:
				_, _ = j.Write([]byte{'b', 'y'})
				want.WriteString("by")
			case 2:
				_ = j.WriteByte('x')
				want.WriteByte('x')
			case 3:
				_, _ = j.WriteRune('世')
				want.WriteRune('世')
			default:
				_, _ = j.WriteString("")
			}
			if i%every == every-1 {
				if s := j.String(); s != want.String()+">" || j.Len() != len(s) || j.Cap() < len(s) {
					t.failf("large", "after %d pieces: text of %d bytes instead of %d, Len %d, Cap %d", i+1, len(s), want.Len()+1, j.Len(), j.Cap())
				}
				if r.Intn(2) == 0 {
					more := beyond(r)
					c := j.Len() + more
					j.Grow(more + 100)
					if j.Cap() < c {
						t.failf("large", "no room after growing: %d of %d", j.Cap(), c)
					}
				}
			}
		}
		if s := j.String(); s != want.String()+">" || j.Len() != len(s) {
			t.failf("large", "%d pieces: text of %d bytes instead of %d", n, len(s), want.Len()+1)
		}
		big := strings.Repeat("0123456789", about(r, 20000))
		_, _ = j.WriteString(big)
		if s := j.String(); s != want.String()+step+big+">" {
			t.failf("large", "a long piece: text of %d bytes", len(s))
		}
		j.Reset()
		if s := j.String(); s != "<>" {
			t.failf("large", "text after a reset is %q", s[:min(len(s), 40)])
		}
	}
}

func bigText(r *rand.Rand, n int) []rune {
	alpha := []rune("abcXYZ 019é世界\u0301😀\t\u3000\u00a0")
	switch r.Intn(5) {
	case 0:
		alpha = []rune("ab")
	case 2: // one other
		rs := []rune(strings.Repeat("ab C", n/4+1))[:n]
		rs[r.Intn(n)] = []rune("é世😀")[r.Intn(3)]
		return rs
	case 1: // a few others among many plain ones
		alpha = append([]rune(strings.Repeat("abc", min(n, 3000)/6+1)), alpha...)
	}
	rs := make([]rune, n)
	for i := range rs {
		rs[i] = alpha[r.Intn(len(alpha))]
	}
	return rs
}

func volC27(t *T, r *rand.Rand) {
	for round := 0; round < 3; round++ {
		n := []int{beyond(r), about(r, 250), about(r, 4090)}[round]
		rs := bigText(r, n)
		s := string(rs)
		m := n + r.Intn(2*n)
		t.setCase("large: text of %d characters", n)
		eq := func(what, got string, want []rune) {
			if got != string(want) {
				t.failf("large", "%s of a text of %d characters differs (%d bytes instead of %d)", what, n, len(got), len(string(want)))
			}
		}
		pad := func(k int) []rune { return repeatRunes('世', k) }
		eq("PadLeftChar", xstring.PadLeftChar(s, m, '世'), cat(pad(m-n), rs))
		eq("PadRightChar", xstring.PadRightChar(s, m, '世'), cat(rs, pad(m-n)))
		if c := xstring.PadCenterChar(s, m, '世'); utf8.RuneCountInString(c) != m || !strings.Contains(c, s) {
			t.failf("large", "PadCenterChar of %d characters to %d has %d", n, m, utf8.RuneCountInString(c))
		}
		eq("RepeatChar", xstring.RepeatChar('世', m), pad(m))
		a, b := r.Intn(n), r.Intn(n)
		if a > b {
			a, b = b, a
		}
		eq("Sub", xstring.Sub(s, a, b), rs[a:b])
		eq("Left", xstring.Left(s, b), rs[:b])
		eq("Right", xstring.Right(s, a), rs[a:])
		back := make([]rune, n)
		for i := range rs {
			back[n-1-i] = rs[i]
		}
		rev, err := xstring.Reverse(s)
		if err != nil {
			t.failf("large", "Reverse: %v", err)
		}
		eq("Reverse", rev, back)
		rot := xstring.Rotate(s, a)
		eq("rotating back", xstring.Rotate(rot, -a), rs)
		for k := 0; k < 20 && n < 9000; k++ {
			shift := []int{1, -1, n - 1, 1 - n, n + 1, r.Intn(n), -r.Intn(n), n / 2}[r.Intn(8)]
			x := ((-shift)%n + n) % n
			eq("Rotate", xstring.Rotate(s, shift), cat(rs[x:], rs[:x]))
			i, j := r.Intn(n+2), r.Intn(n+2)
			if i > j {
				i, j = j, i
			}
			i, j = min(i, n), min(j, n)
			eq("Sub", xstring.Sub(s, i, j), rs[i:j])
			eq("Left", xstring.Left(s, j), rs[:j])
			eq("Right", xstring.Right(s, i), rs[i:])
			if i > 0 {
				eq("Sub from the end", xstring.Sub(s, -i, n), rs[n-i:])
			}
			c := []rune{'x', 'é', '世', '😀'}[r.Intn(4)]
			size := n + r.Intn(3*n)
			eq("PadLeftChar", xstring.PadLeftChar(s, size, c), cat(repeatRunes(c, size-n), rs))
			eq("PadRightChar", xstring.PadRightChar(s, size, c), cat(rs, repeatRunes(c, size-n)))
			eq("RepeatChar", xstring.RepeatChar(c, size), repeatRunes(c, size))
		}
		sorted := func(x []rune) string {
			y := append([]rune(nil), x...)
			sort.Slice(y, func(i, j int) bool { return y[i] < y[j] })
			return string(y)
		}
		if sorted([]rune(rot)) != sorted(rs) || sorted([]rune(xstring.Shuffle(s))) != sorted(rs) {
			t.failf("large", "rotation or shuffling changes the multiset of %d characters", n)
		}
		without := func(drop func(c rune) bool) []rune {
			var k []rune
			for _, c := range rs {
				if !drop(c) {
					k = append(k, c)
				}
			}
			return k
		}
		eq("RemoveChar", xstring.RemoveChar(s, 'a'), without(func(c rune) bool { return c == 'a' }))
		eq("RemoveString", xstring.RemoveString(s, "b"), without(func(c rune) bool { return c == 'b' }))
		eq("DeleteWhitespace", xstring.DeleteWhitespace(s), without(func(c rune) bool { return unicode.IsSpace(c) }))
		eq("TrimSpace", xstring.TrimSpace(strings.Repeat(" \t", n)+"x"+s+"x"+strings.Repeat("\n", n)), []rune("x"+s+"x"))
		eq("TrimLeft", xstring.TrimLeft(strings.Repeat("q", n)+"x"+s, "q"), []rune("x"+s))
		eq("TrimRight", xstring.TrimRight(s+"x"+strings.Repeat("q", n), "q"), []rune(s+"x"))
	}
}

func volC28(t *T, r *rand.Rand) {
	for round := 0; round < 3; round++ {
		n := []int{beyond(r), about(r, 250), about(r, 4090)}[round]
		rs := bigText(r, n)
		s := string(rs)
		t.setCase("large: text of %d characters", n)
		flip := func(i int) string { // another character at i
			x := append([]rune(nil), rs...)
			x[i] = 'Q'
			return string(x)
		}
		up := strings.ToUpper(s)
		at := r.Intn(n)
		if round == 0 && r.Intn(2) == 0 {
			at = n - 1 - r.Intn(min(n, 100))
		}
		o := flip(at)
		is := func(what string, got, want bool) {
			if got != want {
				t.failf("large", "%s of texts of %d characters that differ at %d is %v", what, n, at, got)
			}
		}
		is("EqualsIgnoreCase", xstring.EqualsIgnoreCase(s, up), true)
		is("EqualsIgnoreCase", xstring.EqualsIgnoreCase(s, o), false)
		is("EqualsAny", xstring.EqualsAny(s, o, up+"x", s), true)
		is("EqualsAny", xstring.EqualsAny(s, o, s+" "), false)
		is("EndsWithIgnoreCase", xstring.EndsWithIgnoreCase("Q"+s, up), true)
		is("EndsWithIgnoreCase", xstring.EndsWithIgnoreCase(o, up), false)
		is("EndsWithCase", xstring.EndsWithCase("Q"+s, s), true)
		is("EndsWithCase", xstring.EndsWithCase("Q"+o, s), false)
		if few := string(rs[:min(n, 500)]); round < 2 { // slow: each position takes the whole text
			is("ContainsIgnoreCase", xstring.ContainsIgnoreCase(strings.Repeat("qW", 100)+"e"+few, "E"+strings.ToUpper(few)), true)
			is("ContainsIgnoreCase", xstring.ContainsIgnoreCase(strings.Repeat("qW", 200)+few, "E"+few), false)
			is("ContainsIgnoreCase", xstring.ContainsIgnoreCase(few+"q", "Q"), true)
			is("ContainsIgnoreCase", xstring.ContainsIgnoreCase(few, "q"), false)
		}
		is("Contains", xstring.Contains(o, "Q"), true)
		is("Contains", xstring.Contains(s, "Q"), false)
		is("RegionMatches", xstring.RegionMatches(s, true, at, up, at, n-at), true)
		is("RegionMatches", xstring.RegionMatches(o, true, 0, s, 0, n), false)
		is("RegionMatches", xstring.RegionMatches(o, false, 0, s, 0, at), true)
		// the time taken grows with the square of the length
		many := make([]string, []int{20, 260 + r.Intn(90), 3}[round])
		for i := range many {
			many[i] = s
			if round == 0 {
				many[i] = string(rs[:min(n, 600)])
			}
		}
		whole := []rune(many[0])
		cut := min(at, len(whole)-1)
		for !utf8.ValidString(string(whole[:cut])) {
			cut--
		}
		if k := xstring.IndexOfDifference(many...); k != -1 {
			t.failf("large", "%d equal texts differ at %d", len(many), k)
		}
		if round > 0 {
			y := append([]rune(nil), whole...)
			y[cut] = 'Q'
			many[r.Intn(len(many))] = string(y)
			if k := xstring.IndexOfDifference(many...); k != cut {
				t.failf("large", "%d texts differ at %d instead of %d", len(many), k, cut)
			}
			if p := xstring.CommonPrefix(many...); p != string(whole[:cut]) {
				t.failf("large", "common prefix of %d texts has %d bytes", len(many), len(p))
			}
		}
		if k := xstring.IndexOfDifferenceWithTwoStr(s, o); k != at {
			t.failf("large", "texts differ at %d instead of %d", k, at)
		}
		if d := xstring.Difference(s, o); d != string([]rune(o)[at:]) {
			t.failf("large", "difference at %d has %d bytes", at, len(d))
		}
		if k := xstring.Len(s); k != n {
			t.failf("large", "text of %d characters has %d", n, k)
		}
		letters, digits, blanks := strings.Repeat("aZ", n), strings.Repeat("059", n), strings.Repeat(" \t", n)
		is("IsAlpha", xstring.IsAlpha(letters), true)
		is("IsAlpha", xstring.IsAlpha(letters+"1"), false)
		is("IsAlphanumeric", xstring.IsAlphanumeric(letters+digits), true)
		is("IsAlphanumeric", xstring.IsAlphanumeric(letters+digits+"-"), false)
		is("IsNumeric", xstring.IsNumeric(digits), true)
		is("IsNumeric", xstring.IsNumeric(digits+"x"), false)
		is("IsBlank", xstring.IsBlank(blanks), true)
		is("IsBlank", xstring.IsBlank(blanks+"x"), false)
		empties := make([]string, about(r, 300))
		is("IsAnyEmpty", xstring.IsAnyEmpty(append(many, "")...), true)
		is("IsNoneEmpty", xstring.IsNoneEmpty(many...), true)
		is("IsNoneBlank", xstring.IsNoneBlank(append(empties, s)...), false)
		is("ContainsAnySubstrings", xstring.ContainsAnySubstrings(o, append(empties[:0:0], "QQ", "RR", "Q")), true)
		// long lists of texts, decided by one anywhere among them
		lists := make([]string, oneOf(r, 20, 257, 1000))
		for i := range lists {
			lists[i] = "R" + string(rs[:r.Intn(min(n, 20))]) + "Q"
		}
		hit := r.Intn(len(lists))
		is("ContainsAnySubstrings", xstring.ContainsAnySubstrings(o, lists), false)
		is("EndsWithAny", xstring.EndsWithAny(s+"Z", lists...), false)
		is("EqualsAny", xstring.EqualsAny("Z", lists...), false)
		is("IsAnyBlank", xstring.IsAnyBlank(lists...), false)
		is("IsAnyEmpty", xstring.IsAnyEmpty(lists...), false)
		lists[hit] = "Q"
		is("ContainsAnySubstrings", xstring.ContainsAnySubstrings(o, lists), true)
		is("EndsWithAny", xstring.EndsWithAny(s+"ZQ", lists...), true)
		is("EqualsAny", xstring.EqualsAny("Q", lists...), true)
		lists[hit] = " "
		is("IsAnyBlank", xstring.IsAnyBlank(lists...), true)
		is("IsAnyEmpty", xstring.IsAnyEmpty(lists...), false)
		is("IsNoneBlank", xstring.IsNoneBlank(lists...), false)
		lists[hit] = ""
		is("IsAnyEmpty", xstring.IsAnyEmpty(lists...), true)
		is("IsNoneEmpty", xstring.IsNoneEmpty(lists...), false)
		// one character among many decides
		odd := func(c rune, of string) string {
			x := []rune(of)
			x[r.Intn(len(x))] = c
			return string(x)
		}
		for _, c := range []rune{'_', '-', '\u200b', '世', '٣', '\u00b2', '.', ' ', '\u3000', 'Q', '7'} {
			is("IsAlpha "+string(c), xstring.IsAlpha(odd(c, letters)), unicode.IsLetter(c))
			is("IsAlphanumeric "+string(c), xstring.IsAlphanumeric(odd(c, letters+digits)), unicode.IsLetter(c) || unicode.IsDigit(c))
			is("IsNumeric "+string(c), xstring.IsNumeric(odd(c, digits)), unicode.IsDigit(c))
			is("IsBlank "+string(c), xstring.IsBlank(odd(c, blanks)), unicode.IsSpace(c))
			d := digits[:1] + odd(c, digits[1:])
			is("IsNumerical "+string(c), xstring.IsNumerical(d), c == '.' || c >= '0' && c <= '9')
		}
		// regions of every length, equal and not
		for k := 0; k < 20; k++ {
			a := r.Intn(n)
			l := 1 + r.Intn(n-a)
			diff := a + r.Intn(l)
			if k%3 == 0 {
				diff = a + l - 1
			}
			o := flip(diff)
			is("RegionMatches", xstring.RegionMatches(s, k%2 == 0, a, s[0:0]+s, a, l), true)
			is("RegionMatches", xstring.RegionMatches(s, k%2 == 0, a, o, a, l), false)
			is("RegionMatches", xstring.RegionMatches(s, k%2 == 0, a, o, a, diff-a), true)
			if d := xstring.IndexOfDifferenceWithTwoStr(s, o); d != diff {
				t.failf("large", "texts of %d characters differ at %d instead of %d", n, d, diff)
			}
			if n > 9000 {
				break
			}
		}
	}
}

func volC29(t *T, r *rand.Rand) {
	for round := 0; round < 400; round++ {
		n := []int{beyond(r), about(r, 250), about(r, 4090), about(r, 900)}[min(round, 1+r.Intn(3))]
		rs := bigText(r, n)
		s := string(rs)
		width := 20 + r.Intn(n+20)
		offset := r.Intn(n + 50)
		marker := []string{"...", "…", "", "[cut]"}[r.Intn(4)]
		t.setCase("large: %d characters abbreviated to %d at %d with %q", n, width, offset, marker)
		got, err := xstring.Abbreviate(s, marker, offset, width)
		g := []rune(got)
		if n <= width {
			if err != nil || got != s {
				t.failf("large", "a text of %d characters that fits %d was changed to %d, %v", n, width, len(g), err)
			}
			continue
		}
		if err != nil || len(g) != width {
			t.failf("large", "a text of %d characters abbreviated to %d has %d, %v", n, width, len(g), err)
		}
		if marker == "" && got != string(rs[:width]) {
			t.failf("large", "a text of %d characters cut to %d with an empty marker is no plain truncation", n, width)
		}
		body := got
		pre := strings.HasPrefix(body, marker) && marker != ""
		mk := []rune(marker)
		ok := false
		for _, c := range [][2]bool{{false, true}, {true, false}, {true, true}} {
			b := g
			if c[0] {
				if !strings.HasPrefix(string(b), marker) {
					continue
				}
				b = b[len(mk):]
			}
			if c[1] {
				if len(b) < len(mk) || !strings.HasSuffix(string(b), marker) {
					continue
				}
				b = b[:len(b)-len(mk)]
			}
			x := string(b)
			if !c[0] && strings.HasPrefix(s, x) || !c[1] && strings.HasSuffix(s, x) || c[0] && c[1] && strings.Contains(s, x) {
				ok = true
			}
		}
		if !ok {
			t.failf("large", "a text of %d characters abbreviated to %d at %d is no part of it with markers (marker first %v)", n, width, offset, pre)
		}
	}
}

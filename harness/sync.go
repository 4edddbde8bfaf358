package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xsync"
)

func init() {
	checks["C05"] = c05
	checks["C06"] = c06
	checks["C07"] = c07
	checks["C08"] = c08
}

// dwell gives others the opportunity to run.
func dwell(r *rand.Rand) {
	for i := r.Intn(6); i > 0; i-- {
		runtime.Gosched()
	}
}

// maxOverlap returns how many of the intervals hold at one moment.
func maxOverlap(iv [][2]int64) int {
	type e struct {
		t int64
		d int
	}
	var es []e
	for _, x := range iv {
		if x[1] <= x[0] {
			continue
		}
		es = append(es, e{x[0], 1}, e{x[1], -1})
	}
	sort.Slice(es, func(i, j int) bool {
		if es[i].t != es[j].t {
			return es[i].t < es[j].t
		}
		return es[i].d < es[j].d
	})
	n, m := 0, 0
	for _, x := range es {
		n += x.d
		if n > m {
			m = n
		}
	}
	return m
}

// ---- C05 -----------------------------------------------------------------

var lockModel = porcupine.Model{
	Init: func() interface{} { return -1 },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, o := st.(int), in.(hop)
		switch o.Op {
		case "lock":
			return s == -1, o.Client
		case "try":
			if out.(bool) {
				return s == -1, o.Client
			}
			return s != -1, s
		case "unlock":
			return s == o.Client, -1
		}
		panic(o.Op)
	},
}

func c05(t *T) {
	t.rule = "one evaluation = one episode: (a) a concurrent history of lock, try-lock and unlock calls decided by porcupine against a mutual-exclusion model, every critical section also checking plain variables (race detector) and its own occupancy; (b) try-locks and waiters against a holder that keeps the lock, briefly or for millions of waiting rounds; (c) a victim among goroutines that keep taking and releasing the lock, on 1 to 8 processors; non-trivial = calls of different goroutines overlapped; distinct = distinct order of calls, returns and outcomes"
	for e := 0; e < t.n(5000); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		clients := 2 + r.Intn(5)
		per := 1 + r.Intn(5)
		tryShare := r.Intn(4)
		nz := t.noise()
		t.setCase("history %d: noise %s, %d clients x %d", e, nz, clients, per)
		var l xsync.Spinlock
		h := newHist(clients)
		inside, total := 0, 0
		payload := map[int]int{}
		got := make([]int, clients)
		var fns []func()
		for c := 0; c < clients; c++ {
			c, seed := c, r.Int63()
			fns = append(fns, func() {
				rr := rand.New(rand.NewSource(seed))
				for i := 0; i < per; i++ {
					o := hop{Client: c, Op: "lock"}
					if rr.Intn(4) < tryShare {
						o.Op = "try"
						o.Call = now()
						ok := l.TryLock()
						o.Ret = now()
						o.Out = ok
						h.add(o)
						if !ok {
							dwell(rr)
							continue
						}
					} else {
						o.Call = now()
						l.Lock()
						o.Ret = now()
						h.add(o)
					}
					inside++
					if inside != 1 {
						t.failf("exclusion", "two goroutines hold the spin lock")
					}
					total++
					payload[c] += total
					dwell(rr)
					if inside != 1 {
						t.failf("exclusion", "two goroutines hold the spin lock")
					}
					inside--
					got[c]++
					u := hop{Client: c, Op: "unlock"}
					u.Call = now()
					l.Unlock()
					u.Ret = now()
					h.add(u)
				}
			})
		}
		t.par("lock, try-lock and unlock", fns...)
		t.quiet()
		sum := 0
		for _, g := range got {
			sum += g
		}
		if sum != total {
			t.failf("lost-update", "%d critical sections left a guarded counter at %d", sum, total)
		}
		if !l.TryLock() {
			t.failf("stuck", "the lock is not free after every holder released it")
		}
		if l.TryLock() {
			t.failf("exclusion", "a try-lock succeeded on a held lock")
		}
		all := h.all()
		t.eval()
		t.count("critical_sections", int64(total))
		if overlaps(all) > 0 {
			t.seen(shape(all))
		}
		t.linear(lockModel, all, "spin lock")
		if e == 7 {
			t.sample(map[string]interface{}{"noise": nz, "history": render(all)})
		}
	}
	for e := 0; e < t.n(400); e++ {
		c05held(t, e)
	}
	for e := 0; e < min(t.n(3), 20); e++ {
		c05long(t, e)
	}
	for _, p := range []int{1, 2, 3, 4, 8} {
		for e := 0; e < t.n(6); e++ {
			c05victim(t, p, e)
		}
	}
}

func c05held(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	t.setCase("held %d noise %s", e, nz)
	var l xsync.Spinlock
	if r.Intn(2) == 0 {
		l.Lock()
	} else if !l.TryLock() {
		t.failf("try", "a try-lock of a new lock failed")
	}
	secret := r.Int()
	// try-locks of other goroutines must return, fail and change nothing
	n := 1 + r.Intn(4)
	var fns []func()
	for i := 0; i < n; i++ {
		fns = append(fns, func() {
			for k := 0; k < 20; k++ {
				if l.TryLock() {
					t.failf("exclusion", "a try-lock succeeded while the lock was held")
				}
			}
		})
	}
	t.par("try-lock of a held lock", fns...)
	// waiters do not get in while it is held
	w := 1 + r.Intn(3)
	in := make([]int32, w)
	seen := make([]int, w)
	var ds []<-chan struct{}
	var mask int32
	for i := 0; i < w; i++ {
		i := i
		ds = append(ds, t.spawn("waiting locker", func() {
			l.Lock()
			seen[i] = secret
			secret++
			in[i] = 1
			atomic.AddInt32(&mask, 1)
			l.Unlock()
		}))
	}
	for i := 0; i < 50; i++ {
		runtime.Gosched()
	}
	if atomic.LoadInt32(&mask) != 0 {
		t.failf("exclusion", "a waiter acquired a held lock")
	}
	l.Unlock()
	for _, d := range ds {
		t.await(d, "waiter of a released lock")
	}
	t.quiet()
	sort.Ints(seen)
	for i := 1; i < w; i++ {
		if seen[i] != seen[i-1]+1 {
			t.failf("publish", "waiters saw %v instead of consecutive values", seen)
		}
	}
	if !l.TryLock() {
		t.failf("try", "a try-lock of a free lock failed")
	}
	l.Unlock()
	if !l.TryLock() {
		t.failf("try", "a try-lock of a free lock failed")
	}
	t.eval()
	t.seen(fmt.Sprint("held", n, w, nz))
}

// c05long holds the lock while the waiters go through millions of rounds.
func c05long(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	old := runtime.GOMAXPROCS([]int{8, 1, 2}[e%3])
	defer runtime.GOMAXPROCS(old)
	w := 1 + r.Intn(4)
	t.setCase("long hold %d: %d waiters", e, w)
	var l xsync.Spinlock
	l.Lock()
	held := 1
	var got int32
	var ds []<-chan struct{}
	for i := 0; i < w; i++ {
		ds = append(ds, t.spawn("waiting locker", func() {
			l.Lock()
			atomic.AddInt32(&got, 1)
			if held != 0 {
				t.failf("exclusion", "a waiter acquired the lock while its holder kept it")
			}
			l.Unlock()
		}))
	}
	c0 := cpuTime()
	for w0 := time.Now(); time.Since(w0) < 1500*time.Millisecond; {
		time.Sleep(10 * time.Millisecond)
		if atomic.LoadInt32(&got) != 0 || l.TryLock() {
			t.failf("exclusion", "a waiter acquired the lock while its holder kept it")
		}
	}
	t.count("long_hold_cpu_ms", int64((cpuTime()-c0)/time.Millisecond))
	held = 0
	l.Unlock()
	for _, d := range ds {
		t.await(d, "waiter of a lock held for long")
	}
	t.eval()
	t.seen(fmt.Sprint("long", e, w))
}

func c05victim(t *T, procs, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	t.setCase("victim %d on %d processors", e, procs)
	var l xsync.Spinlock
	hogs := 1 + r.Intn(3*procs)
	victims := 1 + r.Intn(3)
	var stop, left int32 = 0, int32(victims)
	guarded := 0
	var fns []func()
	var acq int64
	for i := 0; i < hogs; i++ {
		seed := r.Int63()
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			n := int64(0)
			for atomic.LoadInt32(&stop) == 0 {
				l.Lock()
				guarded++
				if rr.Intn(8) == 0 {
					runtime.Gosched()
				}
				l.Unlock()
				n++
				// the lock is free for a while
				for k := 0; k < 4; k++ {
					runtime.Gosched()
				}
			}
			atomic.AddInt64(&acq, n)
		})
	}
	for i := 0; i < victims; i++ {
		fns = append(fns, func() {
			for k := 0; k < 30; k++ {
				l.Lock()
				guarded++
				l.Unlock()
			}
			if atomic.AddInt32(&left, -1) == 0 {
				atomic.StoreInt32(&stop, 1)
			}
		})
	}
	t.par("goroutine waiting for a lock that keeps being released", fns...)
	if int64(guarded) != acq+int64(30*victims) {
		t.failf("lost-update", "%d acquisitions left the guarded counter at %d", acq+int64(30*victims), guarded)
	}
	t.eval()
	t.count("critical_sections", int64(guarded))
	t.seen(fmt.Sprint("victim", procs, hogs, victims, guarded))
}

// ---- C06 -----------------------------------------------------------------

type resource struct {
	id       int
	key      string
	payload  []int
	closeErr error
	closed   int32
	gid      string
	closeAt  int64
	onClose  func()
}

func (r *resource) Close() error {
	atomic.AddInt32(&r.closed, 1)
	r.gid = gid()
	r.closeAt = now()
	if r.onClose != nil {
		r.onClose()
	}
	return r.closeErr
}

func gid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	return f[1]
}

type resOut struct {
	ID   int // resource id, 0 if none
	Own  bool
	Err  string
	Flag bool
}

// resModel: the resource a key holds, 0 if none.
var resModel = porcupine.Model{
	Partition: mapModel.Partition,
	Init:      func() interface{} { return 0 },
	Step: func(st, in, out interface{}) (bool, interface{}) {
		s, o, x := st.(int), in.(hop), out.(resOut)
		switch o.Op {
		case "get":
			if x.Err != "" {
				return s == 0, s
			}
			if x.Own {
				return s == 0, x.ID
			}
			return s == x.ID, s
		case "remove":
			return x.Flag == (s != 0), 0
		}
		panic(o.Op)
	},
}

type creation struct {
	key    string
	client int
	id     int
	from   int64
	to     int64
	ok     bool
}

func c06(t *T) {
	t.rule = "one evaluation = one episode on a fresh manager: (a) concurrent get/remove histories with creations that succeed, fail or panic, decided per key by porcupine (a key holds one resource until removed) plus creation intervals, error identity and conservation; (b) requests gathered behind one blocked creation that then succeeds, fails or panics while other keys stay usable; (c) requests that meet failures and ask again at once, which must not be given a failure older than themselves; non-trivial = requests overlapped; distinct = distinct history or (outcome, waiters)"
	for e := 0; e < t.n(5000); e++ {
		c06hist(t, e)
	}
	for e := 0; e < t.n(700); e++ {
		c06gather(t, e)
	}
	for e := 0; e < t.n(300); e++ {
		c06retry(t, e)
	}
}

// c06retry: requests that fail ask again at once. A request never reports a
// failure that another one had reported before the request was made.
func c06retry(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	m := xsync.NewResourceManager()
	clients := 2 + r.Intn(7)
	per := 40 + r.Intn(80)
	mode := r.Intn(3) // errors, panics, both
	work := r.Intn(40)
	keys := nearKeys(r)[:1+r.Intn(2)]
	nz := t.noise()
	t.setCase("retry %d: noise %s %d clients x %d mode %d keys %q", e, nz, clients, per, mode, keys)
	type request struct {
		failure   int
		from, ret int64
	}
	reqs := make([]request, clients*per)
	var running, joined [2]int32
	var fns []func()
	for c := 0; c < clients; c++ {
		c, k := c, c%len(keys)
		fns = append(fns, func() {
			for i := 0; i < per; i++ {
				id := c*per + i
				from := now()
				var err error
				p, panicked := try(func() {
					_, err = m.Get(keys[k], func() (io.Closer, error) {
						if atomic.AddInt32(&running[k], 1) > 1 {
							t.failf("create-overlap", "creations of one key ran together")
						}
						for j := work; j > 0; j-- {
							runtime.Gosched()
						}
						atomic.AddInt32(&running[k], -1)
						if mode == 1 || mode == 2 && i%2 == 0 {
							panic(fmt.Sprintf("panic#%d#", id))
						}
						return nil, fmt.Errorf("err#%d#", id)
					})
				})
				text := fmt.Sprint(err)
				if panicked {
					text = fmt.Sprint(p)
				} else if err == nil {
					t.failf("hidden-failure", "a request got a resource although every creation fails")
				}
				x := strings.Split(text, "#")
				if len(x) < 3 {
					t.failf("foreign-failure", "a request failed with %q, which no creation reported", firstLine(text))
				}
				got, _ := strconv.Atoi(x[1])
				if got != id {
					atomic.AddInt32(&joined[k], 1)
				}
				reqs[id] = request{got, from, now()}
			}
		})
	}
	t.par("requests that ask again", fns...)
	told := map[int]int64{} // when a failure was first reported
	for _, q := range reqs {
		if x, ok := told[q.failure]; !ok || q.ret < x {
			told[q.failure] = q.ret
		}
	}
	for _, q := range reqs {
		if x := told[q.failure]; q.from > x {
			t.failf("stale-failure", "a request reports a failure that had been reported %d ns before the request was made", q.from-x)
		}
	}
	t.eval()
	t.count("retries", int64(clients*per))
	t.count("shared_failures", int64(joined[0]+joined[1]))
	t.seen(fmt.Sprint("retry", clients, per, mode, work, joined))
}

func c06hist(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	m := xsync.NewResourceManager()
	keys := nearKeys(r)[:1+r.Intn(3)]
	clients := 2 + r.Intn(4)
	per := 1 + r.Intn(5)
	h := newHist(clients + 1)
	creations := make([][]creation, clients+1)
	failShare, panicShare, removeShare := r.Intn(4), r.Intn(3), 1+r.Intn(4)
	nz := t.noise()
	t.setCase("history %d: noise %s, keys %q, %d clients x %d, fail %d/10 panic %d/10 remove %d/10", e, nz, keys, clients, per, failShare, panicShare, removeShare)
	all := make([]map[int]*resource, clients+1)
	get := func(c int, key string, id int, rr *rand.Rand, what int) {
		o := hop{Client: c, Key: key, Op: "get"}
		var out resOut
		var cr *creation
		ncalls := 0
		o.Call = now()
		p, panicked := try(func() {
			res, err := m.Get(key, func() (io.Closer, error) {
				ncalls++
				cr = &creation{key: key, client: c, id: id, from: now()}
				dwell(rr)
				switch {
				case what < failShare:
					cr.to = now()
					if id%2 == 0 { // half-made: whatever comes with an error is no resource
						return &resource{id: -id, key: key, payload: []int{-id}}, fmt.Errorf("err#%d#", id)
					}
					return nil, fmt.Errorf("err#%d#", id)
				case what < failShare+panicShare:
					cr.to = now()
					panic(fmt.Sprintf("panic#%d#", id))
				}
				x := &resource{id: id, key: key, payload: []int{id}}
				all[c][id] = x
				cr.ok = true
				cr.to = now()
				return x, nil
			})
			if err != nil {
				out.Err = err.Error()
				if res != nil {
					t.failf("both", "Get returned a resource and the error %v", err)
				}
				return
			}
			x, ok := res.(*resource)
			if !ok {
				t.failf("foreign", "Get returned %v, never created", res)
			}
			out.ID = x.payload[0] // plain read of what the creator wrote
			if x.key != key {
				t.failf("foreign", "Get(%q) returned the resource of key %q", key, x.key)
			}
		})
		o.Ret = now()
		if panicked {
			out.Err = fmt.Sprint(p)
		}
		if ncalls > 1 {
			t.failf("create-twice", "one Get called its creation function %d times", ncalls)
		}
		if cr != nil {
			creations[c] = append(creations[c], *cr)
			if cr.ok && (out.Err != "" || out.ID != cr.id) {
				t.failf("dropped", "a Get that created resource %d returned %+v", cr.id, out)
			}
			if !cr.ok && out.Err == "" {
				t.failf("hidden-failure", "a Get whose creation failed returned resource %d", out.ID)
			}
			out.Own = cr.ok
		}
		o.Out = out
		h.add(o)
	}
	remove := func(c int, key string) {
		o := hop{Client: c, Key: key, Op: "remove"}
		o.Call = now()
		ok := m.Remove(key)
		o.Ret = now()
		o.Out = resOut{Flag: ok}
		h.add(o)
	}
	for c := range all {
		all[c] = map[int]*resource{}
	}
	var fns []func()
	for c := 0; c < clients; c++ {
		c, seed := c, r.Int63()
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			for i := 0; i < per; i++ {
				k := keys[rr.Intn(len(keys))]
				if rr.Intn(10) < removeShare {
					remove(c, k)
				} else {
					get(c, k, c*1000+i+1, rr, rr.Intn(10))
				}
			}
		})
	}
	t.par("get and remove", fns...)
	t.quiet()
	// afterwards every key works at the first request, and a removal at once too
	rr := rand.New(rand.NewSource(1))
	for i, k := range keys {
		t.do("get after a history", func() {
			get(clients, k, 900000+i, rr, 99)
			remove(clients, k)
			get(clients, k, 910000+i, rr, 99)
		})
	}
	ops := h.all()
	t.eval()
	t.count("operations", int64(len(ops)))
	if overlaps(ops) > 0 {
		t.seen(shape(ops))
	}
	// at most one creation of a key at a time
	var crs []creation
	for _, l := range creations {
		crs = append(crs, l...)
	}
	t.count("creations", int64(len(crs)))
	for i := range crs {
		for j := i + 1; j < len(crs); j++ {
			a, b := crs[i], crs[j]
			if a.key == b.key && a.from < b.to && b.from < a.to {
				t.fail("create-overlap", fmt.Sprintf("two creations of key %q ran at the same time", a.key), render(ops))
			}
		}
	}
	// a failure is reported only to requests that were there with it
	for _, o := range ops {
		out := o.Out.(resOut)
		if out.Err == "" {
			continue
		}
		found := false
		for _, c := range crs {
			if c.ok || c.key != o.Key || !strings.Contains(out.Err, fmt.Sprintf("#%d#", c.id)) {
				continue
			}
			for _, w := range ops {
				if w.Op == "get" && w.Client == c.client && w.Call <= c.from && c.to <= w.Ret && w.Call <= o.Ret && o.Call <= w.Ret {
					found = true
				}
			}
		}
		if !found {
			t.fail("stale-failure", fmt.Sprintf("a request got %q, the failure of no creation it could have waited for", firstLine(out.Err)), render(ops))
		}
	}
	t.linear(resModel, ops, "resource manager")
	if e == 7 {
		t.sample(map[string]interface{}{"noise": nz, "history": render(ops)})
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func c06gather(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	m := xsync.NewResourceManager()
	if _, err := m.Get("present", func() (io.Closer, error) { return &resource{id: 1}, nil }); err != nil {
		t.failf("error", "a successful creation gave %v", err)
	}
	outcome := []string{"ok", "error", "panic"}[r.Intn(3)]
	n := r.Intn(6)
	nz := t.noise()
	t.setCase("gather %d: %s, %d waiters, noise %s", e, outcome, n, nz)
	gate := make(chan struct{})
	var calls, overlap, running int32
	boom := fmt.Errorf("err#%d#", e)
	near := nearKeys(r)
	slow, others := near[0], near[1:]
	create := func() (io.Closer, error) {
		if atomic.AddInt32(&running, 1) > 1 {
			atomic.AddInt32(&overlap, 1)
		}
		defer atomic.AddInt32(&running, -1)
		c := atomic.AddInt32(&calls, 1)
		<-gate
		switch {
		case c == 1 && outcome == "error":
			if e%2 == 0 {
				return &resource{id: -1}, boom
			}
			return nil, boom
		case c == 1 && outcome == "panic":
			panic(boom)
		}
		return &resource{id: int(c)}, nil
	}
	type out struct {
		res      io.Closer
		err      error
		p        interface{}
		panicked bool
	}
	outs := make([]out, n+1)
	var ds []<-chan struct{}
	one := func(i int) {
		o := &outs[i]
		o.p, o.panicked = try(func() { o.res, o.err = m.Get(slow, create) })
	}
	ds = append(ds, t.spawn("request that creates", func() { one(0) }))
	t.quiesce("request whose creation is blocked")
	if atomic.LoadInt32(&calls) != 1 {
		t.failf("not-created", "a request for an absent key called its creation function %d times", calls)
	}
	for i := 1; i <= n; i++ {
		i := i
		ds = append(ds, t.spawn("request that waits", func() { one(i) }))
	}
	t.quiesce("requests behind a blocked creation")
	if c := atomic.LoadInt32(&calls); c != 1 {
		t.failf("create-overlap", "%d creations of one key run together", c)
	}
	// other keys are served meanwhile: present, absent, failing, removed
	t.do("requests for other keys during a blocked creation", func() {
		if x, err := m.Get("present", func() (io.Closer, error) {
			t.failf("create-again", "creation called for a present key")
			return nil, nil
		}); err != nil || x.(*resource).id != 1 {
			t.failf("other-key", "Get of a present key gave %v,%v", x, err)
		}
		if x, err := m.Get("other", func() (io.Closer, error) { return &resource{id: 2}, nil }); err != nil || x.(*resource).id != 2 {
			t.failf("other-key", "Get of another key gave %v,%v", x, err)
		}
		for i, k := range others {
			i, k := i, k
			if x, err := m.Get(k, func() (io.Closer, error) { return &resource{id: 100 + i}, nil }); err != nil || x.(*resource).id != 100+i {
				t.failf("other-key", "Get(%q) while %q is being created gave %v,%v", k, slow, x, err)
			}
		}
		for i, k := range others {
			if x, err := m.Get(k, func() (io.Closer, error) { return &resource{id: 200 + i}, nil }); err != nil || x.(*resource).id != 100+i {
				t.failf("other-key", "a successive Get(%q) gave %v,%v", k, x, err)
			}
			if !m.Remove(k) || m.Remove(k) {
				t.failf("other-key", "removals of %q gave wrong results", k)
			}
		}
		if _, err := m.Get("failing", func() (io.Closer, error) { return nil, boom }); err != boom {
			t.failf("other-key", "a failing creation gave %v", err)
		}
		if !m.Remove("other") || m.Remove("other") || m.Remove("nobody") || m.Remove("failing") {
			t.failf("other-key", "removals gave wrong results")
		}
		if x, err := m.Get("other", func() (io.Closer, error) { return &resource{id: 3}, nil }); err != nil || x.(*resource).id != 3 {
			t.failf("stale", "Get after a removal gave %v,%v", x, err)
		}
	})
	close(gate)
	for _, d := range ds {
		t.await(d, "request after its creation ended")
	}
	t.quiet()
	if overlap > 0 {
		t.failf("create-overlap", "creations of one key ran together")
	}
	for i, o := range outs {
		switch outcome {
		case "ok":
			if o.panicked || o.err != nil || o.res != outs[0].res || o.res == nil {
				t.failf("not-shared", "request %d of %d behind one successful creation got %+v, the first got %+v", i, n, o, outs[0])
			}
		case "error":
			if o.panicked || o.err != boom {
				t.failf("failure-lost", "request %d of %d behind one failing creation got %+v", i, n, o)
			}
		case "panic":
			if !o.panicked || !strings.Contains(fmt.Sprint(o.p), boom.Error()) {
				t.failf("failure-lost", "request %d of %d behind one panicking creation got %+v", i, n, o)
			}
		}
	}
	if calls != 1 {
		t.failf("create-again", "%d creations for requests that all waited for the first", calls)
	}
	// the next request
	t.do("next request", func() {
		x, err := m.Get(slow, create)
		want := int32(2)
		if outcome == "ok" {
			want = 1
		}
		if err != nil || calls != want || x.(*resource).id != int(want) {
			t.failf("next", "after a creation that ended with %s the next request got %v,%v and %d creations", outcome, x, err, calls)
		}
		if y, err := m.Get(slow, create); err != nil || y != x {
			t.failf("next", "a successive request got %v,%v instead of %v", y, err, x)
		}
		if !m.Remove(slow) {
			t.failf("next", "a created resource is not known to Remove")
		}
		if y, err := m.Get(slow, create); err != nil || y == x || calls != want+1 {
			t.failf("next", "after a removal: %v,%v", y, err)
		}
	})
	t.eval()
	t.count("gathered_requests", int64(n+1))
	t.seen(fmt.Sprint("gather", outcome, n, nz))
}

// ---- C07 -----------------------------------------------------------------

func c07(t *T) {
	t.rule = "one evaluation = one manager whose resources (some failing to close) are requested, removed and closed sequentially or concurrently, with requests pending during and issued after the close; the oracle counts close calls per resource against creations and removals and matches the errors reported by close; non-trivial = at least one resource existed; distinct = distinct history"
	for e := 0; e < t.n(2500); e++ {
		c07seq(t, e)
	}
	for e := 0; e < t.n(4000); e++ {
		c07conc(t, e)
	}
	for e := 0; e < t.n(500); e++ {
		c07pending(t, e)
	}
	for e := 0; e < t.n(250); e++ {
		c07within(t, e)
	}
}

func errLines(err error) map[string]int {
	m := map[string]int{}
	if err == nil {
		return m
	}
	for _, l := range strings.Split(err.Error(), "\n") {
		m[l]++
	}
	return m
}

func c07seq(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	m := xsync.NewResourceManager()
	nkeys := r.Intn(8)
	live := map[string]*resource{}
	var all []*resource
	removed := map[*resource]bool{}
	var log []string
	t.do("sequential use and close", func() {
		for i := r.Intn(3 * (nkeys + 1)); i > 0 && nkeys > 0; i-- {
			k := fmt.Sprintf("k%d", r.Intn(nkeys))
			switch r.Intn(5) {
			case 0:
				ok := m.Remove(k)
				log = append(log, fmt.Sprintf("remove %s=%v", k, ok))
				if ok != (live[k] != nil) {
					t.failf("remove", "Remove(%q)=%v", k, ok)
				}
				if ok {
					removed[live[k]] = true
					delete(live, k)
				}
			case 1:
				if live[k] == nil {
					_, err := m.Get(k, func() (io.Closer, error) { return nil, errors.New("no") })
					if err == nil {
						t.failf("get", "failing creation reported no error")
					}
				}
			default:
				x, err := m.Get(k, func() (io.Closer, error) {
					n := &resource{id: len(all) + 1, key: k}
					switch r.Intn(9) {
					case 0, 1:
						n.closeErr = fmt.Errorf("close error of %d", n.id)
					case 2:
						n.closeErr = io.ErrClosedPipe // the same for several resources
					case 3:
						n.closeErr = errors.New("busy") // equal texts
					case 4, 5:
						n.closeErr = knownErr(r)
					}
					all = append(all, n)
					live[k] = n
					return n, nil
				})
				if err != nil || x != io.Closer(live[k]) {
					t.failf("get", "Get(%q)=%v,%v", k, x, err)
				}
				log = append(log, fmt.Sprintf("get %s=%d fails:%v", k, live[k].id, live[k].closeErr != nil))
			}
		}
		for _, x := range all {
			if x.closed != 0 {
				t.failf("early-close", "a resource was closed before Close (%v)", log)
			}
		}
		err := m.Close()
		got := errLines(err)
		wantErrs := map[string]int{}
		for _, x := range all {
			want := int32(1)
			if removed[x] {
				want = 0
			}
			if x.closed != want {
				t.failf("close-count", "resource %d (removed: %v) was closed %d times (%v)", x.id, removed[x], x.closed, log)
			}
			if !removed[x] && x.closeErr != nil {
				wantErrs[x.closeErr.Error()]++
			}
		}
		for l, n := range wantErrs {
			if got[l] != n {
				t.failf("close-error", "the close error %q of %d resources is reported %d times in %q (%v)", l, n, got[l], fmt.Sprint(err), log)
			}
			delete(got, l)
		}
		if len(got) > 0 {
			t.failf("close-error", "Close reports %q, which no resource gave (%v)", fmt.Sprint(err), log)
		}
		// after the close
		for i := 0; i < 3; i++ {
			switch r.Intn(3) {
			case 0:
				if err := m.Close(); err != nil {
					t.failf("close-again", "closing again reports %v", err)
				}
			case 1:
				k := fmt.Sprintf("k%d", r.Intn(nkeys+1))
				var mine *resource
				x, err := m.Get(k, func() (io.Closer, error) {
					mine = &resource{id: 1000 + i}
					return mine, nil
				})
				if err == nil && (x == nil || x.(*resource).closed != 1) {
					t.failf("after-close", "Get after Close returned an unclosed resource")
				}
				if mine != nil && mine.closed != 1 {
					t.failf("after-close", "a resource created after Close was closed %d times", mine.closed)
				}
				if mine == nil && err == nil {
					t.failf("after-close", "Get after Close gave a resource it did not create: %v", x)
				}
			case 2:
				m.Remove(fmt.Sprintf("k%d", r.Intn(nkeys+1)))
			}
		}
		for _, x := range all {
			want := int32(1)
			if removed[x] {
				want = 0
			}
			if x.closed != want {
				t.failf("close-again", "resource %d was closed %d times after closing again (%v)", x.id, x.closed, log)
			}
		}
	})
	t.eval()
	t.count("resources", int64(len(all)))
	if len(all) > 0 {
		t.seen(strings.Join(log, ";"))
	}
	if e == 4 {
		t.sample(map[string]interface{}{"kind": "sequential", "log": log})
	}
}

func c07conc(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	m := xsync.NewResourceManager()
	keys := []string{"a", "b", "c", "d"}[:1+r.Intn(4)]
	clients := 1 + r.Intn(4)
	closers := 1 + r.Intn(2)
	per := 1 + r.Intn(4)
	removes := r.Intn(2) == 0
	nz := t.noise()
	t.setCase("concurrent %d: noise %s, keys %v, %d clients x %d, %d closers, removes %v", e, nz, keys, clients, per, closers, removes)
	type op struct {
		key       string
		call, ret int64
		made      *resource
		got       *resource
		err       error
		removed   bool
	}
	logs := make([][]op, clients+1)
	type cl struct {
		call, ret int64
		err       error
		gid       string
	}
	cls := make([]cl, closers)
	act := func(c int, k string, id int, rr *rand.Rand) {
		o := op{key: k}
		o.call = now()
		x, err := m.Get(k, func() (io.Closer, error) {
			n := &resource{id: id, key: k}
			if id%3 == 0 {
				n.closeErr = fmt.Errorf("close error of %d", id)
			}
			dwell(rr)
			o.made = n
			return n, nil
		})
		o.ret = now()
		o.err = err
		if err == nil {
			o.got = x.(*resource)
		}
		logs[c] = append(logs[c], o)
	}
	var fns []func()
	rr0 := rand.New(rand.NewSource(r.Int63()))
	for i, k := range keys {
		if r.Intn(2) == 0 {
			act(clients, k, 9000+i, rr0)
		}
	}
	for c := 0; c < clients; c++ {
		c, seed := c, r.Int63()
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			for i := 0; i < per; i++ {
				k := keys[rr.Intn(len(keys))]
				if removes && rr.Intn(3) == 0 {
					o := op{key: k, call: now()}
					o.removed = m.Remove(k)
					o.ret = now()
					logs[c] = append(logs[c], o)
				} else {
					act(c, k, c*100+i+1, rr)
				}
			}
		})
	}
	for c := 0; c < closers; c++ {
		c, seed := c, r.Int63()
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			for i := 0; i < 4; i++ {
				dwell(rr)
			}
			cls[c].gid = gid()
			cls[c].call = now()
			cls[c].err = m.Close()
			cls[c].ret = now()
		})
	}
	t.par("get, remove and close", fns...)
	t.quiet()
	late := []string{}
	t.do("requests after close", func() {
		act(clients, keys[0], 9100, rr0)
		if m.Remove(keys[0]) {
			late = append(late, keys[0])
		}
		if err := m.Close(); err != nil {
			t.failf("close-again", "closing again reports %v", err)
		}
	})
	detail := fmt.Sprintf("%+v closers %+v", logs, cls)
	made := map[string][]*resource{}
	removed := map[string]int{}
	before := map[*resource]bool{} // surely owned before any close began
	firstClose := never
	for _, c := range cls {
		if c.call < firstClose {
			firstClose = c.call
		}
	}
	getErrs := ""
	total := 0
	for _, k := range late {
		removed[k]++
	}
	var sig strings.Builder
	for c, l := range logs {
		for _, o := range l {
			fmt.Fprintf(&sig, "%d%s%v%v%v;", c, o.key, o.made != nil, o.err != nil, o.removed)
			if o.made != nil {
				made[o.key] = append(made[o.key], o.made)
				total++
				if o.err == nil && o.got != o.made {
					t.fail("dropped", "a created resource was not returned by its request", detail)
				}
				if o.ret < firstClose {
					before[o.made] = true
				}
			}
			if o.removed {
				removed[o.key]++
			}
			if o.err != nil {
				getErrs += o.err.Error() + "\n"
			}
		}
	}
	errs := map[string]int{}
	for _, c := range cls {
		for l, n := range errLines(c.err) {
			errs[l] += n
		}
	}
	for k, l := range made {
		open := 0
		for _, x := range l {
			switch x.closed {
			case 0:
				open++
			case 1:
			default:
				t.fail("close-count", fmt.Sprintf("resource %d was closed %d times", x.id, x.closed), detail)
			}
		}
		if open != removed[k] {
			t.fail("close-count", fmt.Sprintf("key %q: %d resources created, %d removed, yet %d never closed", k, len(l), removed[k], open), detail)
		}
		for _, x := range l {
			if x.closeErr == nil {
				continue
			}
			n := errs[x.closeErr.Error()]
			delete(errs, x.closeErr.Error())
			byCloser := false
			for _, c := range cls {
				if x.gid == c.gid {
					byCloser = true
				}
			}
			if n > 1 || (n == 1 && x.closed == 0) {
				t.fail("close-error", fmt.Sprintf("the close error of resource %d (closed %d times) is reported %d times", x.id, x.closed, n), detail)
			}
			if n == 0 && x.closed == 1 && (byCloser || before[x]) {
				t.fail("close-error", fmt.Sprintf("resource %d failed to close but Close does not report it", x.id), detail)
			}
		}
	}
	if len(errs) > 0 {
		t.fail("close-error", fmt.Sprintf("Close reports errors no resource gave: %v", errs), detail)
	}
	t.eval()
	t.count("resources", int64(total))
	if total > 0 {
		t.seen(sig.String())
	}
	if e == 9 {
		t.sample(map[string]interface{}{"kind": "concurrent", "noise": nz, "log": detail})
	}
}

// c07within uses the manager from within the closing and the creation of its
// resources.
func c07within(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	m := xsync.NewResourceManager()
	n := 1 + r.Intn(5)
	nz := t.noise()
	var all []*resource
	var log []string
	nested := r.Intn(3)
	use := func(self string, id int) func() {
		kind, k := r.Intn(6), fmt.Sprint("k", r.Intn(n))
		if kind > 3 || kind == 2 && nested == 2 && k == fmt.Sprint("k", n-1) {
			return nil // the latter would wait for the creation it is part of
		}
		log = append(log, fmt.Sprintf("%s:%d(%s)", self, kind, k))
		return func() {
			switch kind {
			case 0:
				m.Remove(self)
			case 1:
				m.Remove(k)
			case 2:
				x, err := m.Get(k, func() (io.Closer, error) {
					x := &resource{id: 100 + id, key: k}
					all = append(all, x)
					return x, nil
				})
				if err == nil && x == nil {
					t.failf("within", "Get during a close gave nothing")
				}
			case 3:
				if err := m.Close(); err != nil {
					t.failf("close-again", "closing within a close reports %v", err)
				}
			}
		}
	}
	owned := map[string]*resource{}
	gone := map[*resource]bool{}
	var first error
	closes := 0
	t.setCase("within %d: noise %s %d resources, nested %d", e, nz, n, nested)
	t.do("manager used while its resources are created and closed", func() {
		for i := 0; i < n; i++ {
			i, k := i, fmt.Sprint("k", i)
			x := &resource{id: i, key: k, onClose: use(k, i)}
			if r.Intn(3) == 0 {
				x.closeErr = fmt.Errorf("close error of %d", i)
			}
			got, err := m.Get(k, func() (io.Closer, error) {
				if i == n-1 && nested > 0 {
					// requests for other keys, a removal, a close within a creation
					y := &resource{id: 200 + i, key: "inner"}
					if z, err := m.Get("inner", func() (io.Closer, error) { return y, nil }); err != nil || z != io.Closer(y) {
						t.failf("within", "Get of another key within a creation gave %v,%v", z, err)
					}
					all = append(all, y)
					owned["inner"] = y
					if i > 0 {
						if z, err := m.Get("k0", nil); err != nil || z != io.Closer(owned["k0"]) {
							t.failf("within", "Get of a present key within a creation gave %v,%v", z, err)
						}
						if !m.Remove("k0") {
							t.failf("within", "Remove within a creation finds nothing")
						}
						gone[owned["k0"]] = true
					}
					if nested == 2 {
						closes++
						first = m.Close()
					}
				}
				return x, nil
			})
			all = append(all, x)
			owned[k] = x
			if err == nil && got != io.Closer(x) {
				t.failf("get", "Get(%q) gave %v,%v", k, got, err)
			}
			if closes == 0 && err != nil {
				t.failf("get", "Get(%q) gave %v", k, err)
			}
		}
		if closes == 0 {
			first = m.Close()
		} else if err := m.Close(); err != nil {
			t.failf("close-again", "closing again reports %v", err)
		}
	})
	t.setCase("within %d: noise %s %d resources, closings use the manager: %v nested %d", e, nz, n, log, nested)
	t.quiet()
	lines := errLines(first)
	for _, x := range all {
		want := int32(1)
		if gone[x] {
			want = 0
		}
		if x.closed != want {
			t.failf("close-count", "resource %d of %d (removed before: %v) was closed %d times", x.id, n, gone[x], x.closed)
		}
		if x.closeErr != nil && !gone[x] && !(closes == 1 && x.id == n-1) && lines[x.closeErr.Error()] != 1 {
			t.failf("close-error", "resource %d failed to close but Close reports %v", x.id, first)
		}
	}
	t.eval()
	t.count("resources", int64(len(all)))
	t.seen(fmt.Sprint("within", n, log, nested))
}

// c07pending closes the manager while creations are blocked.
func c07pending(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	m := xsync.NewResourceManager()
	n := 1 + r.Intn(3)
	waiters := r.Intn(3)
	outcome := make([]int, n)
	for i := range outcome {
		outcome[i] = r.Intn(4)
	}
	nz := t.noise()
	t.setCase("pending %d: %d creations, %d waiters each, outcomes %v, noise %s", e, n, waiters, outcome, nz)
	owned := &resource{id: 500, closeErr: errors.New("close error of 500")}
	if _, err := m.Get("owned", func() (io.Closer, error) { return owned, nil }); err != nil {
		t.failf("get", "%v", err)
	}
	gate := make(chan struct{})
	made := make([]*resource, n)
	type out struct {
		x   io.Closer
		err error
	}
	outs := make([][]out, n)
	var ds []<-chan struct{}
	for i := 0; i < n; i++ {
		i := i
		outs[i] = make([]out, waiters+1)
		create := func() (io.Closer, error) {
			<-gate
			if outcome[i] == 0 {
				return nil, errors.New("no resource")
			}
			made[i] = &resource{id: i}
			if outcome[i] == 1 {
				made[i].closeErr = fmt.Errorf("close error of %d", i)
			}
			return made[i], nil
		}
		for w := 0; w <= waiters; w++ {
			w := w
			ds = append(ds, t.spawn("pending request", func() {
				outs[i][w].x, outs[i][w].err = m.Get(fmt.Sprint("k", i), create)
			}))
		}
	}
	t.quiesce("requests with blocked creations")
	var err1 error
	cd := t.spawn("close during creations", func() { err1 = m.Close() })
	if r.Intn(2) == 0 {
		// close may wait for the creations or not
		t.quiesce("close during creations")
	}
	close(gate)
	for _, d := range ds {
		t.await(d, "request pending during close")
	}
	t.await(cd, "close during creations")
	t.quiet()
	if owned.closed != 1 {
		t.failf("close-count", "an owned resource was closed %d times", owned.closed)
	}
	if errLines(err1)["close error of 500"] != 1 {
		t.failf("close-error", "Close reports %v", err1)
	}
	for i := range outs {
		if made[i] != nil && made[i].closed != 1 {
			t.failf("close-count", "a resource whose creation was pending during Close was closed %d times", made[i].closed)
		}
		for _, o := range outs[i] {
			if o.err == nil && (o.x == nil || o.x.(*resource).closed != 1) {
				t.failf("after-close", "a pending request got %v, %v", o.x, o.err)
			}
		}
	}
	t.eval()
	t.count("resources", int64(n+1))
	t.seen(fmt.Sprint("pending", n, waiters, outcome, nz))
}

// ---- C08 -----------------------------------------------------------------

type cellStruct struct {
	ID int
	F  []int
}

type cellErr struct{ id int }

func (c cellErr) Error() string { return fmt.Sprint("cell error ", c.id) }

// cellValue makes a value of some type that carries id; kind 0 is nil.
func cellValue(kind, id int) interface{} {
	switch kind {
	case 0:
		return nil
	case 1:
		return id
	case 2:
		return fmt.Sprint("s", id)
	case 3:
		return []int{id}
	case 4:
		return map[string]int{"id": id}
	case 5:
		return func() int { return id }
	case 6:
		return &cellStruct{ID: id}
	case 7:
		return cellStruct{ID: id, F: []int{id}}
	case 8:
		return cellErr{id}
	case 9:
		return error(&cellErr{id})
	case 10:
		return float64(id)
	case 11:
		return [1]int{id}
	case 12:
		return (*int)(nil)
	case 13:
		return false
	case 14:
		return math.NaN()
	case 15:
		return errors.New("")
	case 16:
		return ""
	case 17:
		return struct{}{}
	case 18:
		return 0
	case 19:
		return [0]func(){}
	case 20:
		return (error)((*cellErr)(nil))
	}
	return int64(id)
}

func cellID(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case []int:
		return fmt.Sprint("slice", x[0])
	case map[string]int:
		return fmt.Sprint("map", x["id"])
	case func() int:
		return fmt.Sprint("func", x())
	case *cellStruct:
		return fmt.Sprint("ptr", x.ID)
	case cellStruct:
		return fmt.Sprint("struct", x.ID, x.F[0])
	case *cellErr:
		if x == nil {
			return "nil errp"
		}
		return fmt.Sprint("errp", x.id)
	}
	return fmt.Sprintf("%T:%v", v, v)
}

const cellKinds = 22

func c08(t *T) {
	t.rule = "one evaluation = one write-once cell (value or channel) written by 1..6 goroutines with values of mixed types (nil, slices, maps, functions, structs, ...) while readers or receivers run; the oracle derives from the recorded intervals which write had to win and what every read and receive had to give; non-trivial = two writes, or a write and a read, overlapped; distinct = distinct order of calls, returns and outcomes"
	for e := 0; e < t.n(6000); e++ {
		c08value(t, e)
	}
	for e := 0; e < t.n(6000); e++ {
		c08chan(t, e)
	}
	for e := 0; e < t.n(300); e++ {
		c08seq(t, e)
	}
}

func winner(t *T, ops []hop) *hop {
	var w *hop
	writes := 0
	for i := range ops {
		if ops[i].Op == "write" {
			writes++
			if ops[i].Out.(bool) {
				if w != nil {
					t.fail("two-winners", "two writes report success", render(ops))
				}
				w = &ops[i]
			}
		}
	}
	if writes > 0 && w == nil {
		t.fail("no-winner", "no write reports success", render(ops))
	}
	for _, o := range ops {
		if w != nil && o.Op == "write" && !o.Out.(bool) && o.Ret < w.Call {
			t.fail("first", "a write failed before the winning write began", render(ops))
		}
	}
	return w
}

func c08value(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	writers, readers := 1+r.Intn(5), r.Intn(4)
	per := 1 + r.Intn(3)
	sameKind := r.Intn(3) == 0
	nz := t.noise()
	t.setCase("value %d: noise %s, %d writers x %d, %d readers", e, nz, writers, per, readers)
	cell := xonce.NewValue()
	h := newHist(writers + readers + 1)
	var fns []func()
	k0 := r.Intn(cellKinds)
	for c := 0; c < writers+readers; c++ {
		c, seed := c, r.Int63()
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			for i := 0; i < per*2; i++ {
				if c < writers && i < per {
					k := rr.Intn(cellKinds)
					if sameKind {
						k = k0
					}
					v := cellValue(k, c*10+i)
					o := hop{Client: c, Op: "write", In: cellID(v)}
					o.Call = now()
					ok := cell.Write(v)
					o.Ret = now()
					o.Out = ok
					h.add(o)
				} else {
					o := hop{Client: c, Op: "read"}
					o.Call = now()
					v := cell.Value()
					o.Ret = now()
					o.Out = cellID(v)
					h.add(o)
				}
			}
		})
	}
	t.par("writes and reads of a write-once value", fns...)
	t.quiet()
	for i := 0; i < 2; i++ {
		o := hop{Client: writers + readers, Op: "read", Call: now()}
		v := cell.Value()
		o.Ret = now()
		o.Out = cellID(v)
		h.add(o)
	}
	if cell.Write(1) {
		t.failf("two-winners", "a write after the winning write reports success")
	}
	ops := h.all()
	w := winner(t, ops)
	firstSeen := never
	for _, o := range ops {
		if o.Op == "read" && o.Out == w.In && o.Ret < firstSeen {
			firstSeen = o.Ret
		}
	}
	for _, o := range ops {
		if o.Op != "read" {
			continue
		}
		switch {
		case o.Out == w.In:
			if o.Ret < w.Call && w.In != "nil" {
				t.fail("early", "the value was read before its write began", render(ops))
			}
		case o.Out == "nil":
			if o.Call > w.Ret || o.Call > firstSeen {
				t.fail("unset", "the value reads as unset after the winning write returned or was seen", render(ops))
			}
		default:
			t.fail("wrong-value", fmt.Sprintf("the value reads as %v, the winner wrote %v", o.Out, w.In), render(ops))
		}
	}
	t.eval()
	t.count("operations", int64(len(ops)))
	if overlaps(ops) > 0 {
		t.seen(shape(ops))
	}
	if e == 9 {
		t.sample(map[string]interface{}{"cell": "value", "noise": nz, "history": render(ops)})
	}
}

func c08chan(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	writers, receivers := 1+r.Intn(5), r.Intn(4)
	per := 1 + r.Intn(3)
	nz := t.noise()
	t.setCase("chan %d: noise %s, %d writers x %d, %d receivers", e, nz, writers, per, receivers)
	cell := xonce.NewChan()
	early := cell.Chan()
	select {
	case v, ok := <-early:
		t.failf("early", "an unwritten channel delivered %v,%v", v, ok)
	default:
	}
	h := newHist(writers + receivers + 1)
	var fns []func()
	for c := 0; c < writers; c++ {
		c, seed := c, r.Int63()
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			for i := 0; i < per; i++ {
				v := cellValue(rr.Intn(cellKinds), c*10+i)
				o := hop{Client: c, Op: "write", In: cellID(v)}
				o.Call = now()
				ok := cell.Write(v)
				o.Ret = now()
				o.Out = ok
				h.add(o)
			}
		})
	}
	for c := writers; c < writers+receivers; c++ {
		c := c
		polls := r.Intn(2) == 0
		fns = append(fns, func() {
			for {
				o := hop{Client: c, Op: "recv"}
				var v interface{}
				var ok bool
				o.Call = now()
				if polls {
					select {
					case v, ok = <-cell.Chan():
					default:
						runtime.Gosched()
						continue
					}
				} else {
					v, ok = <-cell.Chan()
				}
				o.Ret = now()
				if !ok {
					o.Op = "end"
					h.add(o)
					return
				}
				o.Out = cellID(v)
				h.add(o)
			}
		})
	}
	t.par("writes and receives of a write-once channel", fns...)
	t.quiet()
	if cell.Write("late") {
		t.failf("two-winners", "a write after the winning write reports success")
	}
	t.do("late receiver", func() {
		for i := 0; i < 3; i++ {
			o := hop{Client: writers + receivers, Op: "recv", Call: now()}
			v, ok := <-early
			o.Ret = now()
			if !ok {
				o.Op = "end"
				h.add(o)
				break
			}
			o.Out = cellID(v)
			h.add(o)
		}
		for i := 0; i < 2; i++ {
			if v, ok := <-cell.Chan(); ok {
				t.failf("twice", "a drained channel delivered %v", v)
			}
		}
	})
	ops := h.all()
	w := winner(t, ops)
	n := 0
	for _, o := range ops {
		switch o.Op {
		case "recv":
			n++
			if o.Out != w.In {
				t.fail("wrong-value", fmt.Sprintf("received %v, the winner wrote %v", o.Out, w.In), render(ops))
			}
			if o.Ret < w.Call {
				t.fail("early", "received before the write began", render(ops))
			}
		case "end":
			if o.Ret < w.Call {
				t.fail("early", "the channel ended before the write began", render(ops))
			}
		}
	}
	if n != 1 {
		t.fail("delivery", fmt.Sprintf("the value was delivered %d times", n), render(ops))
	}
	t.eval()
	t.count("operations", int64(len(ops)))
	if overlaps(ops) > 0 {
		t.seen("chan" + shape(ops))
	}
	if e == 9 {
		t.sample(map[string]interface{}{"cell": "channel", "noise": nz, "history": render(ops)})
	}
}

// c08seq writes all pairs of types in sequence, with blocked receivers.
func c08seq(t *T, e int) {
	t.quiet()
	a, b := e%cellKinds, (e/cellKinds)%cellKinds
	t.setCase("types %d then %d", a, b)
	v := xonce.NewValue()
	t.do("sequential writes of a value", func() {
		if v.Value() != nil {
			t.failf("unset", "an unwritten value reads as %v", v.Value())
		}
		first := cellValue(a, 1)
		if !v.Write(first) {
			t.failf("no-winner", "the first write of a %T reports failure", first)
		}
		for i := 0; i < 2; i++ {
			if v.Write(cellValue(b, 2)) {
				t.failf("two-winners", "writing a %T after a %T reports success", cellValue(b, 2), first)
			}
			if cellID(v.Value()) != cellID(first) {
				t.failf("wrong-value", "reads as %s after writing %s", cellID(v.Value()), cellID(first))
			}
		}
	})
	c := xonce.NewChan()
	got := make([]string, 3)
	var ds []<-chan struct{}
	n := e % 3
	for i := 0; i < n; i++ {
		i := i
		ds = append(ds, t.spawn("blocked receiver", func() {
			x, ok := <-c.Chan()
			if ok {
				got[i] = cellID(x)
			} else {
				got[i] = "closed"
			}
		}))
	}
	if n > 0 {
		t.quiesce("blocked receivers")
		for _, d := range ds {
			if isDone(d) {
				t.failf("early", "a receive from an unwritten channel completed")
			}
		}
	}
	var wg sync.WaitGroup
	wg.Add(1)
	t.do("sequential writes of a channel", func() {
		defer wg.Done()
		if !c.Write(cellValue(a, 1)) || c.Write(cellValue(b, 2)) || c.Write(cellValue(a, 1)) {
			t.failf("two-winners", "channel writes of %d then %d report wrong results", a, b)
		}
	})
	wg.Wait()
	for _, d := range ds {
		t.await(d, "receiver of a written channel")
	}
	values := 0
	for _, g := range got[:n] {
		if g == cellID(cellValue(a, 1)) {
			values++
		} else if g != "closed" {
			t.failf("wrong-value", "received %s", g)
		}
	}
	if n > 0 && values != 1 {
		t.failf("delivery", "%d receivers got the value %d times", n, values)
	}
	// the write has returned: nothing is left to wait for
	poll := func() (interface{}, bool) {
		select {
		case x, ok := <-c.Chan():
			return x, ok
		default:
			t.failf("late", "a receive after the write of a %T returned would block", cellValue(a, 1))
			return nil, false
		}
	}
	if n == 0 {
		x, ok := poll()
		if !ok || cellID(x) != cellID(cellValue(a, 1)) {
			t.failf("delivery", "received %v,%v", x, ok)
		}
	}
	if x, ok := poll(); ok {
		t.failf("twice", "received %v from a drained channel", x)
	}
	t.eval()
	t.seen(fmt.Sprint("types", a, b, n))
}

"""Planted bugs: edits to /repo and a demonstration for each (see seeds.py)."""
SEEDS = []


def S(id, pkg, edits, demo, needs, breaks, **kw):
    SEEDS.append(dict(id=id, property=id[:3].upper(), pkg=pkg, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw))


IMP = lambda *a: "import (\n" + "".join('\t"%s"\n' % x for x in a) + ")\n"
G = "github.com/chenquan/go-pkg/"

# ---------------------------------------------------------------- xsync.Map
S("c01-load-stale-read", "xsync", [("xsync/map.go", """		// not worth copying the dirty map for this key.)
		read, _ = m.read.Load().(readOnly)
		e, ok = read.m[key]
		if !ok && read.amended {
			e, ok = m.dirty[key]
			// Regardless""", """		// not worth copying the dirty map for this key.)
		if read.amended {
			e, ok = m.dirty[key]
			// Regardless""")],
  IMP("testing", "time", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := &xsync.Map{}
	m.Store("a", 1)
	type res struct {
		v  interface{}
		ok bool
	}
	c := make(chan res, 1)
	m.ComputeIfPresent("a", func(_, v interface{}) interface{} {
		go func() {
			v, ok := m.Load("a")
			c <- res{v, ok}
		}()
		time.Sleep(100 * time.Millisecond)
		return v
	})
	if r := <-c; !r.ok || r.v != 1 {
		t.Fatal("present key not found:", r)
	}
}
""", "a Load waiting for the lock while another operation promotes the dirty map",
  "a load misses (or panics on) a key that is present")

S("c01-loadorstore-stale-read", "xsync", [("xsync/map.go", """	m.mu.Lock()
	read, _ = m.read.Load().(readOnly)
	if e, ok := read.m[key]; ok {
		if e.unexpungeLocked() {
			m.dirty[key] = e
		}
		actual, loaded, _ = e.tryLoadOrStore(value)""", """	m.mu.Lock()
	if !read.amended {
		read, _ = m.read.Load().(readOnly)
	}
	if e, ok := read.m[key]; ok {
		if e.unexpungeLocked() {
			m.dirty[key] = e
		}
		actual, loaded, _ = e.tryLoadOrStore(value)""")],
  IMP("testing", "time", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := &xsync.Map{}
	m.Store("a", 1)
	c := make(chan bool, 1)
	m.ComputeIfPresent("a", func(_, v interface{}) interface{} {
		go func() {
			defer func() {
				if recover() != nil {
					c <- false
				}
			}()
			v, loaded := m.LoadOrStore("a", 2)
			c <- loaded && v == 1
		}()
		time.Sleep(100 * time.Millisecond)
		return v
	})
	select {
	case ok := <-c:
		if !ok {
			t.Fatal("LoadOrStore did not find the present key")
		}
	case <-time.After(10 * time.Second):
		t.Fatal("LoadOrStore hangs")
	}
}
""", "a LoadOrStore waiting for the lock while another operation promotes the dirty map",
  "LoadOrStore works on an outdated read part: crash or lost value")

S("c03-mstore-keeps-old", "xsync", [("xsync/shared_map.go", """	for key, value := range data {
		m.Store(key, value)
	}""", """	for key, value := range data {
		m.GetShard(key).LoadOrStore(key, value)
	}""")],
  IMP("testing", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := xsync.NewSharedMap()
	m.Store("a", 1)
	m.MStore(map[string]interface{}{"a": 2, "b": 3})
	if v, _ := m.Load("a"); v != 2 {
		t.Fatal("bulk store is not a store:", v)
	}
}
""", "a bulk store over a key already present", "a bulk store is not the same as storing each pair")

S("c02-range-shard-stop", "xsync", [("xsync/shared_map.go", """			b = fn(key, value)
			return b
		})""", """			b = fn(key, value)
			return true
		})""")],
  IMP("testing", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := xsync.NewSharedMap(xsync.WithShardBlockSize(1))
	for i := 0; i < 10; i++ {
		m.Store(string(rune('a'+i)), i)
	}
	calls := 0
	m.Range(func(k, v interface{}) bool { calls++; return calls < 3 })
	if calls != 3 {
		t.Fatal(calls, "calls")
	}
}
""", "stopping an iteration before the last key of a shard", "the callback is called again after it returned false")

S("c04-absent-loser-value", "xsync", [("xsync/map.go", """	i := computeFunc(key)
	ic := i
	for {
		if atomic.CompareAndSwapPointer(&e.p, nil, unsafe.Pointer(&ic)) {
			return i, false, true
		}
		p = atomic.LoadPointer(&e.p)
		if p == expunged {
			return nil, false, false
		}
		if p != nil {
			return *(*interface{})(p), true, true
		}
	}
""", """	i := computeFunc(key)
	ic := i
	for {
		if atomic.CompareAndSwapPointer(&e.p, nil, unsafe.Pointer(&ic)) {
			return i, false, true
		}
		p = atomic.LoadPointer(&e.p)
		if p == expunged {
			return nil, false, false
		}
		if p != nil {
			return i, true, true
		}
	}
""")],
  IMP("testing", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := &xsync.Map{}
	m.Store("a", 1)
	m.Range(func(k, v interface{}) bool { return true })
	m.Delete("a")
	got, _ := m.ComputeIfAbsent("a", func(interface{}) interface{} {
		m.Store("a", "winner")
		return "loser"
	})
	now, _ := m.Load("a")
	if got != now {
		t.Fatal("returned", got, "installed", now)
	}
}
""", "two computations of one absent key that both started on the fast path",
  "a loser returns its own value instead of the installed one")

S("c03-has-nil", "xsync", [("xsync/shared_map.go", """	_, ok := shard.Load(key)
	return ok
}""", """	v, _ := shard.Load(key)
	return v != nil
}""")],
  IMP("testing", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := xsync.NewSharedMap()
	m.Store("a", nil)
	if !m.Has("a") {
		t.Fatal("present key not found")
	}
}
""", "a key holding nil", "a present key is reported absent")

S("c03-shard-by-rune", "xsync", [("xsync/shared_map.go", """	keyLength := len(key)
	for i := 0; i < keyLength; i++ {
		hash *= prime32
		hash ^= uint32(key[i])
	}
	return hash""", """	for i, c := range key {
		hash *= prime32
		hash ^= uint32(c)
		if i >= 32 {
			// long keys: the rest decides by its length only
			return hash ^ uint32(cap([]byte(key)))
		}
	}
	return hash""")],
  IMP("strings", "testing", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := xsync.NewSharedMap()
	for n := 33; n < 300; n++ {
		k := strings.Repeat("k", n)
		m.Store(k, 1)
		if _, ok := m.Load(k); !ok {
			t.Fatal("long key lost")
		}
	}
}
""", "-", "-")
SEEDS.pop()  # the capacity is a function of the length: keeps the property

S("c02-range-lost-recheck", "xsync", [("xsync/map.go", """		m.mu.Lock()
		read, _ = m.read.Load().(readOnly)
		if read.amended {
			read = readOnly{m: m.dirty}
			m.read.Store(read)
			m.dirty = nil
			m.misses = 0
		}
		m.mu.Unlock()""", """		m.mu.Lock()
		read = readOnly{m: m.dirty}
		m.read.Store(read)
		m.dirty = nil
		m.misses = 0
		m.mu.Unlock()""")],
  IMP("testing", "time", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := &xsync.Map{}
	m.Store("a", 1)
	c := make(chan int, 1)
	m.ComputeIfPresent("a", func(_, v interface{}) interface{} {
		go func() {
			n := 0
			m.Range(func(k, v interface{}) bool { n++; return true })
			c <- n
		}()
		time.Sleep(100 * time.Millisecond)
		return v
	})
	if n := <-c; n != 1 {
		t.Fatal("a key present throughout was reported", n, "times")
	}
}
""", "an iteration waiting for the lock while another operation promotes the dirty map", "the iteration reports nothing and empties the map", also=["C01"])

S("c04-present-load-store", "xsync", [("xsync/map.go", """		actual, loaded, ok := e.tryComputeIfPresent(key, computeFunc)
		if ok {
			return actual, loaded
		}
	}
	m.mu.Lock()""", """		if v, ok := e.load(); ok {
			value := computeFunc(key, v)
			if e.tryStore(&value) {
				return value, true
			}
		}
	}
	m.mu.Lock()""")],
  IMP("testing", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := &xsync.Map{}
	m.Store("a", 1)
	m.Range(func(k, v interface{}) bool { return true })
	first := true
	m.ComputeIfPresent("a", func(_, v interface{}) interface{} {
		if first {
			first = false
			m.ComputeIfPresent("a", func(_, v interface{}) interface{} { return v.(int) + 10 })
		}
		return v.(int) + 1
	})
	if v, _ := m.Load("a"); v != 12 {
		t.Fatal(v)
	}
}
""", "two updates of one key that overlap on the fast path", "an update is lost", also=["C01"])

S("c04-absent-recompute", "xsync", [("xsync/map.go", """	i := computeFunc(key)
	ic := i
	for {
		if atomic.CompareAndSwapPointer(&e.p, nil, unsafe.Pointer(&ic)) {
			return i, false, true
		}
		p = atomic.LoadPointer(&e.p)
		if p == expunged {
			return nil, false, false
		}
		if p != nil {
			return *(*interface{})(p), true, true
		}
	}
}

// ---------------------------

// ComputeIfPresent""", """	i := computeFunc(key)
	atomic.StorePointer(&e.p, unsafe.Pointer(&i))
	return i, false, true
}

// ---------------------------

// ComputeIfPresent""")],
  IMP("testing", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := &xsync.Map{}
	m.Store("a", 1)
	m.Range(func(k, v interface{}) bool { return true })
	m.Delete("a")
	var inner interface{}
	outer, _ := m.ComputeIfAbsent("a", func(interface{}) interface{} {
		inner, _ = m.ComputeIfAbsent("a", func(interface{}) interface{} { return "inner" })
		return "outer"
	})
	if inner != outer {
		t.Fatal(inner, outer)
	}
}
""", "two computations of one absent key on the fast path", "both install their value", also=["C01"])

# ---------------------------------------------------------------- spin lock
S("c05-ttas", "xsync", [("xsync/spinlock.go", """	return atomic.CompareAndSwapUint32(&lock.lock, 0, 1)""", """	if atomic.LoadUint32(&lock.lock) != 0 {
		return false
	}
	return atomic.SwapUint32(&lock.lock, 1) <= 1""")],
  IMP("testing", "sync", "sync/atomic", G + "xsync") + """
func TestDemo(t *testing.T) {
	var l xsync.Spinlock
	var in, bad int32
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200000; i++ {
				l.Lock()
				if atomic.AddInt32(&in, 1) != 1 {
					atomic.AddInt32(&bad, 1)
				}
				atomic.AddInt32(&in, -1)
				l.Unlock()
			}
		}()
	}
	wg.Wait()
	if bad != 0 {
		t.Fatal(bad, "times two holders")
	}
}
""", "two goroutines seeing the lock free at the same moment", "two goroutines hold the lock", timeout=120)

S("c05-trylock-waits", "xsync", [("xsync/spinlock.go", """	for !lock.TryLock() {""", """	for spins := 0; !lock.TryLock() && spins < 1<<16; spins++ {""")],
  IMP("testing", "sync", "sync/atomic", "time", G + "xsync") + """
func TestDemo(t *testing.T) {
	var l xsync.Spinlock
	l.Lock()
	var got int32
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		l.Lock()
		atomic.StoreInt32(&got, 1)
	}()
	time.Sleep(3 * time.Second)
	if atomic.LoadInt32(&got) != 0 {
		t.Fatal("the lock was granted while held")
	}
	l.Unlock()
	wg.Wait()
}
""", "a holder that keeps the lock for many backoff rounds of a waiter", "a waiter gives up and enters while the lock is held")

# ---------------------------------------------------------------- resource manager
S("c06-flight-key", "xsync", [("xsync/resourcemanager.go", "	val, err, _ := m.singleFlight.Do(key, func()", "	val, err, _ := m.singleFlight.Do(strings.ToLower(key), func()"),
                              ("xsync/resourcemanager.go", '	"io"\n', '	"io"\n	"strings"\n')],
  IMP("io", "testing", "time", G + "xsync") + """
type res struct{ name string }

func (r *res) Close() error { return nil }

func TestDemo(t *testing.T) {
	m := xsync.NewResourceManager()
	gate := make(chan bool)
	go m.Get("Key", func() (io.Closer, error) { <-gate; return &res{"Key"}, nil })
	time.Sleep(50 * time.Millisecond)
	c := make(chan io.Closer, 1)
	go func() {
		r, _ := m.Get("key", func() (io.Closer, error) { return &res{"key"}, nil })
		c <- r
	}()
	select {
	case r := <-c:
		if r.(*res).name != "key" {
			t.Fatal("got the resource of", r.(*res).name)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("requests for different keys wait for each other")
	}
	close(gate)
}
""", "concurrent first requests for two keys differing only in case", "a request gets another key's resource and waits for it")

S("c06-get-after-create", "xsync", [("xsync/resourcemanager.go", """		resource, err := create()
		if err != nil {
			return nil, err
		}
""", """		resource, err := create()
		if err != nil && resource == nil {
			return nil, err
		}
""")],
  IMP("errors", "io", "testing", G + "xsync") + """
type res struct{}

func (r *res) Close() error { return nil }

func TestDemo(t *testing.T) {
	m := xsync.NewResourceManager()
	e := errors.New("x")
	if _, err := m.Get("k", func() (io.Closer, error) { return &res{}, e }); err != e {
		t.Fatal("a failed creation is not reported:", err)
	}
	calls := 0
	m.Get("k", func() (io.Closer, error) { calls++; return &res{}, nil })
	if calls != 1 {
		t.Fatal("a failed creation is remembered")
	}
}
""", "a creation function that fails but returns a half-made resource along with the error", "a failed creation is taken for a success and remembered")

S("c06-remove-race", "xsync", [("xsync/resourcemanager.go", """	m.rw.Lock()
	if _, exist = m.resources[key]; exist {
		delete(m.resources, key)
	}
	m.rw.Unlock()
	return""", """	m.rw.RLock()
	_, exist = m.resources[key]
	m.rw.RUnlock()
	if exist {
		go func() {
			m.rw.Lock()
			delete(m.resources, key)
			m.rw.Unlock()
		}()
	}
	return""")],
  IMP("io", "testing", G + "xsync") + """
type res struct{ n int }

func (r *res) Close() error { return nil }

func TestDemo(t *testing.T) {
	m := xsync.NewResourceManager()
	for i := 0; i < 20000; i++ {
		a, _ := m.Get("k", func() (io.Closer, error) { return &res{i}, nil })
		m.Remove("k")
		b, _ := m.Get("k", func() (io.Closer, error) { return &res{i}, nil })
		if a == b {
			t.Fatal("a removed resource was returned")
		}
	}
}
""", "a request right after a removal", "the removed resource is returned, or the new one dropped")

S("c07-close-first-error", "xsync", [("xsync/resourcemanager.go", """		if err := resource.Close(); err != nil {
			be.Add(err)
		}
	}
	return be.Err()
""", """		if err := resource.Close(); err != nil {
			be.Add(err)
			break
		}
	}
	return be.Err()
""")],
  IMP("errors", "fmt", "io", "testing", G + "xsync") + """
type res struct{ closed *int }

func (r *res) Close() error { *r.closed++; return errors.New("e") }

func TestDemo(t *testing.T) {
	m := xsync.NewResourceManager()
	n := 0
	for i := 0; i < 3; i++ {
		m.Get(fmt.Sprint(i), func() (io.Closer, error) { return &res{&n}, nil })
	}
	m.Close()
	if n != 3 {
		t.Fatal(n, "of 3 resources closed")
	}
}
""", "several resources of which one fails to close", "resources are left open")

S("c07-close-reopens", "xsync", [("xsync/resourcemanager.go", """			be.Add(err)
		}
	}
	return be.Err()""", """			be.Add(err)
		}
	}
	m.rw.Lock()
	m.resources = map[string]io.Closer{}
	m.rw.Unlock()
	return be.Err()""")],
  IMP("io", "testing", "time", G + "xsync") + """
type res struct{ closed *int }

func (r *res) Close() error { *r.closed++; return nil }

func TestDemo(t *testing.T) {
	m := xsync.NewResourceManager()
	n := 0
	gate, done := make(chan bool), make(chan bool)
	go func() {
		m.Get("k", func() (io.Closer, error) { <-gate; return &res{&n}, nil })
		close(done)
	}()
	time.Sleep(50 * time.Millisecond)
	m.Close()
	close(gate)
	<-done
	if n != 1 {
		t.Fatal("the resource created while closing was closed", n, "times")
	}
}
""", "a creation that ends after the close", "a resource created by the manager is never closed")

# ---------------------------------------------------------------- xonce
# ---------------------------------------------------------------- barriers
S("c08-chan-nil", "xonce", [("xonce/chan.go", """		c.channel <- v
""", """		if v != nil {
			c.channel <- v
		}
""")],
  IMP("testing", G + "xonce") + """
func TestDemo(t *testing.T) {
	c := xonce.NewChan()
	c.Write(nil)
	if _, ok := <-c.Chan(); !ok {
		t.Fatal("the written nil is not delivered")
	}
}
""", "writing nil", "the winner's value is not delivered")

S("c09-write-unbuffered", "xbarrier", [("xbarrier/writebarrier.go", """	select {
	case <-w.ctx.Done():
		return
	default:
	}
""", """	if cap(w.writeChannel) > 0 {
		select {
		case <-w.ctx.Done():
			return
		default:
		}
	}
""")],
  IMP("context", "testing", "time", G + "xbarrier") + """
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	c := make(chan interface{})
	got := make(chan interface{}, 100)
	go func() {
		for v := range c {
			got <- v
		}
	}()
	for i := 0; i < 100; i++ {
		time.Sleep(time.Millisecond)
		if xbarrier.NewWriteBarrier(ctx, c).Write(i) {
			t.Fatal("a write succeeded after the cancellation")
		}
	}
}
""", "a write after the cancellation to an unbuffered channel with a waiting receiver", "the write may succeed")

S("c09-read-unbuffered", "xbarrier", [("xbarrier/readbarrier.go", """	select {
	case <-r.ctx.Done():
		return nil, false
	default:
	}
""", """	if cap(r.readChannel) > 0 {
		select {
		case <-r.ctx.Done():
			return nil, false
		default:
		}
	}
""")],
  IMP("context", "testing", "time", G + "xbarrier") + """
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	c := make(chan interface{})
	go func() {
		for {
			c <- 1
		}
	}()
	for i := 0; i < 100; i++ {
		time.Sleep(time.Millisecond)
		if _, ok := xbarrier.NewReadBarrier(ctx, c).Read(); ok {
			t.Fatal("a read succeeded after the cancellation")
		}
	}
}
""", "a read after the cancellation from an unbuffered channel with a waiting sender", "the read may consume the value")

# ---------------------------------------------------------------- xtask
S("c10-done-unbuffered", "xtask", [("xtask/do.go", "doneChan := make(chan error, 1)", "doneChan := make(chan error)")],
  IMP("context", "runtime", "testing", "time", G + "xtask") + """
func TestDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		gate := make(chan bool)
		go cancel()
		xtask.Do(ctx, func() error { <-gate; return nil }, nil)
		close(gate)
	}
	time.Sleep(500 * time.Millisecond)
	if n := runtime.NumGoroutine() - before; n > 10 {
		t.Fatal(n, "goroutines left behind")
	}
}
""", "a function that returns after its context ended", "its goroutine never ends")

S("c10-panic-unbuffered", "xtask", [("xtask/do.go", "panicChan := make(chan interface{}, 1)", "panicChan := make(chan interface{})")],
  IMP("context", "runtime", "testing", "time", G + "xtask") + """
func TestDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		gate := make(chan bool)
		go cancel()
		xtask.Do(ctx, func() error { <-gate; panic("late") }, nil)
		close(gate)
	}
	time.Sleep(500 * time.Millisecond)
	if n := runtime.NumGoroutine() - before; n > 10 {
		t.Fatal(n, "goroutines left behind")
	}
}
""", "a function that panics after its context ended", "its goroutine never ends")

S("c11-zero-means-default", "xtask", [("xtask/retry.go", """		opt(options)
	}

	var batchError""", """		opt(options)
	}
	if options.times == 0 {
		options.times = defaultRetryTimes
	}

	var batchError""")],
  IMP("errors", "testing", G + "xtask") + """
func TestDemo(t *testing.T) {
	n := 0
	xtask.DoWithRetry(func() error { n++; return errors.New("x") }, xtask.WithRetry(0))
	if n != 1 {
		t.Fatal(n, "calls with no retries allowed")
	}
}
""", "zero retries", "more calls than configured")

S("c11-same-error-once", "xtask", [("xtask/retry.go", """			batchError.Add(err)
""", """			if err != last {
				batchError.Add(err)
			}
			last = err
"""), ("xtask/retry.go", """	var batchError xerror.BatchError
""", """	var batchError xerror.BatchError
	var last error
""")],
  IMP("errors", "testing", G + "xtask") + """
func TestDemo(t *testing.T) {
	e := errors.New("x")
	err := xtask.DoWithRetry(func() error { return e }, xtask.WithRetry(1))
	if err.Error() != "x\\nx" {
		t.Fatalf("%q", err)
	}
}
""", "two attempts failing with the same error value", "an attempt's error is missing from the result (and uncomparable errors panic)")

# ---------------------------------------------------------------- xworker
S("c12-slot-before-cleanup", "xworker", [("xworker/xworker.go", """			deferFunc()
			<-w.c""", """			<-w.c
			deferFunc()""")],
  IMP("context", "testing", "time", G + "xworker") + """
func TestDemo(t *testing.T) {
	w := xworker.NewWorker(1)
	gate, cleaning, second := make(chan bool), make(chan bool), make(chan bool)
	w.Run(context.Background(), func() {}, func() { close(cleaning); <-gate })
	<-cleaning
	go w.Run(context.Background(), func() { close(second) }, func() {})
	select {
	case <-second:
		t.Fatal("two tasks in progress in a worker of size 1")
	case <-time.After(300 * time.Millisecond):
	}
	close(gate)
	<-second
}
""", "a submission while a finished task is cleaning up", "more tasks in progress than the size")

S("c12-late-acquire", "xworker", [("xworker/xworker.go", """	w.c <- struct{}{}

	go func() {""", """	go func() {
		w.c <- struct{}{}""")],
  IMP("context", "testing", "time", G + "xworker") + """
func TestDemo(t *testing.T) {
	w := xworker.NewWorker(1)
	gate, second := make(chan bool), make(chan bool)
	w.Run(context.Background(), func() { <-gate }, func() {})
	go func() {
		w.Run(context.Background(), func() {}, func() {})
		close(second)
	}()
	select {
	case <-second:
		t.Fatal("a submission to a full worker does not wait")
	case <-time.After(300 * time.Millisecond):
	}
	close(gate)
	<-second
}
""", "a submission while all slots are taken", "it does not wait")

# ---------------------------------------------------------------- xmapreduce
S("c13-stream-options", "xmapreduce", [("xmapreduce/xmapreduce.go", "return xstream.Range(Map(ctx, generateFunc, mapFunc, opts...))", "return xstream.Range(Map(ctx, generateFunc, mapFunc))")],
  IMP("context", "testing", "sync/atomic", "time", G + "xbarrier", G + "xmapreduce") + """
func TestDemo(t *testing.T) {
	var in, max int32
	xmapreduce.MapStream(context.Background(), func(source chan<- interface{}) {
		for i := 0; i < 20; i++ {
			source <- i
		}
	}, func(item interface{}, w xbarrier.Writer) {
		if n := atomic.AddInt32(&in, 1); n > atomic.LoadInt32(&max) {
			atomic.StoreInt32(&max, n)
		}
		time.Sleep(10 * time.Millisecond)
		atomic.AddInt32(&in, -1)
	}, xmapreduce.WithWorkerSize(1)).Done()
	if max != 1 {
		t.Fatal(max, "mappers together")
	}
}
""", "the stream form with a worker size", "the configured number of mappers is exceeded")

S("c13-worker-minus", "xmapreduce", [("xmapreduce/xmapreduce.go", "	worker := xworker.NewWorker(option.workerSize)\n", """	size := option.workerSize
	if size > 1 {
		size-- // one worker is this loop
	}
	worker := xworker.NewWorker(size)
""")],
  IMP("context", "testing", "time", G + "xbarrier", G + "xmapreduce") + """
func TestDemo(t *testing.T) {
	c := make(chan int)
	done := make(chan bool)
	go func() {
		for range xmapreduce.Map(context.Background(), func(source chan<- interface{}) {
			source <- 1
			source <- 2
		}, func(item interface{}, w xbarrier.Writer) {
			if item == 1 {
				c <- 1
			} else {
				<-c
			}
		}, xmapreduce.WithWorkerSize(2)) {
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("two mappers never run together")
	}
}
""", "mappers that must run together", "the configured number cannot run together")

S("c13-early-done", "xmapreduce", [("xmapreduce/xmapreduce.go", """			worker.Run(ctx, func() {
				mapFunc(item, writer)
			}, func() {
				waitGroup.Done()
			})""", """			worker.Run(ctx, func() {
				defer waitGroup.Done()
				mapFunc(item, writer)
			}, func() {
			})""")],
  IMP("context", "testing", "time", G + "xbarrier", G + "xmapreduce") + """
func TestDemo(t *testing.T) {
	// a mapping cancelled while one mapper runs and skipped tasks remain must still end
	for i := 0; i < 200; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		out := xmapreduce.Map(ctx, func(source chan<- interface{}) {
			for i := 0; i < 50; i++ {
				source <- i
			}
		}, func(item interface{}, w xbarrier.Writer) {
			if item == 3 {
				cancel()
			}
		}, xmapreduce.WithWorkerSize(2))
		end := time.After(5 * time.Second)
		for open := true; open; {
			select {
			case _, open = <-out:
			case <-end:
				t.Fatal("the output never ends after the cancellation")
			}
		}
		cancel()
	}
}
""", "a task skipped because the context ended between submission and start", "the output never ends", timeout=120)
SEEDS[-1]["property"] = "C14"
SEEDS[-1]["id"] = "c14-done-in-task"

S("c14-no-cancel-in-loop", "xmapreduce", [("xmapreduce/xmapreduce.go", """	for {
		select {
		case <-ctx.Done():
			return
		case item, ok := <-source:
			if !ok {
				return
			}
			waitGroup.Add(1)
			worker.Run(ctx, func() {
				mapFunc(item, writer)
			}, func() {
				waitGroup.Done()
			})
		}
	}""", """	for item := range source {
		item := item
		waitGroup.Add(1)
		worker.Run(ctx, func() {
			mapFunc(item, writer)
		}, func() {
			waitGroup.Done()
		})
	}""")],
  IMP("context", "testing", "time", G + "xbarrier", G + "xmapreduce") + """
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	gate := make(chan bool)
	out := xmapreduce.Map(ctx, func(source chan<- interface{}) {
		source <- 1
		<-gate // waits for something else
	}, func(item interface{}, w xbarrier.Writer) { w.Write(item) })
	<-out
	cancel()
	select {
	case _, ok := <-out:
		if ok {
			t.Fatal("unexpected value")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the output does not end though the context ended")
	}
	close(gate)
}
""", "-", "-")
SEEDS.pop()  # the tail drain makes the clean tree wait for the generator, too
""

# ---------------------------------------------------------------- bytes
S("c15-one-flight", "xbytes", [("xbytes/pool.go", "singleFlight.Do(strconv.Itoa(c), func()", "singleFlight.Do(strconv.Itoa(c%1024), func()")],
  IMP("testing", "sync", G + "xbytes") + """
func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		var wg, start sync.WaitGroup
		start.Add(1)
		for g := 0; g < 8; g++ {
			size := 64 + 1024*g
			wg.Add(1)
			go func() {
				defer wg.Done()
				start.Wait()
				defer func() {
					if e := recover(); e != nil {
						t.Error(e)
					}
				}()
				for j := 0; j < 20; j++ {
					if b := xbytes.MallocSize(size); cap(b) < size || len(b) != size {
						t.Error(len(b), cap(b), size)
					}
				}
			}()
		}
		start.Done()
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
""", "concurrent allocations of sizes that differ by a multiple of 1024", "an allocation is served from another size's pool", timeout=120)

S("c16-readbytes-frees", "xbinary", [("xbinary/xbinary.go", """	payload := xbytes.MallocSize(int(length))
	_, err = io.ReadFull(r, payload)
	if err != nil {
		xbytes.Free(payload)
		return nil, err
	}
""", """	payload := xbytes.MallocSize(int(length))
	defer xbytes.Free(payload)
	_, err = io.ReadFull(r, payload)
	if err != nil {
		return nil, err
	}
""")],
  IMP("bytes", "testing", G + "xbinary") + """
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		var b bytes.Buffer
		xbinary.WriteBytes(&b, []byte("first"))
		xbinary.WriteBytes(&b, []byte("other"))
		x, _ := xbinary.ReadBytes(&b)
		xbinary.ReadBytes(&b)
		if string(x) != "first" {
			t.Fatalf("%q", x)
		}
	}
}
""", "decoding a second byte string of the same length", "a decoded value changes afterwards", also=["C15"])

S("c16-bool-nonzero", "xbinary", [("xbinary/xbinary.go", """	data[0] = byte(i >> 24)
	data[1] = byte(i >> 16)
	data[2] = byte(i >> 8)
	data[3] = byte(i)
""", """	data[0] = byte(i >> 24)
	data[1] = byte(i << 8 >> 24)
	data[2] = byte(i >> 8 & 0x7f)
	data[3] = byte(i)
""")],
  IMP("bytes", "testing", G + "xbinary") + """
func TestDemo(t *testing.T) {
	for s := uint(0); s < 32; s++ {
		var b bytes.Buffer
		xbinary.WriteUint32(&b, 1<<s)
		if v, err := xbinary.ReadUint32(&b); v != 1<<s || err != nil {
			t.Fatal(s, v, err)
		}
	}
}
""", "a value with bit 15 set", "the encoding loses it")

S("c17-eof-is-empty", "xbinary", [("xbinary/xbinary.go", """	_, err = io.ReadFull(r, payload)
	if err != nil {
		xbytes.Free(payload)
		return nil, err
	}
""", """	n, err := io.ReadFull(r, payload)
	if err != nil && (err != io.EOF || n > 0) {
		xbytes.Free(payload)
		return nil, err
	}
	payload = payload[:n]
""")],
  IMP("bytes", "testing", G + "xbinary") + """
func TestDemo(t *testing.T) {
	v, err := xbinary.ReadBytes(bytes.NewReader([]byte{0, 5}))
	if err == nil {
		t.Fatal("value from a truncated stream:", v)
	}
}
""", "a stream that ends exactly after a length prefix", "the failure is hidden and a value returned")

S("c17-write-goes-on", "xbinary", [("xbinary/xbinary.go", """	if err == nil {
		_, err = w.Write(s)
	}
	return""", """	if _, e := w.Write(s); err == nil {
		err = e
	}
	return""")],
  IMP("errors", "testing", G + "xbinary") + """
type w struct{ n int }

func (w *w) Write(p []byte) (int, error) {
	w.n++
	if w.n == 1 {
		return 0, errors.New("x")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	x := &w{}
	if err := xbinary.WriteBytes(x, []byte("abc")); err == nil || x.n != 1 {
		t.Fatal(err, x.n)
	}
}
""", "a writer that fails on the length prefix", "the payload is sent after a failure")

# ---------------------------------------------------------------- xio
S("c18-put-no-reset-writer", "xio", [("xio/buffer.go", """	w.Reset(nil)
	bufWriterPool.Put(w)""", """	_ = w.Flush()
	bufWriterPool.Put(w)""")],
  IMP("bytes", "testing", G + "xio") + """
func TestDemo(t *testing.T) {
	var b bytes.Buffer
	w := xio.GetBufferWriter(&b)
	w.WriteString("not flushed")
	xio.PutBufferWriter(w)
	if b.Len() != 0 {
		t.Skip("flushing on put is no violation")
	}
}
""", "-", "-")
SEEDS.pop()

# ---------------------------------------------------------------- xring
S("c19-alias-when-aligned", "xring", [("xring/xring.go", """	elements := make([]interface{}, size)
	for""", """	if start == 0 {
		return r.elements[:size]
	}

	elements := make([]interface{}, size)
	for""")],
  IMP("testing", G + "xring") + """
func TestDemo(t *testing.T) {
	r := xring.NewRing(2)
	r.Add(1)
	r.Add(2)
	x := r.Take()
	r.Add(3)
	if x[0] != 1 {
		t.Fatal("a reported list changed:", x)
	}
}
""", "a report while the oldest element is at index 0", "the list shares the ring's memory", also=["C30"])

S("c19-index-outside-lock", "xring", [("xring/xring.go", """	r.lock.Lock()
	defer r.lock.Unlock()

	r.elements[r.index%len(r.elements)] = v
	r.index++
""", """	r.lock.Lock()
	i := r.index
	r.elements[i%len(r.elements)] = v
	r.lock.Unlock()

	r.lock.Lock()
	r.index = i + 1
	r.lock.Unlock()
""")],
  IMP("testing", "sync", G + "xring") + """
func TestDemo(t *testing.T) {
	for k := 0; k < 200; k++ {
		r := xring.NewRing(4000)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 500; i++ {
					r.Add(i)
				}
			}()
		}
		wg.Wait()
		if n := len(r.Take()); n != 4000 {
			t.Fatal(n, "of 4000 elements")
		}
	}
}
""", "two concurrent adds", "an element is lost", timeout=120)

# ---------------------------------------------------------------- xstream
S("c20-findlast-nil", "xstream", [("xstream/xstream.go", """	flag := true
	for result = range s.source {
		flag = false
	}

	if flag {
		err = ErrNoElement""", """	for result = range s.source {
	}

	if result == nil {
		err = ErrNoElement""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	if _, err := xstream.Of(1, nil).FindLast(); err != nil {
		t.Fatal(err)
	}
}
""", "a stream whose last element is nil", "last reports an empty stream")

S("c20-tail-exact", "xstream", [("xstream/ring.go", """	if r.index > n {
		size = n
		start = r.index % n
	} else {
		size = r.index
	}
""", """	if r.index > n {
		size = n
		start = r.index % n
		if start == 0 {
			start = 1 % n
		}
	} else {
		size = r.index
	}
""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	v, _ := xstream.Of(1, 2, 3, 4, 5, 6).Tail(3).FindFirst()
	if v != 4 {
		t.Fatal(v)
	}
}
""", "a tail taken from a multiple of its size", "the tail is out of order")

S("c20-distinct-nil-key", "xstream", [("xstream/xstream.go", """			k := f(item)
			if _, ok := unique[k]; !ok {""", """			k := f(item)
			if _, ok := unique[k]; !ok || k == nil {""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	if n := xstream.Of(nil, nil).Distinct(func(i interface{}) interface{} { return i }).Count(); n != 1 {
		t.Fatal(n)
	}
}
""", "a key function that returns nil twice", "duplicates stay")

S("c20-skip-all", "xstream", [("xstream/xstream.go", """	if size == 0 {
		return s
	}
""", """	if size == 0 {
		return s
	}
	if size > cap(s.source) && cap(s.source) > 0 {
		// nothing left
		startGoroutine(func() {
			drain(s.source)
		})
		return Empty()
	}
""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	if n := xstream.Of(1, 2, 3, 4, 5).Buffer(2).Skip(3).Count(); n != 2 {
		t.Fatal(n)
	}
}
""", "skipping more elements than the buffer of the stage before holds", "elements are lost")

S("c21-one-too-many", "xstream", [("xstream/xstream.go", "pool := make(chan struct{}, option.workSize)", "pool := make(chan struct{}, option.workSize+1)")],
  IMP("sync/atomic", "testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	var in, max int32
	xstream.Of(1, 2, 3, 4, 5, 6).ParallelFinish(func(interface{}) {
		if n := atomic.AddInt32(&in, 1); n > atomic.LoadInt32(&max) {
			atomic.StoreInt32(&max, n)
		}
		time.Sleep(20 * time.Millisecond)
		atomic.AddInt32(&in, -1)
	}, xstream.WithWorkSize(2))
	if max > 2 {
		t.Fatal(max)
	}
}
""", "as many items as workers at once", "one call too many at a time")

S("c21-filter-drops-options", "xstream", [("xstream/xstream.go", """		if fn(item) {
			pipe <- item
		}
	}, opts...)""", """		if fn(item) {
			pipe <- item
		}
	})""")],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	c := make(chan int)
	done := make(chan bool)
	go func() {
		// two predicates that meet
		xstream.Of(1, 2).Filter(func(i interface{}) bool {
			if i == 1 {
				c <- 1
			} else {
				<-c
			}
			return true
		}, xstream.WithWorkSize(2)).Done()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("two workers never run together")
	}
}
""", "predicates that must run together", "the configured parallelism is not available")

S("c22-allmach-no-drain", "xstream", [("xstream/xstream.go", """			isFind = false
			startGoroutine(func() {
				drain(s.source)
			})

			return""", """			isFind = false

			return""")],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	done := make(chan bool)
	xstream.From(func(source chan<- interface{}) {
		for i := 0; i < 10; i++ {
			source <- i
		}
		close(done)
	}).AllMach(func(i interface{}) bool { return i != 1 })
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the producer is blocked for ever")
	}
}
""", "a mismatch before the end of an unbuffered source", "the producer stays blocked")

S("c22-limit-stops-consuming", "xstream", [("xstream/xstream.go", """			if size == 0 {
				close(source)
			}
		}

		if size > 0 {
			close(source)
		}""", """			if size == 0 {
				break
			}
		}

		close(source)""")],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	done := make(chan bool)
	xstream.From(func(source chan<- interface{}) {
		for i := 0; i < 10; i++ {
			source <- i
		}
		close(done)
	}).Limit(2).Done()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the producer is blocked for ever")
	}
}
""", "a source longer than the limit plus its buffer", "the producer stays blocked")

S("c22-limit-late-end", "xstream", [("xstream/xstream.go", """			size--

			if size == 0 {
				close(source)
			}
		}

		if size > 0 {
			close(source)
		}""", """			size--
		}

		close(source)""")],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	stop := make(chan bool)
	defer close(stop)
	s := xstream.From(func(source chan<- interface{}) {
		for i := 0; ; i++ {
			select {
			case source <- i:
			case <-stop:
				return
			}
		}
	})
	c := make(chan int)
	go func() { c <- s.Limit(2).Count() }()
	select {
	case <-c:
	case <-time.After(3 * time.Second):
		t.Fatal("no result from a source that never ends")
	}
}
""", "a source that never ends", "the limited stream never ends")

# ---------------------------------------------------------------- texts
S("c24-live-view", "xerror", [("xerror/err.go", "		return be.errs\n", "		return &be.errs\n")],
  IMP("errors", "testing", G + "xerror") + """
func TestDemo(t *testing.T) {
	var b xerror.BatchError
	b.Add(errors.New("a"))
	b.Add(errors.New("b"))
	e := b.Err()
	b.Add(errors.New("c"))
	if e.Error() != "a\\nb" {
		t.Fatalf("%q", e)
	}
}
""", "adding after the error was taken", "an error already obtained changes")

S("c24-empty-text", "xerror", [("xerror/err.go", """		_, _ = joiner.WriteString(ea[i].Error())
""", """		if text := ea[i].Error(); text != "" {
			_, _ = joiner.WriteString(text)
		}
""")],
  IMP("errors", "testing", G + "xerror") + """
func TestDemo(t *testing.T) {
	var b xerror.BatchError
	b.Add(errors.New("a"))
	b.Add(errors.New(""))
	if e := b.Err(); e.Error() != "a\\n" {
		t.Fatalf("%q", e)
	}
}
""", "an error with an empty text", "it is not reported")

S("c25-empty-piece", "xstring", [("xstring/stringjoiner.go", """func (j *Joiner) WriteString(s string) (int, error) {
""", """func (j *Joiner) WriteString(s string) (int, error) {
	if s == "" {
		return 0, nil
	}
""")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	j := xstring.NewJoiner(xstring.WithJoinerStep(","))
	j.WriteString("a")
	j.WriteString("")
	if j.String() != "a," {
		t.Fatal(j.String())
	}
}
""", "an empty piece", "it is skipped")

S("c25-cap-without-ends", "xstring", [("xstring/stringjoiner.go", "	return j.b.Cap() + j.n\n", "	return j.b.Cap()\n")],
  IMP("testing", "strings", G + "xstring") + """
func TestDemo(t *testing.T) {
	j := xstring.NewJoiner(xstring.WithJoinerPrefix(strings.Repeat("x", 100)))
	j.WriteString("a")
	if j.Cap() < j.Len() {
		t.Fatal(j.Cap(), j.Len())
	}
}
""", "a prefix or suffix longer than the spare capacity", "the reported capacity is less than the length")

S("c26-float32-compare", "xmath", [("xmath/xmath.go", "	return float32(math.Max(float64(a), float64(b)))", """	if a > b {
		return a
	}
	return b""")],
  IMP("math", "testing", G + "xmath") + """
func TestDemo(t *testing.T) {
	n := float32(math.NaN())
	if x := xmath.MaxFloat32(n, 1); x == x {
		t.Fatal(x)
	}
}
""", "not-a-number or zeros of both signs", "not-a-number does not propagate")

S("c26-min64-sum", "xmath", [("xmath/xmath.go", "	return math.Min(a, b)\n", "	return (a + b - math.Abs(a-b)) / 2\n")],
  IMP("testing", G + "xmath") + """
func TestDemo(t *testing.T) {
	if x := xmath.MinFloat64(0.1, 1e20); x != 0.1 {
		t.Fatal(x)
	}
}
""", "arguments of different magnitude", "the result is not one of the arguments")

S("c27-center-bytes", "xstring", [("xstring/xstring.go", "	rightPads := size - leftPads - length\n", "	rightPads := size - Len(s)\n	if ch >= 0x80 {\n		rightPads = size - leftPads - len(s) + leftPads*len(string(ch))\n	}\n")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	if s := xstring.PadCenterChar("日本", 7, '＊'); xstring.Len(s) != 7 {
		t.Fatal(s)
	}
}
""", "non-ASCII text centred with a non-ASCII character", "too few characters")

S("c27-remove-latin1", "xstring", [("xstring/xstring.go", """		if v != rmVal {
			sb.WriteRune(v)
		}""", """		if v != rmVal {
			if v <= 0xff {
				sb.WriteByte(byte(v))
			} else {
				sb.WriteRune(v)
			}
		}""")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	if s := xstring.RemoveChar("né x", 'x'); s != "né " {
		t.Fatalf("%q", s)
	}
}
""", "characters between U+0080 and U+00FF", "the result is not valid UTF-8")

S("c28-no-toupper", "xstring", [("xstring/xstring.go", """			c1 = unicode.ToUpper(c1)
			c2 = unicode.ToUpper(c2)
			if c1 == c2 {
				continue
			}
""", "")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	if !xstring.EqualsIgnoreCase("ας", "ασ") {
		t.Fatal("final sigma")
	}
}
""", "characters with three case forms", "texts equal but for case are told apart")

S("c28-region-negative-start", "xstring", [("xstring/xstring.go", "	if thisStart < 0 || start < 0 || length < 0 {", "	if thisStart < 0 || length < 0 {")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	if xstring.RegionMatches("abc", false, 0, "abc", -1, 1) {
		t.Fatal("negative start")
	}
}
""", "a negative start in the second text", "a panic")

S("c28-endswith-bytes", "xstring", [("xstring/xstring.go", """	strLen := Len(str)
	suffixLen := Len(suffix)
	if suffixLen > strLen {
		return false
	}
	strOffset""", """	strLen := Len(str)
	suffixLen := Len(suffix)
	if len(suffix) > len(str) {
		return false
	}
	strOffset""")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	if !xstring.EndsWithIgnoreCase("k", "\\u212a") {
		t.Fatal("Kelvin sign")
	}
}
""", "a suffix longer in bytes but equal in characters", "a matching suffix is refused")

S("c29-marker-bytes", "xstring", [("xstring/xstring.go", "	abbrevMarkerLen := Len(abbrevMarker)", "	abbrevMarkerLen := len(abbrevMarker)")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	if s, err := xstring.Abbreviate("abcdefghij", "…", 0, 4); err != nil || s != "abc…" {
		t.Fatal(s, err)
	}
}
""", "a marker of multi-byte characters", "the width is not filled, or refused")

S("c29-fits-bytes", "xstring", [("xstring/xstring.go", """	strLen := Len(str)
	if strLen <= maxWidth {
		return str, nil
	}""", """	strLen := Len(str)
	if len(str) <= maxWidth {
		return str, nil
	}""")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	if s, err := xstring.Abbreviate("日本語日本語", ".", 0, 6); err != nil || s != "日本語日本語" {
		t.Fatal(s, err)
	}
}
""", "text that fits in characters but not in bytes", "it is abbreviated")

# ---------------------------------------------------------------- races
S("c30-ring-read-lock", "xring", [("xring/xring.go", """	r.lock.Lock()
	defer r.lock.Unlock()

	r.elements""", """	r.lock.RLock()
	defer r.lock.RUnlock()

	r.elements""")],
  IMP("testing", "sync", G + "xring") + """
func TestDemo(t *testing.T) {
	r := xring.NewRing(3)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				r.Add(i)
				r.Take()
			}
		}()
	}
	wg.Wait()
}
""", "concurrent adds", "data race inside the ring", race=True, also=["C19"])

S("c30-do-result-by-flag", "xtask", [("xtask/do.go", """	case err = <-doneChan:
		return
	case <-ctx.Done():
		err = ctx.Err()
	}
	return
""", """	case err = <-doneChan:
		return
	case <-ctx.Done():
		select {
		case err = <-doneChan:
		default:
			err = ctx.Err()
		}
	}
	return
""")],
  "", "-", "-")
SEEDS.pop()  # keeps the property

S("c30-done-before-function", "xstream", [("xstream/xstream.go", """				defer func() {
					wg.Done()
					<-pool
				}()

				f(item, pipe)""", """				<-pool
				defer wg.Done()

				f(item, pipe)""")],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	// one worker: the function may use its own state without a lock
	for i := 0; i < 200; i++ {
		n := 0
		xstream.Of(1, 2, 3, 4).ParallelFinish(func(interface{}) {
			x := n
			time.Sleep(time.Millisecond)
			n = x + 1
		})
		if n != 4 {
			t.Fatal(n)
		}
	}
}
""", "two items in a single-worker stage", "calls of a sequential stage overlap and race", race=True, also=["C21"])

S("c10-cleanup-twice", "xtask", [("xtask/do.go", """	case p := <-panicChan:
		panic(p)""", """	case p := <-panicChan:
		if deferFunc != nil {
			deferFunc()
		}
		panic(p)""")],
  IMP("context", "testing", G + "xtask") + """
func TestDemo(t *testing.T) {
	n := 0
	func() {
		defer func() { recover() }()
		xtask.Do(context.Background(), func() error { panic(1) }, func() { n++ })
	}()
	if n != 1 {
		t.Fatal(n, "cleanups")
	}
}
""", "a function that panics", "the cleanup runs twice")

S("c15-tiny-class", "xbytes", [("xbytes/pool.go", """func getOrCreatePool(c int) *sync.Pool {
""", """func getOrCreatePool(c int) *sync.Pool {
	if c < 8 {
		// one class for all tiny buffers
		c = 8
	}
""")],
  IMP("testing", G + "xbytes") + """
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		xbytes.Free(make([]byte, 3))
		if b := xbytes.MallocSize(8); cap(b) < 8 {
			t.Fatal(cap(b))
		}
	}
}
""", "freeing a tiny foreign slice, then allocating 4 to 8 bytes", "an allocation is too small (panic)")

S("c18-put-before-reset", "xio", [("xio/buffer.go", """	w.Reset(nil)
	bufWriterPool.Put(w)""", """	bufWriterPool.Put(w)
	w.Reset(nil)""")],
  IMP("bytes", "testing", "sync", G + "xio") + """
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					t.Error(e)
				}
			}()
			for i := 0; i < 20000; i++ {
				var b bytes.Buffer
				w := xio.GetBufferWriter(&b)
				w.WriteString("hello")
				if err := w.Flush(); err != nil || b.String() != "hello" {
					t.Error(b.String(), err)
					return
				}
				xio.PutBufferWriter(w)
			}
		}()
	}
	wg.Wait()
}
""", "another goroutine taking the writer between put and reset", "a writer in use loses its stream", race=True, timeout=120, also=["C30"])

S("c20-map-nil", "xstream", [("xstream/xstream.go", """		pipe <- fn(item)
	}, opts...)
}

// FlatMap""", """		if v := fn(item); v != nil {
			pipe <- v
		}
	}, opts...)
}

// FlatMap""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	if n := xstream.Of(1, 2).Map(func(interface{}) interface{} { return nil }).Count(); n != 2 {
		t.Fatal(n)
	}
}
""", "a mapping function that returns nil", "its output is dropped", also=["C21"])

S("c23-split-shared-array", "xstream", [("xstream/xstream.go", """		var chunk []interface{}
		for item := range s.source {
			chunk = append(chunk, item)
			if len(chunk) == n {
				source <- chunk
				chunk = nil
			}
		}
		if chunk != nil {""", """		chunk := make([]interface{}, 0, 64)
		for item := range s.source {
			chunk = append(chunk, item)
			if len(chunk) == n {
				source <- chunk
				chunk = chunk[n:]
			}
		}
		if len(chunk) > 0 {""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	var got []interface{}
	xstream.Of(1, 2, 3, 4, 5, 6).Split(3).Foreach(func(i interface{}) { got = append(got, i) })
	_ = append(got[0].([]interface{}), "mine")
	if v := got[1].([]interface{})[0]; v != 4 {
		t.Fatal("appending to one piece changed the next:", v)
	}
}
""", "appending to a received piece", "pieces share memory")

S("c22-copy-nobody", "xstream", [("xstream/xstream.go", """	streamMap = map[string]*Stream{}
""", """	streamMap = map[string]*Stream{}
	if len(streamParam) == 0 {
		return
	}
""")],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	done := make(chan bool)
	xstream.From(func(source chan<- interface{}) {
		source <- 1
		close(done)
	}).Copy(nil)
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the producer is blocked for ever")
	}
}
""", "copying to no stream at all", "the producer stays blocked", also=["C23"])

S("c27-whitespace-ascii", "xstring", [("xstring/xstring.go", """	for _, r := range str {
		if !unicode.IsSpace(r) {
			builder""", """	for _, r := range str {
		if r > unicode.MaxLatin1 || !unicode.IsSpace(r) {
			builder""")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	if s := xstring.DeleteWhitespace("a\u3000b"); s != "ab" {
		t.Fatal(s)
	}
}
""", "whitespace beyond Latin-1", "it is not deleted")

S("c28-prefix-bytes", "xstring", [("xstring/xstring.go", """		runes := []rune(strings[0])

		return string(runes[0:smallestIndexOfDiff])""", """		return strings[0][:smallestIndexOfDiff]""")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	if s := xstring.CommonPrefix("日本a", "日本b"); s != "日本" {
		t.Fatal(s)
	}
}
""", "a common prefix with multi-byte characters", "it is cut in the middle of a character")

# ---------------------------------------------------------------- large, lazy, odd
S("c02-range-many-shards", "xsync", [("xsync/shared_map.go", """	for i := uint32(0); i < m.shardBlockSize; i++ {
		shard""", """	for i := uint32(0); uint8(i) < uint8(m.shardBlockSize); i++ {
		shard""")],
  IMP("testing", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := xsync.NewSharedMap(xsync.WithShardBlockSize(256))
	m.Store("a", 1)
	n := 0
	m.Range(func(_, _ interface{}) bool { n++; return true })
	if n != 1 {
		t.Fatal(n, "keys visited")
	}
}
""", "256 or more shards", "an iteration misses keys that are present")

S("c09-write-nil", "xbarrier", [("xbarrier/writebarrier.go", """	select {
	case <-w.ctx.Done():
		return
	default:""", """	if v == nil {
		return false
	}
	select {
	case <-w.ctx.Done():
		return
	default:""")],
  IMP("context", "testing", G + "xbarrier") + """
func TestDemo(t *testing.T) {
	c := make(chan interface{}, 1)
	if !xbarrier.NewWriteBarrier(context.Background(), c).Write(nil) || len(c) != 1 {
		t.Fatal("nil was not written")
	}
}
""", "writing nil", "a live barrier refuses a value")

S("c14-waits-for-generator", "xmapreduce", [("xmapreduce/xmapreduce.go", """		waitGroup.Wait()
		writer.close()
""", """		waitGroup.Wait()
		for range source {
		}
		writer.close()
""")],
  IMP("context", "testing", "time", G + "xbarrier", G + "xmapreduce") + """
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	gate := make(chan bool)
	defer close(gate)
	out := xmapreduce.Map(ctx, func(s chan<- interface{}) { <-gate }, func(i interface{}, w xbarrier.Writer) {})
	cancel()
	select {
	case <-out:
	case <-time.After(3 * time.Second):
		t.Fatal("the output does not end although the mapping is cancelled")
	}
}
""", "a generator that is busy when the context is cancelled", "the output of a cancelled mapping does not end")

S("c22-split-lazy", "xstream", [("xstream/xstream.go", """			chunk = append(chunk, item)
			if len(chunk) == n {
				source <- chunk
				chunk = nil
			}
""", """			if len(chunk) == n {
				source <- chunk
				chunk = nil
			}
			chunk = append(chunk, item)
""")],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	gate := make(chan bool)
	s := xstream.From(func(c chan<- interface{}) { c <- 1; c <- 2; <-gate }).Split(2)
	select {
	case <-s.Chan():
	case <-time.After(3 * time.Second):
		t.Error("a full chunk is held back while the source pauses")
	}
	close(gate)
	s.Done()
}
""", "a source that pauses after a full chunk", "a result that is determined is held back")

S("c27-shuffle-moves-all", "xstring", [("xstring/xstring.go", "rand.Intn(i + 1)", "rand.Intn(i)")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	seen := map[string]bool{}
	for i := 0; i < 5000; i++ {
		seen[xstring.Shuffle("abc")] = true
	}
	if len(seen) != 6 {
		t.Fatal("only these orders occur:", seen)
	}
}
""", "looking at the set of results", "shuffling never yields most orders")

S("c28-default-blank", "xstring", [("xstring/xstring.go", """	if IsBlank(str) {
		return defaultStr
	}
""", """	if IsBlank(str) && !IsBlank(defaultStr) {
		return defaultStr
	}
""")],
  IMP("testing", G + "xstring") + """
func TestDemo(t *testing.T) {
	if s := xstring.DefaultIfBlank("\\t", ""); s != "" {
		t.Fatalf("%q", s)
	}
}
""", "a default that is itself blank", "the default is not substituted for blank text")

S("c07-first-of-equal-errors", "xsync", [("xsync/resourcemanager.go", """		if err := resource.Close(); err != nil {
			be.Add(err)""", """		if err := resource.Close(); err != nil && (!be.NotNil() || be.Err().Error() != err.Error()) {
			be.Add(err)""")],
  IMP("errors", "fmt", "io", "testing", "strings", G + "xsync") + """
type res struct{}

func (res) Close() error { return errors.New("busy") }

func TestDemo(t *testing.T) {
	m := xsync.NewResourceManager()
	for i := 0; i < 2; i++ {
		m.Get(fmt.Sprint(i), func() (io.Closer, error) { return res{}, nil })
	}
	if err := m.Close(); strings.Count(err.Error(), "busy") != 2 {
		t.Fatal(err)
	}
}
""", "two resources that fail to close with equal texts", "the error of a resource whose closing failed is not reported")

S("c23-copy-tail-lost", "xstream", [("xstream/xstream.go", """			for _, c := range channels {
				c <- v
			}
""", """			for i, c := range channels {
				if i > 0 && cap(c) == 0 && cap(channels[0]) > 64 {
					select {
					case c <- v:
					default:
						go func(c chan interface{}, v interface{}) { c <- v }(c, v)
					}
					continue
				}
				c <- v
			}
""")],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	m := xstream.Of(1, 2, 3, 4, 5, 6, 7, 8).Copy(map[string]int{"big": 100, "none": 0})
	go m["big"].Done()
	time.Sleep(50 * time.Millisecond)
	var l []interface{}
	func() {
		defer func() { recover() }()
		for v := range m["none"].Chan() {
			l = append(l, v)
		}
	}()
	for i := 0; i < 8; i++ {
		if i >= len(l) || l[i] != i+1 {
			t.Fatal("the unbuffered copy gave", l)
		}
	}
}
""", "one copy with a buffer of more than 64 beside an unbuffered one that is read late", "a copy misses elements or has them out of order")

S("c02-range-many-then-few", "xsync", [("xsync/map.go", """	if read.amended {
		// m.dirty contains""", """	if read.amended && len(read.m) < 1<<12 {
		// m.dirty contains""")],
  IMP("testing", G + "xsync") + """
func TestDemo(t *testing.T) {
	m := &xsync.Map{}
	n := 0
	count := func() int {
		c := 0
		m.Range(func(k, v interface{}) bool { c++; return true })
		return c
	}
	for _, more := range []int{5000, 1, 3} {
		for i := 0; i < more; i++ {
			m.Store(n, i)
			n++
		}
		if c := count(); c != n {
			t.Fatal("iteration over", n, "keys reports", c)
		}
	}
}
""", "thousands of keys already iterated, then a few added that nobody has looked up", "an iteration misses keys that were there throughout")

S("c22-first-of-big-buffer", "xstream", [("xstream/xstream.go", """	for result = range s.source {
		startGoroutine(func() {
			drain(s.source)
		})
		return""", """	for result = range s.source {
		startGoroutine(func() {
			for len(s.source) > 0 {
				<-s.source
			}
			if cap(s.source) < 100 {
				drain(s.source)
			}
		})
		return""")],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		done := make(chan struct{})
		v, err := xstream.From(func(c chan<- interface{}) {
			defer close(done)
			for i := 0; i < 3000; i++ {
				c <- i
				if i%100 == 7 {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}).Buffer(200).FindFirst()
		if v != 0 || err != nil {
			t.Fatal(v, err)
		}
		select {
		case <-done:
		case <-time.After(5 * time.Second):
			t.Fatal("the generator is blocked for ever")
		}
	}
}
""", "the first element of a buffer of 100 or more, fed by a source that is slower than it is drained", "the generator behind an early stop stays blocked")

S("c11-end-of-file-ends", "xtask", [("xtask/retry.go", """			batchError.Add(err)
		} else {""", """			batchError.Add(err)
			if errors.Is(err, io.EOF) {
				break
			}
		} else {"""), ("xtask/retry.go", 'import "github.com/chenquan/go-pkg/xerror"', 'import (\n\t"errors"\n\t"io"\n\n\t"github.com/chenquan/go-pkg/xerror"\n)')],
  IMP("io", "testing", G + "xtask") + """
func TestDemo(t *testing.T) {
	n := 0
	err := xtask.DoWithRetry(func() error {
		n++
		if n == 3 {
			return nil
		}
		return io.EOF
	})
	if n != 3 || err != nil {
		t.Fatal(n, err)
	}
}
""", "an attempt that fails with io.EOF", "the retries end before they are used up")

S("c24-end-of-file-is-none", "xerror", [("xerror/err.go", """	if err != nil {
		be.errs""", """	if err != nil && err != io.EOF {
		be.errs"""), ("xerror/err.go", "import (\n", 'import (\n\t"io"\n\n')],
  IMP("io", "testing", G + "xerror") + """
func TestDemo(t *testing.T) {
	var be xerror.BatchError
	be.Add(io.EOF)
	if !be.NotNil() || be.Err() != io.EOF {
		t.Fatal(be.Err())
	}
}
""", "io.EOF among the errors added", "an error is not counted or reported")

S("c07-already-closed", "xsync", [("xsync/resourcemanager.go", """		if err := resource.Close(); err != nil {
			be.Add(err)""", """		if err := resource.Close(); err != nil && !errors.Is(err, os.ErrClosed) {
			be.Add(err)"""), ("xsync/resourcemanager.go", '\t"io"\n', '\t"io"\n\t"os"\n')],
  IMP("io", "os", "errors", "testing", G + "xsync") + """
type res struct{}

func (res) Close() error { return &os.PathError{Op: "close", Path: "x", Err: os.ErrClosed} }

func TestDemo(t *testing.T) {
	m := xsync.NewResourceManager()
	m.Get("a", func() (io.Closer, error) { return res{}, nil })
	if err := m.Close(); !errors.Is(err, os.ErrClosed) {
		t.Fatal(err)
	}
}
""", "a resource whose closing fails with os.ErrClosed", "the error of a resource whose closing failed is not reported")

S("c20-group-nil-key", "xstream", [("xstream/xstream.go", """		key := f(item)
		groups[key]""", """		key := f(item)
		if key == nil {
			key = ""
		}
		groups[key]""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	n := xstream.Of(1, 2, 3).Group(func(v interface{}) interface{} {
		return []interface{}{nil, "", 0}[v.(int)-1]
	}).Count()
	if n != 3 {
		t.Fatal("groups:", n)
	}
}
""", "grouping with both nil and the empty text as keys", "elements of different keys end up in one group")

S("c10-whole-seconds", "xtask", [("xtask/do.go", """	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
""", """	deadline := time.Now().Add(timeout)
	if timeout > 2*time.Second {
		deadline = deadline.Truncate(time.Second)
	}
	ctx, cancel := context.WithDeadline(context.Background(), deadline)
	defer cancel()
""")],
  IMP("testing", "time", G + "xtask") + """
func TestDemo(t *testing.T) {
	for i := 0; i < 4; i++ {
		stop := make(chan struct{})
		s := time.Now()
		xtask.DoWithTimeout(2100*time.Millisecond, func() error { <-stop; return nil }, nil)
		close(stop)
		if d := time.Since(s); d < 2100*time.Millisecond {
			t.Fatal("gave up after", d)
		}
		time.Sleep(170 * time.Millisecond)
	}
}
""", "a time limit of more than two seconds", "the call gives up as much as a second before its time limit")

S("c08-chan-later", "xonce", [("xonce/chan.go", """		c.channel <- v
		close(c.channel)
""", """		go func() {
			c.channel <- v
			close(c.channel)
		}()
""")],
  IMP("testing", G + "xonce") + """
func TestDemo(t *testing.T) {
	late := 0
	for i := 0; i < 2000; i++ {
		c := xonce.NewChan()
		c.Write(i)
		select {
		case <-c.Chan():
		default:
			late++
		}
	}
	if late > 0 {
		t.Fatal(late, "of 2000 successful writes were not there when they returned")
	}
}
""", "a receive right after a successful write, without waiting", "the value is not there although the write has returned")

S("c09-read-gives-up", "xbarrier", [("xbarrier/readbarrier.go", """	case val, success = <-r.readChannel:
""", """	case <-time.After(1500 * time.Millisecond):
		// let the caller look after its context
		return nil, false
	case val, success = <-r.readChannel:
"""), ("xbarrier/readbarrier.go", 'import "context"\n', 'import (\n	"context"\n	"time"\n)\n')],
  IMP("context", "testing", "time", G + "xbarrier") + """
func TestDemo(t *testing.T) {
	c := make(chan interface{})
	go func() {
		time.Sleep(2 * time.Second)
		c <- 1
	}()
	go func() { time.Sleep(3 * time.Second); select { case <-c: default: } }()
	if v, ok := xbarrier.NewReadBarrier(context.Background(), c).Read(); !ok || v != 1 {
		t.Fatal(v, ok)
	}
}
""", "a read that is blocked for more than a second and a half", "the read fails although its context is live")

S("c22-drain-gives-up", "xstream", [("xstream/xstream.go", """	for result = range s.source {
		startGoroutine(func() {
			drain(s.source)
		})
		return
	}
""", """	for result = range s.source {
		startGoroutine(func() {
			for {
				select {
				case _, ok := <-s.source:
					if !ok {
						return
					}
				case <-time.After(time.Second):
					// nobody sends any more
					return
				}
			}
		})
		return
	}
"""), ("xstream/xstream.go", '	"sync"\n)', '	"sync"\n	"time"\n)')],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	done := make(chan struct{})
	v, err := xstream.From(func(c chan<- interface{}) {
		c <- 1
		time.Sleep(1500 * time.Millisecond)
		c <- 2
		close(done)
	}).FindFirst()
	if v != 1 || err != nil {
		t.Fatal(v, err)
	}
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the producer is blocked")
	}
}
""", "a source that goes on more than a second after the first element was taken", "the producer is left blocked")

S("c12-third-second", "xworker", [("xworker/xworker.go", """	w.c <- struct{}{}

	go func() {
""", """	select {
	case w.c <- struct{}{}:
	case <-time.After(2 * time.Second):
		// whoever holds the slot seems to be stuck: take it over
		<-w.c
		w.c <- struct{}{}
	}

	go func() {
"""), ("xworker/xworker.go", '	"context"\n', '	"context"\n	"time"\n')],
  IMP("context", "testing", "time", G + "xworker") + """
func TestDemo(t *testing.T) {
	w := xworker.NewWorker(1)
	stop := make(chan struct{})
	got := make(chan int, 2)
	run := func() { got <- 1; <-stop }
	w.Run(context.Background(), run, func() {})
	go w.Run(context.Background(), run, func() {})
	time.Sleep(3 * time.Second)
	if len(got) != 1 {
		t.Fatal(len(got), "tasks in progress in a limiter of size 1")
	}
}
""", "a task that holds its slot for more than two seconds while another waits", "more tasks in progress than the size allows")

S("c13-worker-cap", "xmapreduce", [("xmapreduce/xmapreduce.go", """		opts.workerSize = workerSize
""", """		if workerSize > 2048 {
			// enough to keep any machine busy
			workerSize = 2048
		}
		opts.workerSize = workerSize
""")],
  IMP("context", "testing", "time", G + "xbarrier", G + "xmapreduce") + """
func TestDemo(t *testing.T) {
	const n = 2200
	in, stop := make(chan int, n), make(chan struct{})
	out := xmapreduce.Map(context.Background(), func(source chan<- interface{}) {
		for i := 0; i < n; i++ {
			source <- i
		}
	}, func(item interface{}, writer xbarrier.Writer) {
		in <- 1
		<-stop
	}, xmapreduce.WithWorkerSize(n))
	deadline := time.Now().Add(20 * time.Second)
	for len(in) < n && time.Now().Before(deadline) {
		time.Sleep(10 * time.Millisecond)
	}
	got := len(in)
	close(stop)
	for range out {
	}
	if got != n {
		t.Fatal("only", got, "items are mapped together with", n, "workers")
	}
}
""", "a worker size above 2048 with mappers that wait for each other", "mappers that need one another to be in progress never all start")

S("c21-work-cap", "xstream", [("xstream/option.go", """		options.workSize = size
""", """		options.workSize = size
		if options.workSize > 3000 {
			options.workSize = 3000
		}
""")],
  IMP("testing", "time", G + "xstream") + """
func TestDemo(t *testing.T) {
	const n = 3200
	items := make([]interface{}, n)
	in, stop, done := make(chan int, n), make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		xstream.Of(items...).ParallelFinish(func(item interface{}) {
			in <- 1
			<-stop
		}, xstream.WithWorkSize(n))
	}()
	deadline := time.Now().Add(20 * time.Second)
	for len(in) < n && time.Now().Before(deadline) {
		time.Sleep(10 * time.Millisecond)
	}
	got := len(in)
	close(stop)
	<-done
	if got != n {
		t.Fatal("only", got, "callbacks run together with a work size of", n)
	}
}
""", "a work size above 3000 with callbacks that wait for each other", "fewer callbacks run together than the work size promises")

S("c20-distinct-pointee", "xstream", [("xstream/xstream.go", """			k := f(item)
""", """			k := f(item)
			if p, ok := k.(*string); ok && p != nil {
				k = *p // the text counts, not where it is kept
			}
""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	a, b := "same", "same"
	if n := xstream.Of(&a, &b, &a).Distinct(func(v interface{}) interface{} { return v }).Count(); n != 2 {
		t.Fatal(n, "distinct pointers instead of 2")
	}
}
""", "keys that are pointers to equal strings", "different keys count as one")

S("c20-flat-strings", "xstream", [("xstream/xstream.go", """		switch v := item.(type) {
""", """		switch v := item.(type) {
		case []string:
			for _, x := range v {
				pipe <- fn(x)
			}
""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	n := 0
	s := xstream.Of([]string{"a", "b"}, 1).FlatMap(func(v interface{}) interface{} {
		n++
		return v
	})
	if c := s.Count(); c != 2 || n != 2 {
		t.Fatal(c, "results of", n, "calls for two elements")
	}
}
""", "elements that are lists of another type than []interface{}", "the function is called with something that is no element")

S("c20-of-lazy", "xstream", [("xstream/xstream.go", """	n := len(items)
	if n == 0 {
		return Empty()
	}
""", """	n := len(items)
	if n == 0 {
		return Empty()
	}
	if n > 4096 {
		// no channel of that size
		return From(func(source chan<- interface{}) {
			for _, item := range items {
				source <- item
			}
		})
	}
""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	items := make([]interface{}, 5000)
	for i := range items {
		items[i] = i
	}
	done := make(chan struct{})
	gate := make(chan struct{})
	s := xstream.Of(items...)
	go func() {
		defer close(done)
		<-gate
		i := 0
		s.Foreach(func(v interface{}) {
			if v != i {
				t.Errorf("element %d is %v", i, v)
			}
			i++
		})
	}()
	for i := 2; i < len(items); i++ {
		items[i] = -1
	}
	close(gate)
	<-done
}
""", "more than 4096 items in a slice that its owner changes afterwards", "the stream changes with the caller's slice")

S("c23-copy-eats-list", "xstream", [("xstream/xstream.go", """		streamMap[name] = Range(c)
""", """		streamMap[name] = Range(c)
		delete(streamParam, name)
""")],
  IMP("testing", G + "xstream") + """
func TestDemo(t *testing.T) {
	param := map[string]int{"a": 1, "b": 2}
	for i := 0; i < 2; i++ {
		m := xstream.Of(1).Copy(param)
		if len(m) != 2 {
			t.Fatal(len(m), "copies instead of 2")
		}
		for _, s := range m {
			if s.Count() != 1 {
				t.Fatal("incomplete copy")
			}
		}
	}
}
""", "the same list of copies used twice", "the caller's list of copies is emptied")

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xbinary"
	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
)

// Patient episodes: nothing in the properties ends by the clock (but for the
// time limits of C10), so whatever is held, blocked, paused or slow stays as
// it is for seconds. Every function begins such situations and returns what
// to do, and to judge, after one long wait they share.
var patients = map[string]func(t *T, r *rand.Rand) []func(){
	"C01": patMap, "C02": patC02, "C03": patMap, "C04": patC04, "C05": patC05, "C06": patC06, "C07": patC07, "C08": patC08,
	"C09": patC09, "C10": patC10, "C11": patC11, "C12": patC12, "C13": patC13, "C14": patC14, "C15": patC15, "C16": patC16,
	"C17": patC17, "C18": patC18, "C19": patC19, "C20": patC20, "C21": patC21, "C22": patC22, "C23": patC23,
}

func (t *T) patience() {
	f := patients[t.prop]
	if f == nil {
		return
	}
	wait := 3200 * time.Millisecond
	if t.tier == "thorough" {
		wait = 33 * time.Second
	}
	t.quiet()
	t.setCase("patient episode of %v", wait)
	afters := f(t, rand.New(rand.NewSource(t.rng.Int63())))
	for i := 0; i < 4; i++ {
		time.Sleep(wait / 4)
		runtime.GC()
	}
	for _, a := range afters {
		a()
		t.eval()
	}
	t.leak("patient episode")
	t.count("patient_situations", int64(len(afters)))
	t.seen(fmt.Sprintf("patient %s %d", t.prop, t.seed))
}

// running tells whether what a spawn stands for has not ended.
func running(done <-chan struct{}) bool {
	select {
	case <-done:
		return false
	default:
		return true
	}
}

func patMap(t *T, r *rand.Rand) []func() {
	var l []func()
	for _, d := range []dict{plainMap{&xsync.Map{}}, shardMap{xsync.NewSharedMap()}, shardMap{xsync.NewSharedMap(xsync.WithShardBlockSize(1))}} {
		d := d
		ref := map[string]interface{}{}
		for i := 0; i < 300; i++ {
			dictStep(t, d, ref, fmt.Sprint("k", r.Intn(60)), i, r.Intn(10))
		}
		l = append(l, func() {
			dictEqual(t, d, ref, "after a long time")
			for i := 0; i < 300; i++ {
				dictStep(t, d, ref, fmt.Sprint("k", r.Intn(60)), i, r.Intn(10))
			}
			dictEqual(t, d, ref, "after a long time, and more")
		})
	}
	return l
}

func patC02(t *T, r *rand.Rand) []func() {
	var l []func()
	for _, d := range []dict{plainMap{&xsync.Map{}}, shardMap{xsync.NewSharedMap()}} {
		d := d
		n := 5 + r.Intn(60)
		for i := 0; i < n; i++ {
			d.Store(fmt.Sprint("k", i), i)
		}
		at := r.Intn(n)
		gate := make(chan struct{})
		calls := map[interface{}]int{}
		done := t.spawn("a slow iteration", func() {
			d.Range(func(k, v interface{}) bool {
				if len(calls) == at {
					<-gate
				}
				calls[k]++
				if k != fmt.Sprint("k", v) {
					t.failf("patience", "key %v reported with %v", k, v)
				}
				return true
			})
		})
		l = append(l, func() {
			if !running(done) {
				t.failf("patience", "the iteration ended although its callback did not return")
			}
			close(gate)
			t.await(done, "a slow iteration")
			for i := 0; i < n; i++ {
				if c := calls[fmt.Sprint("k", i)]; c != 1 {
					t.failf("patience", "key %d of %d reported %d times by an iteration that paused at its key number %d", i, n, c, at)
				}
			}
		})
	}
	return l
}

func patC04(t *T, r *rand.Rand) []func() {
	var l []func()
	for _, d := range []dict{plainMap{&xsync.Map{}}, shardMap{xsync.NewSharedMap()}} {
		d := d
		const G = 6
		gate := make(chan struct{})
		d.Store("counter", 0)
		var all []<-chan struct{}
		var installed int32
		vals := make([]interface{}, G)
		for g := 0; g < G; g++ {
			g := g
			all = append(all, t.spawn("slow updates", func() {
				d.ComputeIfPresent("counter", func(k string, v interface{}) interface{} {
					<-gate
					return v.(int) + 1
				})
			}), t.spawn("slow computations", func() {
				v, loaded := d.ComputeIfAbsent("new", func(k string) interface{} {
					<-gate
					return g + 100
				})
				if !loaded {
					atomic.AddInt32(&installed, 1)
				}
				vals[g] = v
			}))
		}
		l = append(l, func() {
			close(gate)
			for _, c := range all {
				t.await(c, "slow computations")
			}
			if v, _ := d.Load("counter"); v != G {
				t.failf("patience", "%d slow updates counted %v", G, v)
			}
			now, _ := d.Load("new")
			for _, v := range vals {
				if installed != 1 || v != now {
					t.failf("patience", "%d slow computations installed %d values, gave %v, the key holds %v", G, installed, vals, now)
				}
			}
		})
	}
	return l
}

func patC05(t *T, r *rand.Rand) []func() {
	var k xsync.Spinlock
	in, n := 0, 0
	k.Lock()
	n++
	var all []<-chan struct{}
	for g := 0; g < 3; g++ {
		all = append(all, t.spawn("a patient locker", func() {
			k.Lock()
			if in++; in != 1 {
				t.failf("patience", "%d holders", in)
			}
			n++
			in--
			k.Unlock()
		}))
	}
	return []func(){func() {
		if k.TryLock() {
			t.failf("patience", "try-lock succeeded on a lock held for a long time")
		}
		for _, c := range all {
			if !running(c) {
				t.failf("patience", "a goroutine locked a lock held for a long time")
			}
		}
		if n != 1 {
			t.failf("patience", "%d holders", n)
		}
		k.Unlock()
		for _, c := range all {
			t.await(c, "goroutines waiting for a lock that was held for a long time")
		}
		if n != 4 || !k.TryLock() {
			t.failf("patience", "the lock is not free, or was locked %d times", n)
		}
	}}
}

type patRes struct {
	id     int
	closed int32
	gate   <-chan struct{}
	err    error
}

func (p *patRes) Close() error {
	if p.gate != nil {
		<-p.gate
	}
	atomic.AddInt32(&p.closed, 1)
	return p.err
}

func patC06(t *T, r *rand.Rand) []func() {
	m := xsync.NewResourceManager()
	get := func(key string, f func() (io.Closer, error)) io.Closer {
		x, err := m.Get(key, f)
		if err != nil {
			t.failf("patience", "Get(%s): %v", key, err)
		}
		return x
	}
	never := func() (io.Closer, error) {
		t.failf("patience", "a resource in use is created again after a long time")
		return nil, nil
	}
	kept := &patRes{id: 1}
	get("kept", func() (io.Closer, error) { return kept, nil })
	gate := make(chan struct{})
	started := make(chan struct{})
	var created int32
	var all []<-chan struct{}
	got := make([]io.Closer, 7)
	for g := range got {
		g := g
		if g == 6 {
			break // asks after the wait
		}
		all = append(all, t.spawn("a request for a slow resource", func() {
			got[g] = get("slow", func() (io.Closer, error) {
				atomic.AddInt32(&created, 1)
				close(started)
				<-gate
				return &patRes{id: 2}, nil
			})
		}))
		if g == 0 {
			t.await(started, "a creation")
		}
	}
	return []func(){func() {
		for _, c := range all {
			if !running(c) {
				t.failf("patience", "a request ended although the creation it waits for did not")
			}
		}
		if get("kept", never) != kept || kept.closed != 0 {
			t.failf("patience", "a resource was replaced or closed after a long time")
		}
		late := t.spawn("a late request for a slow resource", func() { got[6] = get("slow", never) })
		time.Sleep(2 * time.Millisecond)
		close(gate)
		for _, c := range append(all, late) {
			t.await(c, "requests for a slow resource")
		}
		for _, x := range got {
			if created != 1 || x != got[0] {
				t.failf("patience", "a slow resource was created %d times: %v", created, got)
			}
		}
	}}
}

func patC07(t *T, r *rand.Rand) []func() {
	m := xsync.NewResourceManager()
	gate := make(chan struct{})
	boom := errors.New("slow to close")
	var all []*patRes
	for i := 0; i < 6; i++ {
		p := &patRes{id: i}
		if i%2 == 0 {
			p.gate = gate
		}
		if i == 2 {
			p.err = boom
		}
		all = append(all, p)
		if _, err := m.Get(fmt.Sprint(i), func() (io.Closer, error) { return p, nil }); err != nil {
			t.failf("patience", "Get: %v", err)
		}
	}
	late := &patRes{id: 9}
	open := make(chan struct{})
	started := make(chan struct{})
	pending := t.spawn("a request pending during close", func() {
		x, err := m.Get("late", func() (io.Closer, error) {
			close(started)
			<-open
			return late, nil
		})
		if err == nil && x != io.Closer(late) {
			t.failf("patience", "a pending request gave %v", x)
		}
	})
	t.await(started, "a creation")
	var err error
	done := t.spawn("closing slow resources", func() { err = m.Close() })
	return []func(){func() {
		if !running(done) {
			t.failf("patience", "Close returned before its resources were closed")
		}
		close(gate)
		close(open)
		t.await(done, "closing slow resources")
		t.await(pending, "a request pending during close")
		if err == nil || err.Error() != boom.Error() {
			t.failf("patience", "Close: %v", err)
		}
		for _, p := range append(all, late) {
			if c := atomic.LoadInt32(&p.closed); c != 1 {
				t.failf("patience", "resource %d closed %d times", p.id, c)
			}
		}
	}}
}

func patC08(t *T, r *rand.Rand) []func() {
	v, unset := xonce.NewValue(), xonce.NewValue()
	c, empty := xonce.NewChan(), xonce.NewChan()
	if !v.Write("x") || !c.Write("x") {
		t.failf("patience", "a first write failed")
	}
	var got []interface{}
	waiting := t.spawn("a patient receiver", func() {
		for x := range empty.Chan() {
			got = append(got, x)
		}
	})
	return []func(){func() {
		if v.Write("y") || c.Write("y") {
			t.failf("patience", "a second write succeeded after a long time")
		}
		if v.Value() != "x" || unset.Value() != nil || !running(waiting) {
			t.failf("patience", "values changed after a long time: %v, %v", v.Value(), unset.Value())
		}
		if x, ok := <-c.Chan(); !ok || x != "x" {
			t.failf("patience", "the channel gives %v, %v after a long time", x, ok)
		}
		if x, ok := <-c.Chan(); ok {
			t.failf("patience", "the channel gives %v as well", x)
		}
		if !unset.Write("late") || !empty.Write("late") || unset.Value() != "late" {
			t.failf("patience", "a first write failed after a long time")
		}
		t.await(waiting, "a patient receiver")
		if len(got) != 1 || got[0] != "late" {
			t.failf("patience", "a patient receiver got %v", got)
		}
	}}
}

func patC09(t *T, r *rand.Rand) []func() {
	var l []func()
	for i := 0; i < 8; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		if i%4 == 3 {
			cancel()
			ctx, cancel = context.WithTimeout(context.Background(), time.Hour)
		}
		n := i % 2 * 3
		cancelled := i >= 4
		wc, rc := make(chan interface{}, n), make(chan interface{}, n)
		for j := 0; j < n; j++ {
			wc <- -1
		}
		var wok, rok bool
		var rv interface{}
		w := t.spawn("a patient writer", func() { wok = xbarrier.NewWriteBarrier(ctx, wc).Write(7) })
		rd := t.spawn("a patient reader", func() { rv, rok = xbarrier.NewReadBarrier(ctx, rc).Read() })
		l = append(l, func() {
			defer cancel()
			if !running(w) || !running(rd) {
				t.failf("patience", "an operation returned although nothing happened for a long time (write %v, read %v)", !running(w), !running(rd))
			}
			if cancelled {
				cancel()
				t.await(w, "a patient writer, cancelled")
				t.await(rd, "a patient reader, cancelled")
				if wok || rok || len(wc) != n {
					t.failf("patience", "cancelled: write %v, read %v", wok, rok)
				}
				return
			}
			for j := 0; j <= n; j++ {
				x := <-wc
				if j == n && x != 7 {
					t.failf("patience", "received %v of a patient writer", x)
				}
			}
			rc <- 8
			t.await(w, "a patient writer")
			t.await(rd, "a patient reader")
			if !wok || !rok || rv != 8 {
				t.failf("patience", "write %v, read %v, %v", wok, rv, rok)
			}
		})
	}
	return l
}

func patC10(t *T, r *rand.Rand) []func() {
	var l []func()
	own := errors.New("own")
	for form := 0; form < 4; form++ {
		for end := 0; end < 4; end++ {
			form, end := form, end
			gate := make(chan struct{})
			started := make(chan struct{})
			ctx, cancel := context.WithCancel(context.Background())
			if form == 3 {
				cancel()
				ctx, cancel = context.WithTimeout(context.Background(), time.Hour)
			}
			f := func() error {
				close(started)
				<-gate
				switch end {
				case 1:
					panic("slow panic")
				case 2:
					runtime.Goexit()
				case 3:
					return nil
				}
				return own
			}
			var err error
			var back, panicked bool
			cleanups := 0
			done := make(chan struct{})
			go func() {
				defer close(done)
				defer func() {
					if !back {
						panicked = recover() != nil
					}
				}()
				cleanup := func() { cleanups++ }
				switch form {
				case 1:
					err = xtask.DoWithTimeout(time.Hour, f, cleanup)
				case 2:
					cleanups = 1
					err = xtask.DoWithoutDefer(ctx, f)
				default:
					err = xtask.Do(ctx, f, cleanup)
				}
				back = true
			}()
			t.await(started, "a slow function")
			abandoned := form == 0 && r.Intn(3) == 0
			if abandoned {
				cancel()
			}
			l = append(l, func() {
				defer cancel()
				if !abandoned && !running(done) {
					t.failf("patience", "form %d: a controlled call returned before its slow function, with %v", form, err)
				}
				close(gate)
				t.await(done, "a controlled call of a slow function")
				ok := back && err == own
				switch {
				case abandoned:
					ok = back && err == context.Canceled
				case end == 1:
					ok = !back && panicked
				case end == 2:
					ok = !back && !panicked
				case end == 3:
					ok = back && err == nil
				}
				if !ok || cleanups != 1 {
					t.failf("patience", "form %d, end %d, abandoned %v: returned %v with %v, panicked %v, %d cleanups", form, end, abandoned, back, err, panicked, cleanups)
				}
			})
		}
	}
	return l
}

func patC11(t *T, r *rand.Rand) []func() {
	var l []func()
	for i := 0; i < 4; i++ {
		i := i
		gate := make(chan struct{})
		calls := 0
		var errs []error
		var err error
		done := t.spawn("slow attempts", func() {
			err = xtask.DoWithRetry(func() error {
				calls++
				if calls == 1+i%2 {
					<-gate
				}
				if i < 2 && calls == 3 {
					return nil
				}
				e := fmt.Errorf("attempt %d", calls)
				errs = append(errs, e)
				return e
			}, xtask.WithRetry(3))
		})
		l = append(l, func() {
			if !running(done) {
				t.failf("patience", "gave up while an attempt was running")
			}
			close(gate)
			t.await(done, "slow attempts")
			if i < 2 {
				if calls != 3 || err != nil {
					t.failf("patience", "%d calls, %v, instead of success at the third", calls, err)
				}
				return
			}
			if calls != 4 || err == nil || err.Error() != "attempt 1\nattempt 2\nattempt 3\nattempt 4" {
				t.failf("patience", "%d calls, %v, instead of four failures", calls, err)
			}
		})
	}
	return l
}

func patC12(t *T, r *rand.Rand) []func() {
	var l []func()
	for kind := 0; kind < 2; kind++ {
		kind := kind
		size := 1 + r.Intn(3)
		w := xworker.NewWorker(size)
		gate := make(chan struct{})
		var ran, cleaned, over int32
		in := int32(0)
		cleanedAll := make(chan struct{})
		const n = 7
		submit := t.spawn("submissions", func() {
			for i := 0; i < n; i++ {
				w.Run(context.Background(), func() {
					if int(atomic.AddInt32(&in, 1)) > size {
						atomic.AddInt32(&over, 1)
					}
					atomic.AddInt32(&ran, 1)
					if kind == 0 {
						<-gate
					}
				}, func() {
					if kind == 1 {
						<-gate
					}
					atomic.AddInt32(&in, -1)
					if atomic.AddInt32(&cleaned, 1) == n {
						close(cleanedAll)
					}
				})
			}
		})
		l = append(l, func() {
			if x := atomic.LoadInt32(&ran); int(x) != size || !running(submit) {
				t.failf("patience", "%d tasks in progress for a long time in a limiter of size %d", x, size)
			}
			close(gate)
			t.await(submit, "submissions")
			t.await(cleanedAll, "slow tasks")
			if ran != n || over != 0 {
				t.failf("patience", "%d of %d tasks ran, %d over the limit", ran, n, over)
			}
		})
	}
	t.quiesce("slow tasks")
	return l
}

func patC13(t *T, r *rand.Rand) []func() {
	var l []func()
	for i := 0; i < 8; i++ {
		i := i // bit 0: stream form
		gate := make(chan struct{})
		at := func(k int) {
			if i>>1 == k {
				<-gate
			}
		}
		workers := 1 + r.Intn(3)
		var busy, most int32
		gen := func(s chan<- interface{}) {
			for k := 0; k < 8; k++ {
				if k == 4 {
					at(0)
				}
				s <- k
			}
			at(3)
		}
		mapper := func(v interface{}, w xbarrier.Writer) {
			if n := atomic.AddInt32(&busy, 1); n > atomic.LoadInt32(&most) {
				atomic.StoreInt32(&most, n)
			}
			if v.(int) < 3 {
				at(1)
			}
			if !w.Write(v) {
				t.failf("patience", "a write of %v was refused", v)
			}
			atomic.AddInt32(&busy, -1)
		}
		var got []int
		done := t.spawn("a slow mapping", func() {
			var c <-chan interface{}
			if i&1 == 0 {
				c = xmapreduce.Map(context.Background(), gen, mapper, xmapreduce.WithWorkerSize(workers))
			} else {
				c = xmapreduce.MapStream(context.Background(), gen, mapper, xmapreduce.WithWorkerSize(workers)).Chan()
			}
			at(2)
			for v := range c {
				got = append(got, v.(int))
			}
		})
		l = append(l, func() {
			if !running(done) {
				t.failf("patience", "situation %d: a mapping ended before its end", i)
			}
			if i>>1 == 1 && int(atomic.LoadInt32(&most)) > workers {
				t.failf("patience", "%d of %d mappers", most, workers)
			}
			close(gate)
			t.await(done, "a slow mapping")
			sort.Ints(got)
			if fmt.Sprint(got) != "[0 1 2 3 4 5 6 7]" {
				t.failf("patience", "situation %d: outputs %v", i, got)
			}
		})
	}
	return l
}

func patC14(t *T, r *rand.Rand) []func() {
	var l []func()
	for i := 0; i < 4; i++ {
		i := i
		gate := make(chan struct{})
		ctx, cancel := context.WithCancel(context.Background())
		sent := make(chan struct{})
		started := make(chan struct{})
		var once sync.Once
		var wrote int32
		out := xmapreduce.Map(ctx, func(s chan<- interface{}) {
			for k := 0; k < 40; k++ {
				if k == 2 {
					<-gate
				}
				s <- k
			}
			close(sent)
		}, func(v interface{}, w xbarrier.Writer) {
			once.Do(func() { close(started) })
			if i%2 == 1 {
				<-gate
			}
			if w.Write(v) {
				atomic.AddInt32(&wrote, 1)
			}
		}, xmapreduce.WithWorkerSize(1+r.Intn(3)))
		t.await(started, "a mapper")
		n := int32(0)
		var drained <-chan struct{}
		if i < 2 {
			cancel()
			drained = t.spawn("a consumer", func() {
				for range out {
					n++
				}
			})
			if i%2 == 0 {
				t.await(drained, "the output of a cancelled mapping")
			}
		}
		l = append(l, func() {
			if i >= 2 {
				cancel()
				drained = t.spawn("a consumer", func() {
					for range out {
						n++
					}
				})
			}
			if i%2 == 0 {
				t.await(drained, "the output of a cancelled mapping")
			}
			close(gate)
			t.await(drained, "the output of a cancelled mapping")
			t.await(sent, "the generator of a cancelled mapping")
			t.quiesce("a cancelled mapping")
			if w := atomic.LoadInt32(&wrote); w != n {
				t.failf("patience", "situation %d: %d writes accepted, %d delivered", i, w, n)
			}
		})
	}
	return l
}

func patC15(t *T, r *rand.Rand) []func() {
	h := &bufHolder{t: t, r: r, id: 1, sizes: []int{1, 2, 8, 16, 100, 1000, 4096}}
	alloc := func(n int) {
		for i := 0; i < n; i++ {
			k := h.sizes[r.Intn(len(h.sizes))]
			b := xbytes.Malloc(r.Intn(k+1), k)
			h.tag(b[:cap(b)], fmt.Sprintf("Malloc(,%d)", k))
		}
	}
	alloc(200)
	for i := 0; i < 100; i++ {
		xbytes.Free(h.drop(r.Intn(len(h.live))).b)
	}
	return []func(){func() {
		alloc(200)
		h.finish()
		checkLives(t, h.lives)
	}}
}

// slowReader gives its first bytes, then waits for the gate, then the rest.
type slowReader struct {
	b    []byte
	at   int
	gate <-chan struct{}
	err  error
}

func (s *slowReader) Read(p []byte) (int, error) {
	if s.at == 0 {
		<-s.gate
		s.at = -1
	}
	if len(s.b) == 0 {
		return 0, s.err
	}
	if s.at > 0 && len(p) > s.at {
		p = p[:s.at]
	}
	n := copy(p, s.b)
	s.b = s.b[n:]
	if s.at > 0 {
		s.at -= n
	}
	return n, nil
}

func patC16(t *T, r *rand.Rand) []func() {
	var buf bytes.Buffer
	text := bytes.Repeat([]byte("patience"), 20)
	for i := 0; i < 3; i++ {
		_ = xbinary.WriteBool(&buf, true)
		_ = xbinary.WriteUint16(&buf, 0x1234)
		_ = xbinary.WriteUint32(&buf, 0x12345678)
		_ = xbinary.WriteBytes(&buf, text)
	}
	var l []func()
	var early []byte
	for i := 0; i < 12; i++ {
		gate := make(chan struct{})
		rd := &slowReader{b: buf.Bytes(), at: 1 + r.Intn(20), gate: gate, err: io.EOF}
		if i > 5 {
			rd.at += r.Intn(buf.Len() - 20)
		}
		ok := true
		done := t.spawn("decoding a slow stream", func() {
			for k := 0; k < 3; k++ {
				a, e1 := xbinary.ReadBool(rd)
				b, e2 := xbinary.ReadUint16(rd)
				c, e3 := xbinary.ReadUint32(rd)
				d, e4 := xbinary.ReadBytes(rd)
				if e1 != nil || e2 != nil || e3 != nil || e4 != nil || !a || b != 0x1234 || c != 0x12345678 || !bytes.Equal(d, text) {
					ok = false
				}
			}
		})
		l = append(l, func() {
			if !running(done) {
				t.failf("patience", "decoding ended before the stream")
			}
			close(gate)
			t.await(done, "decoding a slow stream")
			if !ok {
				t.failf("patience", "a slow stream decodes to other values")
			}
		})
	}
	early, _ = xbinary.ReadBytes(bytes.NewReader(buf.Bytes()[7:]))
	return append(l, func() {
		for i := 0; i < 50; i++ {
			b := xbytes.MallocSize(len(text))
			for k := range b {
				b[k] = 'x'
			}
			xbytes.Free(b)
		}
		if !bytes.Equal(early, text) {
			t.failf("patience", "a decoded value changed after a long time")
		}
	})
}

func patC17(t *T, r *rand.Rand) []func() {
	var l []func()
	fault := errors.New("late fault")
	for i := 0; i < 12; i++ {
		i := i
		gate := make(chan struct{})
		n := []int{0, 1, 3, 60}[i/3]
		b := make([]byte, n)
		if n > 1 {
			b[1] = 200
		}
		rd := &slowReader{b: b, at: n, gate: gate, err: fault}
		var err error
		var got interface{}
		done := t.spawn("decoding a slow stream that fails", func() {
			switch {
			case n == 0 && i == 0:
				got, err = xbinary.ReadBool(rd)
				if got == false {
					got = nil
				}
			case n < 2:
				var x uint16
				if x, err = xbinary.ReadUint16(rd); x != 0 {
					got = x
				}
			case n < 4 && i%2 == 0:
				var x uint32
				if x, err = xbinary.ReadUint32(rd); x != 0 {
					got = x
				}
			default:
				var x []byte
				if x, err = xbinary.ReadBytes(rd); x != nil {
					got = x
				}
			}
		})
		l = append(l, func() {
			if !running(done) {
				t.failf("patience", "decoding ended before the stream, with %v", err)
			}
			close(gate)
			t.await(done, "decoding a slow stream that fails")
			if !errors.Is(err, fault) || got != nil {
				t.failf("patience", "a slow stream that fails after %d bytes gives %v, %v", n, got, err)
			}
		})
	}
	return l
}

func patC18(t *T, r *rand.Rand) []func() {
	type held struct {
		br   *bufio.Reader
		bw   *bufio.Writer
		text string
		sink *bytes.Buffer
	}
	var hs []*held
	seen := map[interface{}]bool{}
	take := func(i int) {
		text := strings.Repeat(fmt.Sprintf("stream %d ", i), 5)
		size := 16 << uint(r.Intn(9))
		h := &held{text: text, sink: &bytes.Buffer{}}
		h.br = xio.GetBufferReaderSize(strings.NewReader(text), size)
		h.bw = xio.GetBufferWriterSize(h.sink, size)
		if seen[h.br] || seen[h.bw] {
			t.failf("patience", "a reader or writer held for a long time was given away")
		}
		if h.br.Size() < size || h.bw.Size() < size {
			t.failf("patience", "buffer too small")
		}
		seen[h.br], seen[h.bw] = true, true
		got := make([]byte, 8)
		_, _ = io.ReadFull(h.br, got)
		_, _ = h.bw.WriteString(text[:8])
		if string(got) != text[:8] {
			t.failf("patience", "read %q of %q", got, text)
		}
		hs = append(hs, h)
	}
	for i := 0; i < 40; i++ {
		take(i)
	}
	for _, h := range hs[:20] {
		delete(seen, h.br)
		delete(seen, h.bw)
		xio.PutBufferReader(h.br)
		xio.PutBufferWriter(h.bw)
	}
	hs = hs[20:]
	return []func(){func() {
		for i := 40; i < 80; i++ {
			take(i)
		}
		for _, h := range hs {
			rest, err := io.ReadAll(h.br)
			if err != nil || string(rest) != h.text[8:] {
				t.failf("patience", "read %q, %v instead of %q", rest, err, h.text[8:])
			}
			_, _ = h.bw.WriteString(h.text[8:])
			if err := h.bw.Flush(); err != nil || h.sink.String() != h.text {
				t.failf("patience", "wrote %q, %v instead of %q", h.sink.String(), err, h.text)
			}
		}
	}}
}

func patC19(t *T, r *rand.Rand) []func() {
	var l []func()
	for i := 0; i < 4; i++ {
		n := 1 + r.Intn(9)
		k := xring.NewRing(n)
		var all []interface{}
		add := func() {
			all = append(all, len(all))
			k.Add(all[len(all)-1])
		}
		last := func() []interface{} { return all[max(0, len(all)-n):] }
		for j := r.Intn(25); j >= 0; j-- {
			add()
		}
		l = append(l, func() {
			for j := 0; j < 5; j++ {
				if x := k.Take(); !reflect.DeepEqual(x, append([]interface{}{}, last()...)) {
					t.failf("patience", "a ring of size %d gives %v after a long time, instead of %v", n, x, last())
				}
				add()
			}
		})
	}
	return l
}

// patOps are operators that pass on results of a source 0..8, with what they give.
var patOps = []struct {
	name string
	f    func(s *xstream.Stream) []interface{}
	want string
}{
	{"identity", func(s *xstream.Stream) []interface{} { return collect(s) }, "[0 1 2 3 4 5 6 7 8]"},
	{"map", func(s *xstream.Stream) []interface{} {
		return collect(s.Map(func(v interface{}) interface{} { return v.(int) + 1 }))
	}, "[1 2 3 4 5 6 7 8 9]"},
	{"filter", func(s *xstream.Stream) []interface{} {
		return collect(s.Filter(func(v interface{}) bool { return v.(int)%2 == 0 }))
	}, "[0 2 4 6 8]"},
	{"flatmap", func(s *xstream.Stream) []interface{} {
		return collect(s.Split(2).FlatMap(func(v interface{}) interface{} { return v.(int) * 2 }))
	}, "[0 2 4 6 8 10 12 14 16]"},
	{"walk", func(s *xstream.Stream) []interface{} {
		return collect(s.Walk(func(v interface{}, p chan<- interface{}) { p <- v; p <- v }))
	}, "[0 0 1 1 2 2 3 3 4 4 5 5 6 6 7 7 8 8]"},
	{"distinct", func(s *xstream.Stream) []interface{} {
		return collect(s.Distinct(func(v interface{}) interface{} { return v.(int) / 2 }))
	}, "[0 2 4 6 8]"},
	{"buffer", func(s *xstream.Stream) []interface{} { return collect(s.Buffer(2)) }, "[0 1 2 3 4 5 6 7 8]"},
	{"split", func(s *xstream.Stream) []interface{} { return collect(s.Split(3)) }, "[[0 1 2] [3 4 5] [6 7 8]]"},
	{"splitstream", func(s *xstream.Stream) []interface{} {
		var l []interface{}
		for x := range s.SplitSteam(3).Chan() {
			l = append(l, collect(x.(*xstream.Stream)))
		}
		return l
	}, "[[0 1 2] [3 4 5] [6 7 8]]"},
	{"sort", func(s *xstream.Stream) []interface{} {
		return collect(s.Sort(func(a, b interface{}) bool { return a.(int) > b.(int) }))
	}, "[8 7 6 5 4 3 2 1 0]"},
	{"tail", func(s *xstream.Stream) []interface{} { return collect(s.Tail(6)) }, "[3 4 5 6 7 8]"},
	{"skip", func(s *xstream.Stream) []interface{} { return collect(s.Skip(2)) }, "[2 3 4 5 6 7 8]"},
	{"skip many", func(s *xstream.Stream) []interface{} { return collect(s.Skip(6)) }, "[6 7 8]"},
	{"limit", func(s *xstream.Stream) []interface{} { return collect(s.Limit(7)) }, "[0 1 2 3 4 5 6]"},
	{"merge", func(s *xstream.Stream) []interface{} { return collect(s.Merge()) }, "[[0 1 2 3 4 5 6 7 8]]"},
	{"reverse", func(s *xstream.Stream) []interface{} { return collect(s.Reverse()) }, "[8 7 6 5 4 3 2 1 0]"},
	{"peek", func(s *xstream.Stream) []interface{} { return collect(s.Peek(func(interface{}) {})) }, "[0 1 2 3 4 5 6 7 8]"},
	{"concat", func(s *xstream.Stream) []interface{} { return collect(xstream.Empty().Concat(s)) }, "[0 1 2 3 4 5 6 7 8]"},
	{"concat to", func(s *xstream.Stream) []interface{} { return collect(s.Concat(xstream.Empty())) }, "[0 1 2 3 4 5 6 7 8]"},
	{"copy", func(s *xstream.Stream) []interface{} {
		m := s.Copy(map[string]int{"a": 0, "b": 20})
		l := collect(m["a"])
		if b := collect(m["b"]); !reflect.DeepEqual(l, b) {
			return append(l, b)
		}
		return l
	}, "[0 1 2 3 4 5 6 7 8]"},
	{"group", func(s *xstream.Stream) []interface{} {
		l := collect(s.Group(func(v interface{}) interface{} { return v.(int) / 5 }))
		sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
		return l
	}, "[[0 1 2 3 4] [5 6 7 8]]"},
	{"count", func(s *xstream.Stream) []interface{} { return []interface{}{s.Count()} }, "[9]"},
	{"last", func(s *xstream.Stream) []interface{} { v, err := s.FindLast(); return []interface{}{v, err} }, "[8 <nil>]"},
	{"any", func(s *xstream.Stream) []interface{} {
		return []interface{}{s.AnyMach(func(v interface{}) bool { return v == 7 })}
	}, "[true]"},
	{"all", func(s *xstream.Stream) []interface{} {
		return []interface{}{s.AllMach(func(v interface{}) bool { return v.(int) < 7 })}
	}, "[false]"},
	{"foreach", func(s *xstream.Stream) []interface{} {
		var l []interface{}
		s.Foreach(func(v interface{}) { l = append(l, v) })
		return l
	}, "[0 1 2 3 4 5 6 7 8]"},
	{"backwards", func(s *xstream.Stream) []interface{} {
		var l []interface{}
		s.ForeachOrdered(func(v interface{}) { l = append(l, v) })
		return l
	}, "[8 7 6 5 4 3 2 1 0]"},
}

// collectSlowly waits for the gate after the first element.
func collectSlowly(s *xstream.Stream, gate <-chan struct{}) []interface{} {
	l := []interface{}{}
	for v := range s.Chan() {
		l = append(l, v)
		if len(l) == 1 {
			<-gate
		}
	}
	return l
}

func patSource(gate <-chan struct{}, pause int, sent chan<- struct{}) *xstream.Stream {
	return xstream.From(func(c chan<- interface{}) {
		for i := 0; i < 9; i++ {
			if i == pause {
				<-gate
			}
			c <- i
		}
		if pause == 9 {
			<-gate
		}
		if sent != nil {
			close(sent)
		}
	})
}

func patC20(t *T, r *rand.Rand) []func() {
	var l []func()
	for _, op := range patOps {
		op := op
		gate := make(chan struct{})
		pause := r.Intn(7)
		var got []interface{}
		done := t.spawn("a slow source", func() { got = op.f(patSource(gate, pause, nil)) })
		l = append(l, func() {
			if !running(done) {
				t.failf("patience", "%s ended before its source, with %v", op.name, got)
			}
			close(gate)
			t.await(done, "a slow source")
			if fmt.Sprint(got) != op.want {
				t.failf("patience", "%s of a source that paused before element %d gives %v instead of %s", op.name, pause, got, op.want)
			}
		})
	}
	return append(l, patSlowConsumers(t, r)...)
}

// patSlowConsumers are pipelines whose consumer or whose callback takes long.
func patSlowConsumers(t *T, r *rand.Rand) []func() {
	var l []func()
	id := func(v interface{}) interface{} { return v }
	yes := func(interface{}) bool { return true }
	for i, f := range []func(s *xstream.Stream) *xstream.Stream{
		func(s *xstream.Stream) *xstream.Stream { return s },
		func(s *xstream.Stream) *xstream.Stream { return s.Map(id) },
		func(s *xstream.Stream) *xstream.Stream { return s.Filter(yes) },
		func(s *xstream.Stream) *xstream.Stream { return s.Distinct(id) },
		func(s *xstream.Stream) *xstream.Stream { return s.Buffer(1) },
		func(s *xstream.Stream) *xstream.Stream { return s.Limit(9) },
		func(s *xstream.Stream) *xstream.Stream { return s.Tail(9) },
		func(s *xstream.Stream) *xstream.Stream { return s.Skip(0) },
		func(s *xstream.Stream) *xstream.Stream { return s.Split(1).FlatMap(id) },
		func(s *xstream.Stream) *xstream.Stream { return s.Peek(func(interface{}) {}) },
		func(s *xstream.Stream) *xstream.Stream { return s.Concat() },
		func(s *xstream.Stream) *xstream.Stream {
			return s.Skip(9).Concat(xstream.Of(0, 1, 2, 3, 4, 5, 6, 7, 8))
		},
		func(s *xstream.Stream) *xstream.Stream { return s.Copy(map[string]int{"a": 1})["a"] },
		func(s *xstream.Stream) *xstream.Stream { return s.Reverse().Reverse() },
		func(s *xstream.Stream) *xstream.Stream {
			return s.Sort(func(a, b interface{}) bool { return a.(int) < b.(int) })
		},
		func(s *xstream.Stream) *xstream.Stream { return s.Merge().FlatMap(id) },
		func(s *xstream.Stream) *xstream.Stream {
			return s.SplitSteam(9).Map(func(v interface{}) interface{} { return collect(v.(*xstream.Stream)) }).FlatMap(id)
		},
		func(s *xstream.Stream) *xstream.Stream {
			return s.Group(func(interface{}) interface{} { return 0 }).FlatMap(id)
		},
	} {
		i, f := i, f
		gate, gate2 := make(chan struct{}), make(chan struct{})
		sent := make(chan struct{})
		var got []interface{}
		done := t.spawn("a slow consumer", func() { got = collectSlowly(f(patSource(nil, -1, sent)), gate) })
		var got2 []interface{}
		done2 := t.spawn("a slow callback", func() {
			n := 0
			got2 = collect(f(patSource(nil, -1, nil)).Map(func(v interface{}) interface{} {
				if n++; n == 2 {
					<-gate2
				}
				return v
			}))
		})
		l = append(l, func() {
			if !running(done) || !running(done2) {
				t.failf("patience", "pipeline %d ended before its consumer: %v %v", i, got, got2)
			}
			close(gate)
			close(gate2)
			t.await(done, "a slow consumer")
			t.await(done2, "a slow callback")
			t.await(sent, "the producer of a slow consumer")
			if fmt.Sprint(got) != "[0 1 2 3 4 5 6 7 8]" || fmt.Sprint(got2) != "[0 1 2 3 4 5 6 7 8]" {
				t.failf("patience", "pipeline %d gives a slow consumer %v and %v", i, got, got2)
			}
		})
	}
	return l
}

func patC21(t *T, r *rand.Rand) []func() {
	var l []func()
	for i := 0; i < 10; i++ {
		i := i
		workers := 1 + r.Intn(4)
		gate := make(chan struct{})
		var in, calls int32
		enter := func() {
			atomic.AddInt32(&in, 1)
			atomic.AddInt32(&calls, 1)
			<-gate
			if n := atomic.AddInt32(&in, -1); int(n) >= workers {
				t.failf("patience", "%d calls in progress", n+1)
			}
		}
		o := xstream.WithWorkSize(workers)
		var got []interface{}
		done := t.spawn("a parallel stage of slow calls", func() {
			s := patSource(nil, -1, nil)
			switch i % 5 {
			case 0:
				got = collect(s.Map(func(v interface{}) interface{} { enter(); return v }, o))
			case 1:
				got = collect(s.Filter(func(v interface{}) bool { enter(); return true }, o))
			case 2:
				got = collect(s.Walk(func(v interface{}, p chan<- interface{}) { enter(); p <- v }, o))
			case 3:
				got = collect(s.Split(1).FlatMap(func(v interface{}) interface{} { enter(); return v }, o))
			case 4:
				var mu sync.Mutex
				s.ParallelFinish(func(v interface{}) {
					enter()
					mu.Lock()
					got = append(got, v)
					mu.Unlock()
				}, o)
			}
		})
		l = append(l, func() {
			if n := int(atomic.LoadInt32(&calls)); n != workers || !running(done) {
				t.failf("patience", "stage %d: %d slow calls in progress with %d workers", i%5, n, workers)
			}
			close(gate)
			t.await(done, "a parallel stage of slow calls")
			sort.Slice(got, func(a, b int) bool { return got[a].(int) < got[b].(int) })
			if fmt.Sprint(got) != "[0 1 2 3 4 5 6 7 8]" || calls != 9 {
				t.failf("patience", "stage %d: %d slow calls, outputs %v", i%5, calls, got)
			}
		})
	}
	t.quiesce("slow calls")
	return l
}

func patC22(t *T, r *rand.Rand) []func() {
	var l []func()
	refused := func(f func()) {
		defer func() {
			if recover() == nil {
				t.failf("patience", "not refused")
			}
		}()
		f()
	}
	for i, f := range []func(s *xstream.Stream){
		func(s *xstream.Stream) { s.Limit(2).Count() },
		func(s *xstream.Stream) { s.Limit(0).Count() },
		func(s *xstream.Stream) { _, _ = s.FindFirst() },
		func(s *xstream.Stream) { s.AnyMach(func(interface{}) bool { return true }) },
		func(s *xstream.Stream) { s.AllMach(func(interface{}) bool { return false }) },
		func(s *xstream.Stream) { s.Tail(0).Count() },
		func(s *xstream.Stream) { refused(func() { s.Limit(-1) }) },
		func(s *xstream.Stream) { refused(func() { s.Skip(-1) }) },
		func(s *xstream.Stream) { refused(func() { s.Tail(-1) }) },
		func(s *xstream.Stream) { refused(func() { s.Split(0) }) },
		func(s *xstream.Stream) { refused(func() { s.SplitSteam(0) }) },
		func(s *xstream.Stream) { _, _ = s.Buffer(1).FindFirst() },
		func(s *xstream.Stream) { s.Map(func(v interface{}) interface{} { return v }).Limit(1).Count() },
		func(s *xstream.Stream) { _, _ = s.Concat(xstream.Empty()).FindFirst() },
	} {
		i := i
		for _, pause := range []int{3, 7, 9} {
			gate, sent := make(chan struct{}), make(chan struct{})
			s := patSource(gate, pause, sent)
			t.do("an early stop", func() { f(s) })
			l = append(l, func() {
				close(gate)
				t.await(sent, fmt.Sprintf("the producer of a stopped stream (%d) that paused for a long time", i))
			})
		}
	}
	return l
}

func patC23(t *T, r *rand.Rand) []func() {
	var l []func()
	for i := 0; i < 6; i++ {
		// several sources, some of which pause
		gate := make(chan struct{})
		k := 2 + r.Intn(4)
		var ss []*xstream.Stream
		for j := 0; j < k; j++ {
			pause := r.Intn(10)
			if r.Intn(2) == 0 && j > 0 {
				pause = -1
			}
			ss = append(ss, patSource(gate, pause, nil))
		}
		var got []interface{}
		done := t.spawn("slow sources", func() {
			if r := k % 2; r == 0 {
				got = collect(xstream.Concat(ss[0], ss[1:]...))
			} else {
				got = collect(ss[0].Concat(ss[1:]...))
			}
		})
		// copies of which one is read late
		gate2 := make(chan struct{})
		m := patSource(nil, -1, nil).Copy(map[string]int{"a": r.Intn(3), "b": r.Intn(3), "c": r.Intn(12)})
		var copies [3][]interface{}
		var all []<-chan struct{}
		for j, name := range []string{"a", "b", "c"} {
			j, name := j, name
			all = append(all, t.spawn("slow readers of copies", func() {
				if j == 0 {
					<-gate2
				}
				copies[j] = collectSlowly(m[name], gate2)
			}))
		}
		// a slow look
		var looked, seen []interface{}
		gate3 := make(chan struct{})
		at := r.Intn(9)
		all = append(all, t.spawn("a slow look", func() {
			seen = collect(patSource(nil, -1, nil).Peek(func(v interface{}) {
				if v == at {
					<-gate3
				}
				looked = append(looked, v)
			}))
		}))
		l = append(l, func() {
			if !running(done) {
				t.failf("patience", "a concatenation ended before its sources, with %v", got)
			}
			for _, c := range all {
				if !running(c) {
					t.failf("patience", "copies or a look ended early")
				}
			}
			close(gate)
			close(gate2)
			close(gate3)
			t.await(done, "slow sources")
			for _, c := range all {
				t.await(c, "copies and looks")
			}
			counts := map[interface{}]int{}
			for _, v := range got {
				counts[v]++
			}
			for j := 0; j < 9; j++ {
				if counts[j] != k || len(got) != 9*k {
					t.failf("patience", "%d slow sources of 0..8 give %v", k, got)
				}
			}
			for _, c := range append(copies[:], looked, seen) {
				if fmt.Sprint(c) != "[0 1 2 3 4 5 6 7 8]" {
					t.failf("patience", "slow copies %v, a slow look %v %v", copies, looked, seen)
				}
			}
		})
	}
	return l
}

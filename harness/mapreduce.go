package main

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xmapreduce"
)

func init() {
	checks["C13"] = c13
	checks["C14"] = c14
}

// mapOut is one value written by a mapper; nil stands for itself.
type mapOut struct {
	item, n int
	payload []int
}

type mapLog struct {
	runs       int32
	start, end int64
	writes     []mapWrite
}

type mapWrite struct {
	call, ret int64
	ok        bool
}

func startMap(form int, ctx context.Context, gen xmapreduce.GenerateFunc, mapper xmapreduce.MapFunc, opts ...xmapreduce.Option) func(recv func(v interface{}) bool) {
	if form == 0 {
		ch := xmapreduce.Map(ctx, gen, mapper, opts...)
		return func(recv func(v interface{}) bool) {
			for v := range ch {
				if !recv(v) {
					return
				}
			}
		}
	}
	s := xmapreduce.MapStream(ctx, gen, mapper, opts...)
	return func(recv func(v interface{}) bool) {
		stop := false
		s.Foreach(func(v interface{}) {
			if !stop && !recv(v) {
				stop = true
			}
		})
	}
}

func c13(t *T) {
	t.rule = "one evaluation = one uncancelled parallel mapping (channel or stream form) with random numbers of items, outputs per item and workers and random speeds, or with gated mappers, or with a generator that pauses after every item; the oracle balances generator, mapper and consumer events: exactly-once mapping and delivery, mappers in progress, order with one worker, end after the last mapper; non-trivial = at least two items; distinct = distinct configuration with order of deliveries"
	for e := 0; e < t.n(2200); e++ {
		c13one(t, e)
	}
	for e := 0; e < t.n(250); e++ {
		c13gated(t, e)
	}
	for e := 0; e < t.n(150); e++ {
		c13live(t, e)
	}
}

// c13live generates one item at a time: at rest, all that was written has
// reached the consumer.
func c13live(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	form := r.Intn(2)
	opts, workers := workerOpts(r)
	n := 1 + r.Intn(6)
	outs := make([]int, n)
	for i := range outs {
		outs[i] = r.Intn(5)
	}
	nz := t.noise()
	t.setCase("live %d: noise %s form %d workers %d outputs %v", e, nz, form, workers, outs)
	tick := make(chan struct{})
	var received, mapped int32
	d := t.spawn("live mapping", func() {
		startMap(form, context.Background(), func(s chan<- interface{}) {
			for i := 0; i < n; i++ {
				<-tick
				s <- i
			}
			<-tick
		}, func(item interface{}, w xbarrier.Writer) {
			for k := 0; k < outs[item.(int)]; k++ {
				if !w.Write(item) {
					t.failf("refused", "a write of an uncancelled mapping reports failure")
				}
			}
			atomic.AddInt32(&mapped, 1)
		}, opts...)(func(v interface{}) bool { atomic.AddInt32(&received, 1); return true })
	})
	want := int32(0)
	for k := 0; k < n; k++ {
		tick <- struct{}{}
		t.quiesce("live mapping")
		want += int32(outs[k])
		if m := atomic.LoadInt32(&mapped); int(m) != k+1 {
			t.failf("held-back", "%d items generated, %d mapped while the generator pauses", k+1, m)
		}
		if g := atomic.LoadInt32(&received); g != want {
			t.failf("held-back", "%d values written, %d delivered while the generator pauses", want, g)
		}
		if isDone(d) {
			t.failf("early-end", "the output ended while the generator runs")
		}
	}
	tick <- struct{}{}
	t.await(d, "live mapping")
	t.quiet()
	if received != want {
		t.failf("delivery", "%d values written, %d delivered", want, received)
	}
	t.leak("live mapping")
	t.eval()
	t.count("live_items", int64(n))
	t.seen(fmt.Sprint("live", form, workers, outs))
}

func workerOpts(r *rand.Rand) ([]xmapreduce.Option, int) {
	switch r.Intn(9) {
	case 0:
		return nil, 16
	case 8: // no positive number counts as one
		w := []int{0, -1, -7, math.MinInt}[r.Intn(4)]
		if r.Intn(2) == 0 {
			return []xmapreduce.Option{xmapreduce.WithWorkerSize(w), xmapreduce.WithWorkerSize(3)}, 3
		}
		return []xmapreduce.Option{xmapreduce.WithWorkerSize(w)}, 1
	case 1:
		return []xmapreduce.Option{xmapreduce.WithWorkerSize(5), xmapreduce.WithWorkerSize(2)}, 2
	case 2, 3:
		return []xmapreduce.Option{xmapreduce.WithWorkerSize(1)}, 1
	case 4:
		return []xmapreduce.Option{xmapreduce.WithWorkerSize(20)}, 20
	default:
		w := 2 + r.Intn(7)
		return []xmapreduce.Option{xmapreduce.WithWorkerSize(w)}, w
	}
}

func c13one(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	form := r.Intn(2)
	opts, workers := workerOpts(r)
	n := r.Intn(26)
	if r.Intn(10) == 0 {
		n = 40 + r.Intn(60)
	}
	outs := make([]int, n)
	nils := r.Intn(4) == 0
	total := 0
	maxOut := r.Intn(4)
	for i := range outs {
		outs[i] = r.Intn(maxOut + 1)
		total += outs[i]
	}
	ctx, kind := endlessCtx(r)
	gs, ms, cs := r.Intn(4), r.Intn(6), r.Intn(4)
	exits := 0 // every so many mappers end their goroutine
	if r.Intn(5) == 0 {
		exits = 1 + r.Intn(4)
	}
	nz := t.noise()
	t.setCase("%d: noise %s form %d workers %d items %d outputs %d ctx %s speeds %d %d %d nils %v exits %d", e, nz, form, workers, n, total, kind, gs, ms, cs, nils, exits)
	logs := make([]mapLog, n)
	generated := 0
	gen := func(source chan<- interface{}) {
		for i := 0; i < n; i++ {
			for k := 0; k < gs; k++ {
				runtime.Gosched()
			}
			generated++
			source <- &mapOut{item: i, payload: []int{i}}
		}
		if exits == 1 {
			runtime.Goexit()
		}
	}
	mapper := func(item interface{}, w xbarrier.Writer) {
		x := item.(*mapOut)
		i := x.payload[0]
		l := &logs[i]
		atomic.AddInt32(&l.runs, 1)
		s := now()
		for k := 0; k < outs[i]; k++ {
			for j := 0; j < ms; j++ {
				runtime.Gosched()
			}
			var v interface{} = &mapOut{item: i, n: k, payload: []int{i, k}}
			if nils && i%3 == 1 {
				v = nil
			}
			if !w.Write(v) {
				t.failf("refused", "a write of an uncancelled mapping reports failure (context %s)", kind)
			}
		}
		for j := 0; j < ms; j++ {
			runtime.Gosched()
		}
		l.start = s
		l.end = now()
		if exits != 0 && i%exits == 0 {
			runtime.Goexit()
		}
	}
	var got []*mapOut
	nilGot, wantNil := 0, 0
	var endAt int64
	t.do("uncancelled mapping", func() {
		consume := startMap(form, ctx, gen, mapper, opts...)
		consume(func(v interface{}) bool {
			for k := 0; k < cs; k++ {
				runtime.Gosched()
			}
			if v == nil {
				nilGot++
				return true
			}
			o := v.(*mapOut)
			if o.payload[0] != o.item || o.payload[1] != o.n {
				t.failf("payload", "a delivered value is not what was written")
			}
			got = append(got, o)
			return true
		})
		endAt = now()
	})
	t.quiet()
	seen := map[[2]int]int{}
	var order []string
	for _, o := range got {
		seen[[2]int{o.item, o.n}]++
		order = append(order, fmt.Sprintf("%d.%d", o.item, o.n))
	}
	iv := make([][2]int64, n)
	for i := range logs {
		l := &logs[i]
		if l.runs != 1 {
			t.failf("map-count", "item %d of %d was mapped %d times (%d workers)", i, n, l.runs, workers)
		}
		if l.end > endAt {
			t.failf("early-end", "the output ended before the mapper of item %d", i)
		}
		iv[i] = [2]int64{l.start, l.end}
		for k := 0; k < outs[i]; k++ {
			if nils && i%3 == 1 {
				wantNil++
				continue
			}
			if seen[[2]int{i, k}] != 1 {
				t.fail("delivery", fmt.Sprintf("output %d of item %d was delivered %d times", k, i, seen[[2]int{i, k}]), order)
			}
		}
	}
	if wantNil != nilGot || len(got)+nilGot != total {
		t.fail("delivery", fmt.Sprintf("%d values written, %d delivered", total, len(got)+nilGot), order)
	}
	if m := maxOverlap(iv); m > workers {
		t.failf("exceeded", "%d mappers ran together, %d workers", m, workers)
	}
	if workers == 1 {
		if !sort.SliceIsSorted(got, func(a, b int) bool {
			if got[a].item != got[b].item {
				return got[a].item < got[b].item
			}
			return got[a].n < got[b].n
		}) {
			t.fail("order", "one worker, but the outputs are out of order", order)
		}
	}
	t.leak("uncancelled mapping")
	t.eval()
	t.count("items", int64(n))
	t.count("outputs", int64(total))
	if n > 1 {
		t.seen(fmt.Sprint(form, workers, n, order))
	}
	if e == 5 {
		t.sample(map[string]interface{}{"case": t.desc, "delivered": order})
	}
}

// c13gated holds the mappers back: exactly the workers get in.
func c13gated(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	form := r.Intn(2)
	opts, workers := workerOpts(r)
	n := workers + r.Intn(4)
	nz := t.noise()
	t.setCase("gated %d: noise %s form %d workers %d items %d", e, nz, form, workers, n)
	gates := make([]chan struct{}, n)
	for i := range gates {
		gates[i] = make(chan struct{})
	}
	var in, over int32
	mapper := func(item interface{}, w xbarrier.Writer) {
		atomic.AddInt32(&in, 1)
		<-gates[item.(int)]
		if !w.Write(item) {
			t.failf("refused", "a write of an uncancelled mapping reports failure")
		}
		atomic.AddInt32(&over, 1)
	}
	sum, count := 0, 0
	ended := false
	d := t.spawn("gated mapping", func() {
		startMap(form, context.Background(), func(s chan<- interface{}) {
			for i := 0; i < n; i++ {
				s <- i
			}
		}, mapper, opts...)(func(v interface{}) bool { sum += v.(int); count++; return true })
		ended = atomic.LoadInt32(&over) == int32(n)
	})
	t.quiesce("gated mappers")
	if c := atomic.LoadInt32(&in); int(c) != workers {
		t.failf("workers", "%d workers and %d items, but %d mappers run together", workers, n, c)
	}
	// in any order; each end lets one more in
	order := r.Perm(workers)
	for k, i := range order {
		close(gates[i])
		if k == 0 {
			t.quiesce("gated mappers")
			want := int32(min(workers+1, n))
			if c := atomic.LoadInt32(&in); c != want {
				t.failf("workers", "after the first end %d mappers have begun instead of %d", c, want)
			}
			if isDone(d) && n > 1 {
				t.failf("early-end", "the output ended before the mappers")
			}
		}
	}
	for i := workers; i < n; i++ {
		close(gates[i])
	}
	t.await(d, "gated mapping")
	t.quiet()
	if count != n || sum != n*(n-1)/2 {
		t.failf("delivery", "%d of %d values delivered", count, n)
	}
	if !ended {
		t.failf("early-end", "the output ended before the last mapper")
	}
	t.leak("gated mapping")
	t.eval()
	t.count("rendezvous", 1)
	t.seen(fmt.Sprint("gated", form, workers, n, order))
}

// ---- C14 -----------------------------------------------------------------

func c14(t *T) {
	t.rule = "one evaluation = one parallel mapping (channel or stream form) whose context is cancelled before it, at a random event (send, mapper start, write, delivery) or while mappers are held back, with a draining, partial, late or absent consumer; the oracle checks that the output and the generator end, that accepted writes equal deliveries, that writes begun after the cancellation fail, single mapping and the goroutine dump; non-trivial = cancelled while something was in progress; distinct = distinct configuration with outcome"
	for e := 0; e < t.n(1800); e++ {
		c14one(t, e)
	}
	for e := 0; e < t.n(250); e++ {
		c14held(t, e)
	}
	for e := 0; e < t.n(250); e++ {
		c14busy(t, e)
	}
}

// c14busy cancels while the generator is busy with something else: the output
// ends without it, and what it generates afterwards is not delivered.
func c14busy(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	form := r.Intn(2)
	opts, workers := workerOpts(r)
	before, after := r.Intn(workers+4), r.Intn(4)
	ctx, cancel, kind := liveCtx(r)
	nz := t.noise()
	t.setCase("busy %d: noise %s form %d workers %d items %d+%d ctx %s", e, nz, form, workers, before, after, kind)
	gate, genDone := make(chan struct{}), make(chan struct{})
	runs := make([]int32, before+after)
	var okN int32
	received := 0
	consume := startMap(form, ctx, func(s chan<- interface{}) {
		defer close(genDone)
		for i := 0; i < before; i++ {
			s <- i
		}
		<-gate
		for i := 0; i < after; i++ {
			s <- before + i
		}
	}, func(item interface{}, w xbarrier.Writer) {
		if atomic.AddInt32(&runs[item.(int)], 1) > 1 {
			t.failf("map-count", "item %d was mapped twice", item)
		}
		if w.Write(item) {
			atomic.AddInt32(&okN, 1)
		}
	}, opts...)
	d := t.spawn("consumer of a mapping whose generator is busy", func() {
		consume(func(v interface{}) bool {
			received++
			if v.(int) >= before {
				t.failf("after-cancel", "an item generated after the cancellation was delivered")
			}
			return true
		})
	})
	t.quiesce("mapping whose generator is busy")
	if isDone(d) {
		t.failf("early-end", "the output ended while the generator runs and nothing is cancelled")
	}
	for i := 0; i < before; i++ {
		if n := atomic.LoadInt32(&runs[i]); n != 1 {
			t.failf("map-count", "item %d was mapped %d times before the cancellation", i, n)
		}
	}
	cancel()
	t.await(d, "output of a cancelled mapping whose generator is busy")
	close(gate)
	t.await(genDone, "generator that goes on after the cancellation")
	t.quiet()
	t.leak("cancelled mapping whose generator was busy")
	if received != before || int(okN) != before {
		t.failf("balance", "%d items, %d writes report success, %d values were delivered", before, okN, received)
	}
	t.eval()
	t.count("busy_generators", 1)
	t.seen(fmt.Sprint("busy", form, workers, before, after, kind))
}

const (
	drainAll = iota
	drainLate
	drainSome
	drainNone
)

func c14one(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	form := 0
	consumer := r.Intn(4)
	if consumer == drainAll && r.Intn(2) == 0 {
		form = 1
	}
	opts, workers := workerOpts(r)
	n := 1 + r.Intn(30)
	outs := make([]int, n)
	for i := range outs {
		outs[i] = r.Intn(5)
	}
	ctx, cancel, kind := liveCtx(r)
	at := int32(r.Intn(2 * n)) // the event that cancels; 0: before the start
	async := r.Intn(3) == 0
	ms, gs := r.Intn(4), r.Intn(4)
	nz := t.noise()
	t.setCase("%d: noise %s form %d consumer %d workers %d items %d ctx %s cancel at event %d async %v", e, nz, form, consumer, workers, n, kind, at, async)
	var events int32
	var once sync.Once
	cancelled := never // written once, read after all is over or under its lock
	var cmu sync.Mutex
	fire := func() {
		once.Do(func() {
			cancel()
			cmu.Lock()
			cancelled = now()
			cmu.Unlock()
		})
	}
	cancelledAt := func() int64 {
		cmu.Lock()
		defer cmu.Unlock()
		return cancelled
	}
	event := func() {
		if atomic.AddInt32(&events, 1) == at && !async {
			fire()
		}
	}
	logs := make([]mapLog, n)
	var running int32
	genDone := make(chan struct{})
	gen := func(source chan<- interface{}) {
		defer close(genDone)
		for i := 0; i < n; i++ {
			for k := 0; k < gs; k++ {
				runtime.Gosched()
			}
			event()
			source <- i
		}
	}
	mapper := func(item interface{}, w xbarrier.Writer) {
		atomic.AddInt32(&running, 1)
		defer atomic.AddInt32(&running, -1)
		i := item.(int)
		l := &logs[i]
		if atomic.AddInt32(&l.runs, 1) > 1 {
			t.failf("map-count", "item %d was mapped twice", i)
		}
		event()
		for k := 0; k < outs[i]; k++ {
			for j := 0; j < ms; j++ {
				runtime.Gosched()
			}
			x := mapWrite{call: now()}
			x.ok = w.Write(&mapOut{item: i, n: k, payload: []int{i, k}})
			x.ret = now()
			l.writes = append(l.writes, x)
			event()
		}
	}
	if at == 0 {
		fire()
	}
	got := map[[2]int]int{}
	recv := func(v interface{}) bool {
		event()
		o := v.(*mapOut)
		got[[2]int{o.item, o.payload[1]}]++
		return true
	}
	consume := startMap(form, ctx, gen, mapper, opts...)
	var d <-chan struct{}
	switch consumer {
	case drainAll:
		d = t.spawn("draining consumer", func() { consume(recv) })
	case drainSome:
		lim := 1 + r.Intn(n)
		d = t.spawn("partial consumer", func() {
			c := 0
			consume(func(v interface{}) bool { recv(v); c++; return c < lim })
		})
	}
	if async {
		for k := r.Intn(200); k > 0; k-- {
			runtime.Gosched()
		}
		fire()
	}
	if consumer != drainAll || atomic.LoadInt32(&events) < at {
		// without a consumer, or with too few events, the mapping may have
		// come to rest before its event
		t.quiesce("mapping before its cancellation")
		fire()
	}
	if d != nil {
		t.await(d, "consumer of a cancelled mapping")
	}
	t.await(genDone, "generator of a cancelled mapping")
	t.quiesce("cancelled mapping")
	t.quiet()
	if atomic.LoadInt32(&running) != 0 {
		t.failf("hang", "a mapper of a cancelled mapping is stuck in the library: %s", stacks())
	}
	t.leak("cancelled mapping")
	if consumer != drainAll {
		// the output has ended although nobody read it
		t.do("late drain of a cancelled mapping", func() { consume(recv) })
	}
	fire()
	ca := cancelledAt()
	writes, oks, afterC := 0, 0, 0
	for i := range logs {
		if logs[i].runs > 1 {
			t.failf("map-count", "item %d was mapped %d times", i, logs[i].runs)
		}
		for k, w := range logs[i].writes {
			writes++
			g := got[[2]int{i, k}]
			if w.ok {
				oks++
			}
			if w.call > ca {
				afterC++
				if w.ok {
					t.failf("after-cancel", "a write that began after the cancellation reports success")
				}
			}
			if (g == 1) != w.ok || g > 1 {
				t.failf("balance", "a write that reports %v was delivered %d times (item %d output %d)", w.ok, g, i, k)
			}
		}
	}
	sum := 0
	for _, g := range got {
		sum += g
	}
	if sum != oks {
		t.failf("balance", "%d writes report success, %d values were delivered", oks, sum)
	}
	t.eval()
	t.count("writes", int64(writes))
	t.count("accepted", int64(oks))
	t.count("writes_after_cancel", int64(afterC))
	if events > 0 {
		t.seen(fmt.Sprint(form, consumer, workers, n, at, kind, async, writes, oks, events))
	}
	if e == 5 {
		t.sample(map[string]interface{}{"case": t.desc, "writes": writes, "accepted": oks, "writes_after_cancel": afterC})
	}
}

// c14held cancels while mappers and generator are held back by the user.
func c14held(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	opts, workers := workerOpts(r)
	n := workers + 3
	heldN := 1 + r.Intn(workers)
	ctx, cancel, kind := liveCtx(r)
	drain := r.Intn(2) == 0
	nz := t.noise()
	t.setCase("held %d: noise %s workers %d held %d ctx %s drain %v", e, nz, workers, heldN, kind, drain)
	gate := make(chan struct{})
	genDone := make(chan struct{})
	runs := make([]int32, n)
	var ok1, ok2 int32
	var returned sync.WaitGroup
	mapper := func(item interface{}, w xbarrier.Writer) {
		i := item.(int)
		returned.Add(1)
		defer returned.Done()
		if atomic.AddInt32(&runs[i], 1) > 1 {
			t.failf("map-count", "item %d was mapped twice", i)
		}
		if w.Write(i) {
			atomic.AddInt32(&ok1, 1)
		}
		if i < heldN {
			<-gate
			for k := 0; k < 4; k++ {
				if w.Write(100 + i) {
					atomic.AddInt32(&ok2, 1)
				}
			}
		}
	}
	received := 0
	ch := xmapreduce.Map(ctx, func(s chan<- interface{}) {
		defer close(genDone)
		for i := 0; i < n; i++ {
			s <- i
		}
	}, mapper, opts...)
	var d <-chan struct{}
	if drain {
		d = t.spawn("draining consumer", func() {
			for v := range ch {
				received++
				if v.(int) >= 100 {
					t.failf("after-cancel", "a value written after the cancellation was delivered")
				}
			}
		})
	}
	t.quiesce("held back mappers")
	if drain && isDone(d) {
		t.failf("early-end", "the output ended while mappers run and nothing is cancelled")
	}
	cancel()
	if !drain && r.Intn(2) == 0 {
		t.quiesce("cancelled mapping")
	}
	t.await(genDone, "generator of a cancelled mapping with mappers held back")
	if drain {
		t.await(d, "output of a cancelled mapping with mappers held back")
	} else {
		t.quiesce("cancelled mapping")
		t.do("late drain", func() {
			for range ch {
				received++
			}
		})
	}
	close(gate)
	done := t.spawn("mappers", returned.Wait)
	t.await(done, "mappers of a cancelled mapping")
	t.quiet()
	t.leak("cancelled mapping with mappers held back")
	if ok2 != 0 {
		t.failf("after-cancel", "%d writes after the cancellation report success", ok2)
	}
	if received != int(ok1) {
		t.failf("balance", "%d writes report success, %d values were delivered", ok1, received)
	}
	t.eval()
	t.count("accepted", int64(ok1))
	t.count("writes_after_cancel", int64(4*heldN))
	t.seen(fmt.Sprint("held", workers, heldN, kind, drain, ok1))
}

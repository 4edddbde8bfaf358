package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
)

func init() {
	checks["C09"] = c09
	checks["C10"] = c10
	checks["C11"] = c11
	checks["C12"] = c12
}

// handCtx is a context ended by hand with any error.
type handCtx struct {
	context.Context
	done chan struct{}
	mu   sync.Mutex
	err  error
}

func newHandCtx() *handCtx {
	return &handCtx{Context: context.Background(), done: make(chan struct{})}
}

func (c *handCtx) Done() <-chan struct{} { return c.done }
func (c *handCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *handCtx) end(err error) {
	c.mu.Lock()
	if c.err == nil {
		c.err = err
		close(c.done)
	}
	c.mu.Unlock()
}

type ctxKey struct{}

// liveCtx makes a cancellable context of some kind.
func liveCtx(r *rand.Rand) (context.Context, func(), string) {
	switch r.Intn(8) {
	case 6:
		c, f := context.WithCancelCause(context.Background())
		return c, func() { f(errors.New("the cause")) }, "cause"
	case 7:
		p, f := context.WithCancelCause(context.WithValue(context.Background(), ctxKey{}, 3))
		c, f2 := context.WithTimeoutCause(p, time.Hour, io.EOF)
		_ = f2
		return c, func() { f(io.EOF) }, "parent's cause"
	case 0:
		c, f := context.WithCancel(context.Background())
		return c, f, "cancel"
	case 1:
		p, f := context.WithCancel(context.Background())
		c, f2 := context.WithCancel(p)
		_ = f2
		return c, f, "parent"
	case 2:
		c, f := context.WithTimeout(context.Background(), time.Hour)
		return c, f, "timeout"
	case 3:
		p, f := context.WithCancel(context.Background())
		return context.WithValue(p, ctxKey{}, 1), f, "value"
	case 4:
		c := newHandCtx()
		return c, func() { c.end(context.DeadlineExceeded) }, "hand(deadline)"
	default:
		c := newHandCtx()
		e := errors.New("custom end of context")
		return c, func() { c.end(e) }, "hand(custom)"
	}
}

// endlessCtx never ends.
func endlessCtx(r *rand.Rand) (context.Context, string) {
	switch r.Intn(4) {
	case 0:
		return context.Background(), "background"
	case 1:
		return context.TODO(), "todo"
	case 2:
		return context.WithValue(context.Background(), ctxKey{}, 2), "value"
	default:
		c, _, k := liveCtx(r)
		return c, "live " + k
	}
}

func deadCtx(r *rand.Rand) (context.Context, string) {
	if r.Intn(3) == 0 {
		c, f := context.WithDeadlineCause(context.Background(), time.Now().Add(-time.Hour), errors.New("too late"))
		_ = f
		return c, "past deadline"
	}
	c, f, k := liveCtx(r)
	f()
	return c, "ended " + k
}

// ---- C09 -----------------------------------------------------------------

func c09(t *T) {
	t.rule = "one evaluation = one episode on one channel: (a) concurrent barrier writers and readers, cancelled at random moments, with every transferred value accounted for afterwards; (b) repeated reads and writes with an ended context on a ready channel; (c) reads and writes blocked at the moment of cancellation, or blocked with a live context until the channel becomes ready; (d) readers of a channel that its producer closes; non-trivial = operations overlapped or the channel was ready; distinct = distinct history or configuration with outcome"
	for e := 0; e < t.n(5000); e++ {
		c09hist(t, e)
	}
	for e := 0; e < t.n(1500); e++ {
		c09dead(t, e)
	}
	for e := 0; e < t.n(800); e++ {
		c09blocked(t, e)
	}
	for e := 0; e < t.n(800); e++ {
		c09closed(t, e)
	}
}

// c09closed reads a channel that its producer closes: every value, nil
// included, is read with success, and nothing else is.
func c09closed(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	ctx, kind := endlessCtx(r)
	capacity, n, readers := r.Intn(4), r.Intn(6), 1+r.Intn(3)
	t.setCase("closed %d: noise %s %s cap %d, %d values, %d readers", e, nz, kind, capacity, n, readers)
	ch := make(chan interface{}, capacity)
	seed := r.Int63()
	fns := []func(){func() {
		rr := rand.New(rand.NewSource(seed))
		for i := 0; i < n; i++ {
			if i%3 == 2 {
				ch <- nil
			} else {
				ch <- i
			}
			dwell(rr)
		}
		close(ch)
	}}
	got := make([][]interface{}, readers)
	for k := 0; k < readers; k++ {
		k := k
		fns = append(fns, func() {
			b := xbarrier.NewReadBarrier(ctx, ch)
			for fails := 0; fails < 3; {
				v, ok := b.Read()
				if !ok {
					fails++
					continue
				}
				if fails > 0 {
					t.failf("ghost", "a read of a closed, empty channel reports success with %v", v)
				}
				got[k] = append(got[k], v)
				if len(got[k]) > n {
					t.failf("ghost", "%d reads report success, only %d values were sent", len(got[k]), n)
				}
			}
		})
	}
	t.par("reads of a channel that closes", fns...)
	t.quiet()
	total, nils := 0, 0
	seen := map[interface{}]bool{}
	for _, l := range got {
		last := -1
		for _, v := range l {
			total++
			if v == nil {
				nils++
				continue
			}
			if seen[v] || v.(int) <= last {
				t.failf("order", "value %v read twice or out of order", v)
			}
			seen[v], last = true, v.(int)
		}
	}
	if total != n || nils != n/3 {
		t.failf("balance", "%d values sent (%d of them nil), %d reads report success (%d nil)", n, n/3, total, nils)
	}
	t.eval()
	t.count("reads_until_close", int64(total))
	t.seen(fmt.Sprint("closed", kind, capacity, n, readers, len(got[0])))
}

type token struct {
	w, i    int
	payload []int
}

func c09hist(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	capacity := r.Intn(4)
	writers, readers := 1+r.Intn(3), 1+r.Intn(3)
	per := 1 + r.Intn(6)
	ch := make(chan interface{}, capacity)
	wctx, wcancel, wk := liveCtx(r)
	rctx, rcancel, rk := liveCtx(r)
	shared := r.Intn(2) == 0
	sw, sr := xbarrier.NewWriteBarrier(wctx, ch), xbarrier.NewReadBarrier(rctx, ch)
	cancelW, cancelR := r.Intn(2) == 0, r.Intn(2) == 0
	nz := t.noise()
	t.setCase("history %d: noise %s cap %d writers %d(%s) readers %d(%s) x %d", e, nz, capacity, writers, wk, readers, rk, per)
	h := newHist(writers + readers)
	var fns []func()
	var wStart, rStart int64 // the first cancellation begins
	var cw, cr int64 = never, never
	left := int32(writers)
	for c := 0; c < writers; c++ {
		c, seed := c, r.Int63()
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			b := sw
			if !shared {
				b = xbarrier.NewWriteBarrier(wctx, ch)
			}
			for i := 0; i < per; i++ {
				o := hop{Client: c, Op: "write", In: fmt.Sprintf("%d.%d", c, i)}
				v := &token{w: c, i: i, payload: []int{c*100 + i}}
				o.Call = now()
				ok := b.Write(v)
				o.Ret = now()
				o.Out = ok
				h.add(o)
				dwell(rr)
			}
			if atomic.AddInt32(&left, -1) == 0 {
				// nothing more will come
				atomic.CompareAndSwapInt64(&rStart, 0, now())
				rcancel()
			}
		})
	}
	for c := writers; c < writers+readers; c++ {
		c := c
		fns = append(fns, func() {
			b := sr
			if !shared {
				b = xbarrier.NewReadBarrier(rctx, ch)
			}
			for {
				o := hop{Client: c, Op: "read"}
				o.Call = now()
				v, ok := b.Read()
				o.Ret = now()
				o.Out = "failed"
				if ok {
					x := v.(*token)
					if x.payload[0] != x.w*100+x.i {
						t.failf("payload", "a received value is not what was written")
					}
					o.Out = fmt.Sprintf("%d.%d", x.w, x.i)
				}
				h.add(o)
				if !ok {
					return
				}
			}
		})
	}
	seed := r.Int63()
	fns = append(fns, func() {
		rr := rand.New(rand.NewSource(seed))
		for i := rr.Intn(6); i > 0; i-- {
			dwell(rr)
		}
		if cancelR {
			atomic.CompareAndSwapInt64(&rStart, 0, now())
			rcancel()
			cr = now()
			// with the readers gone the writers need an end, too
			dwell(rr)
			wStart = now()
			wcancel()
			cw = now()
		} else if cancelW {
			wStart = now()
			wcancel()
			cw = now()
		}
	})
	t.par("barrier reads and writes", fns...)
	t.quiet()
	ops := h.all()
	wrote := map[string]hop{}
	okw := map[string]bool{}
	for _, o := range ops {
		if o.Op == "write" {
			wrote[o.In.(string)] = o
			okw[o.In.(string)] = o.Out.(bool)
			if o.Out.(bool) && o.Call > cw {
				t.fail("after-cancel", "a write that began after the cancellation reports success", render(ops))
			}
			if !o.Out.(bool) && (cw == never || o.Ret < wStart) {
				t.fail("spurious", "a write failed though its context is live", render(ops))
			}
		}
	}
	seen := map[string]int{}
	lastOf := map[string]int{}
	for _, l := range h.logs[writers:] {
		for _, o := range l {
			v := o.Out.(string)
			if v == "failed" {
				if o.Ret < rStart {
					t.fail("spurious", "a read failed though its context is live", render(ops))
				}
				continue
			}
			if o.Call > cr {
				t.fail("after-cancel", "a read that began after the cancellation reports success", render(ops))
			}
			seen[v]++
			var w, i int
			fmt.Sscanf(v, "%d.%d", &w, &i)
			k := fmt.Sprint(o.Client, "/", w)
			if prev, ok := lastOf[k]; ok && prev >= i {
				t.fail("order", fmt.Sprintf("a reader got value %d of writer %d after value %d", i, w, prev), render(ops))
			}
			lastOf[k] = i
			if wo := wrote[v]; o.Ret < wo.Call {
				t.fail("early", "a value was read before it was written", render(ops))
			}
		}
	}
	rest := map[int]int{}
	for {
		select {
		case v := <-ch:
			x := v.(*token)
			seen[fmt.Sprintf("%d.%d", x.w, x.i)]++
			if p, ok := rest[x.w]; ok && p >= x.i {
				t.fail("order", "values left in the channel are out of order", render(ops))
			}
			rest[x.w] = x.i
			continue
		default:
		}
		break
	}
	for v, n := range seen {
		if !okw[v] {
			t.fail("ghost", fmt.Sprintf("value %s entered the channel but its write reports failure", v), render(ops))
		}
		if n != 1 {
			t.fail("twice", fmt.Sprintf("value %s arrived %d times", v, n), render(ops))
		}
	}
	for v, ok := range okw {
		if ok && seen[v] == 0 {
			t.fail("lost", fmt.Sprintf("value %s was written with success but neither read nor left", v), render(ops))
		}
	}
	t.eval()
	t.count("transfers", int64(len(seen)))
	if overlaps(ops) > 0 {
		t.seen(shape(ops))
	}
	if e == 9 {
		t.sample(map[string]interface{}{"noise": nz, "history": render(ops)})
	}
}

func c09dead(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	if e%4 == 0 {
		t.noise()
	} else {
		t.quiet()
	}
	ctx, kind := deadCtx(r)
	capacity := r.Intn(4)
	fill := 0
	if capacity > 0 {
		fill = r.Intn(capacity + 1)
	}
	t.setCase("ended context %d: %s, cap %d fill %d", e, kind, capacity, fill)
	ch := make(chan interface{}, capacity)
	for i := 0; i < fill; i++ {
		ch <- i
	}
	t.do("operations with an ended context", func() {
		rb, wb := xbarrier.NewReadBarrier(ctx, ch), xbarrier.NewWriteBarrier(ctx, ch)
		for i := 0; i < 40; i++ {
			if v, ok := rb.Read(); ok {
				t.failf("after-cancel", "a read with an ended context (%s) took %v from a channel holding %d", kind, v, fill)
			}
			if wb.Write("x") {
				t.failf("after-cancel", "a write with an ended context (%s) succeeded on a channel with %d of %d", kind, fill, capacity)
			}
			if len(ch) != fill {
				t.failf("touched", "an operation with an ended context (%s) left %d of %d values", kind, len(ch), fill)
			}
		}
		for i := 0; i < fill; i++ {
			if v := <-ch; v != i {
				t.failf("touched", "value %d of the channel became %v", i, v)
			}
		}
	})
	// a counterpart is waiting on the other side
	if e%5 == 0 {
		ch := make(chan interface{})
		var got interface{}
		d := t.spawn("raw receiver", func() { got = <-ch })
		t.quiesce("raw receiver")
		wb := xbarrier.NewWriteBarrier(ctx, ch)
		t.do("write with an ended context to a waiting receiver", func() {
			for i := 0; i < 40; i++ {
				if wb.Write(i) {
					t.failf("after-cancel", "a write with an ended context (%s) reached a waiting receiver", kind)
				}
			}
		})
		t.quiesce("raw receiver")
		if isDone(d) {
			t.failf("ghost", "a failed write reached the receiver: %v", got)
		}
		ch <- "end"
		t.await(d, "raw receiver")
		d = t.spawn("raw sender", func() { ch <- "sent" })
		t.quiesce("raw sender")
		rb := xbarrier.NewReadBarrier(ctx, ch)
		t.do("read with an ended context from a waiting sender", func() {
			for i := 0; i < 40; i++ {
				if v, ok := rb.Read(); ok {
					t.failf("after-cancel", "a read with an ended context (%s) took %v", kind, v)
				}
			}
		})
		t.quiesce("raw sender")
		if isDone(d) {
			t.failf("lost", "a failed read took the value of a waiting sender")
		}
		if v := <-ch; v != "sent" {
			t.failf("lost", "the sender's value became %v", v)
		}
		t.await(d, "raw sender")
	}
	t.eval()
	t.count("refused_operations", 80)
	t.seen(fmt.Sprint("dead", kind, capacity, fill))
}

func c09blocked(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	nz := t.noise()
	ctx, cancel, kind := liveCtx(r)
	capacity := r.Intn(3)
	ch := make(chan interface{}, capacity)
	n := 1 + r.Intn(3)
	writing := r.Intn(2) == 0
	if writing {
		for i := 0; i < capacity; i++ {
			ch <- -1
		}
	}
	serve := r.Intn(n + 1) // served before the cancellation
	t.setCase("blocked %d: noise %s %s cap %d, %d %v, serve %d", e, nz, kind, capacity, n, map[bool]string{true: "writers", false: "readers"}[writing], serve)
	oks := make([]bool, n)
	vals := make([]interface{}, n)
	var ds []<-chan struct{}
	for i := 0; i < n; i++ {
		i := i
		ds = append(ds, t.spawn("blocked operation", func() {
			if writing {
				oks[i] = xbarrier.NewWriteBarrier(ctx, ch).Write(i)
			} else {
				vals[i], oks[i] = xbarrier.NewReadBarrier(ctx, ch).Read()
			}
		}))
	}
	t.quiesce("blocked operations")
	for i, d := range ds {
		if isDone(d) {
			t.failf("spurious", "an operation that cannot proceed returned %v %v though its context is live", oks[i], vals[i])
		}
	}
	var served []interface{}
	for i := 0; i < serve; i++ {
		if writing {
			served = append(served, <-ch)
		} else {
			var v interface{}
			if i%2 == 0 {
				v = 100 + i
			}
			served = append(served, v)
			ch <- v
		}
	}
	if r.Intn(2) == 0 || serve < n {
		t.quiesce("served operations")
	}
	cancel()
	for _, d := range ds {
		t.await(d, "operation blocked while its context ends")
	}
	t.quiet()
	okn := 0
	for i := range oks {
		if oks[i] {
			okn++
		}
	}
	left := len(ch)
	if writing {
		got := map[interface{}]int{}
		for _, v := range served {
			got[v]++
		}
		for len(ch) > 0 {
			got[<-ch]++
		}
		for i, ok := range oks {
			if (got[i] == 1) != ok || got[i] > 1 {
				t.failf("balance", "write %d reports %v but its value arrived %d times", i, ok, got[i])
			}
		}
		if okn < serve-capacity+min(capacity, 0) {
			t.failf("balance", "%d writes succeeded", okn)
		}
	} else {
		if okn+left != serve {
			t.failf("balance", "%d values sent, %d reads report success, %d left", serve, okn, left)
		}
		sent := map[interface{}]int{}
		for _, v := range served {
			sent[v]++
		}
		for i, ok := range oks {
			if ok {
				sent[vals[i]]--
			}
		}
		for len(ch) > 0 {
			sent[<-ch]--
		}
		for v, n := range sent {
			if n != 0 {
				t.failf("balance", "value %v was sent and received unequally often (%d)", v, n)
			}
		}
	}
	t.eval()
	t.count("blocked_operations", int64(n))
	t.seen(fmt.Sprint("blocked", writing, kind, capacity, n, serve, okn))
}

// ---- C10 -----------------------------------------------------------------

type panicStruct struct{ A, B int }

var doErr = errors.New("error of the function")

// panicValue makes a panic value and the text that must show up.
func panicValue(kind, id int) (interface{}, string) {
	switch kind {
	case 0:
		return fmt.Sprint("panic text ", id), fmt.Sprint("panic text ", id)
	case 1:
		return fmt.Errorf("panic error %d", id), fmt.Sprint("panic error ", id)
	case 2:
		return id + 7700000, fmt.Sprint(id + 7700000)
	case 3:
		return panicStruct{id, 2}, fmt.Sprint(id)
	case 4:
		return nil, "nil"
	}
	return &panicStruct{id, 3}, ""
}

const (
	doNil = iota
	doError
	doPanic
	doExit
	doOutcomes
)

func c10(t *T) {
	t.rule = "one evaluation = one controlled call with a function outcome (nil, error, panic of several types, goroutine exit; immediate or held back), a context state (endless, live, ended before, cancelled while the function is held back, cancelled at a random moment, timeouts) and a cleanup or none; the oracle checks the outcome in the caller, call counts, cleanup counts and goroutine dumps; non-trivial = always; distinct = distinct configuration with outcome"
	for e := 0; e < t.n(6000); e++ {
		c10one(t, e)
	}
	for e := 0; e < t.n(200); e++ {
		c10timeout(t, e)
	}
	c10clock(t)
}

func c10one(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	outcome := r.Intn(doOutcomes)
	pk := r.Intn(6)
	mode := r.Intn(5) // 0 endless 1 live 2 ended before 3 cancelled while held 4 random
	var ctx context.Context
	var cancel func()
	var kind string
	switch mode {
	case 0:
		ctx, kind = endlessCtx(r)
	case 2:
		ctx, kind = deadCtx(r)
	default:
		ctx, cancel, kind = liveCtx(r)
	}
	withCleanup := r.Intn(4) > 0
	form := r.Intn(3)
	if form == 2 {
		withCleanup = false
	}
	held := mode == 3 || (mode < 2 && r.Intn(10) == 0)
	nz := t.noise()
	t.setCase("%d: noise %s outcome %d/%d context %d %s cleanup %v held %v", e, nz, outcome, pk, mode, kind, withCleanup, held)
	gate := make(chan struct{})
	pv, ptext := panicValue(pk, e)
	ran, cleaned := 0, 0 // plain: what the call does must be visible after it
	var calls, cleanups int32
	effect := 0
	fn := func() error {
		atomic.AddInt32(&calls, 1)
		if !(mode == 3 || mode == 4) {
			ran++
		}
		if held {
			<-gate
		}
		if !(mode == 3 || mode == 4) {
			effect = 42
		}
		switch outcome {
		case doError:
			return doErr
		case doPanic:
			panic(pv)
		case doExit:
			runtime.Goexit()
		}
		return nil
	}
	var cleanup func()
	if withCleanup {
		cleanup = func() {
			atomic.AddInt32(&cleanups, 1)
			cleaned++
		}
	}
	var err error
	var p interface{}
	panicked, exited, returned := false, false, false
	cleanedAtReturn := -1
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			cleanedAtReturn = cleaned
			if !returned {
				p = recover()
				panicked = p != nil
				exited = !panicked
			}
		}()
		if form == 2 {
			err = xtask.DoWithoutDefer(ctx, fn)
		} else {
			err = xtask.Do(ctx, fn, cleanup)
		}
		returned = true
	}()
	if mode == 4 {
		for i := r.Intn(5); i > 0; i-- {
			runtime.Gosched()
		}
		cancel()
	}
	if held {
		t.quiesce("call whose function is held back")
		if isDone(done) {
			t.failf("early", "the call returned (%v) while its function runs and its context is live", err)
		}
		if withCleanup && atomic.LoadInt32(&cleanups) != 0 {
			t.failf("cleanup", "the cleanup ran before the call returned from a running function")
		}
		if mode == 3 {
			cancel()
			t.await(done, "call whose context ended")
		} else {
			close(gate)
		}
	}
	t.await(done, "controlled call")
	want := int32(0)
	if withCleanup {
		want = 1
	}
	if cleanups != want || cleanedAtReturn != int(want) {
		t.failf("cleanup", "the cleanup ran %d times before the call returned, %d in all (outcome %d, context %s)", cleanedAtReturn, cleanups, outcome, kind)
	}
	result := "return"
	if panicked {
		result = "panic"
	}
	if exited {
		result = "exit"
	}
	own := func() string {
		switch outcome {
		case doNil:
			if result != "return" || err != nil {
				return fmt.Sprintf("%s %v instead of nil", result, err)
			}
		case doError:
			if result != "return" || err != doErr {
				return fmt.Sprintf("%s %v instead of the function's error", result, err)
			}
		case doPanic:
			if result != "panic" {
				return fmt.Sprintf("%s %v instead of a panic", result, err)
			}
			if !strings.Contains(fmt.Sprint(p), ptext) {
				return fmt.Sprintf("panic without the value %q: %.200v", ptext, p)
			}
		case doExit:
			if result != "exit" {
				return fmt.Sprintf("%s %v instead of a goroutine exit", result, err)
			}
		}
		return ""
	}
	ended := result == "return" && err != nil && err == ctx.Err()
	switch mode {
	case 0, 1:
		if c := atomic.LoadInt32(&calls); c != 1 {
			t.failf("calls", "the function was called %d times", c)
		}
		if m := own(); m != "" {
			t.failf("outcome", "%s (context %s)", m, kind)
		}
		if ran != 1 || effect != 42 {
			t.failf("effects", "effects of the function are not visible after the call")
		}
	case 2:
		if !ended {
			t.failf("outcome", "%s %v with an ended context (%s: %v)", result, err, kind, ctx.Err())
		}
		t.quiesce("call with an ended context")
		if calls != 0 {
			t.failf("calls", "the function was called though the context had ended")
		}
	case 3:
		if !ended {
			t.failf("outcome", "%s %v when the context ended during the function (%s: %v)", result, err, kind, ctx.Err())
		}
		close(gate)
	case 4:
		if m := own(); m != "" && !ended {
			t.failf("outcome", "%s, nor the context's error", m)
		}
		if own() == "" && !ended && atomic.LoadInt32(&calls) == 0 {
			t.failf("calls", "an outcome of a function that was not called")
		}
	}
	t.quiet()
	t.leak("controlled call")
	if c := atomic.LoadInt32(&calls); c > 1 {
		t.failf("calls", "the function was called %d times", c)
	}
	if cleanups != want {
		t.failf("cleanup", "the cleanup ran %d times in all", cleanups)
	}
	if cancel != nil {
		cancel()
	}
	t.eval()
	t.count("result_"+result, 1)
	t.seen(fmt.Sprint(outcome, pk, mode, kind, withCleanup, form, held, result, err))
	if e == 3 || e == 11 {
		t.sample(map[string]interface{}{"case": t.desc, "result": fmt.Sprintf("%s %v %.80v", result, err, p), "cleanups": cleanups})
	}
}

func c10timeout(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	withCleanup := r.Intn(3) > 0
	var cleanups, calls int32
	var cleanup func()
	want := int32(0)
	if withCleanup {
		want = 1
		cleanup = func() { atomic.AddInt32(&cleanups, 1) }
	}
	outcome := r.Intn(2)
	var res error
	if outcome == 1 {
		res = doErr
	}
	kind := r.Intn(3)
	t.setCase("timeout %d kind %d outcome %d cleanup %v", e, kind, outcome, withCleanup)
	gate := make(chan struct{})
	var err error
	switch kind {
	case 0: // no time at all
		d := []time.Duration{0, -1, -time.Hour}[r.Intn(3)]
		t.do("call without time", func() {
			err = xtask.DoWithTimeout(d, func() error { atomic.AddInt32(&calls, 1); return res }, cleanup)
		})
		if err != context.DeadlineExceeded {
			t.failf("outcome", "timeout %v gave %v", d, err)
		}
		t.quiesce("call without time")
		if calls != 0 {
			t.failf("calls", "the function ran though the time was over before")
		}
	case 1: // time runs out
		timeout := time.Duration(1+r.Intn(2000)) * time.Microsecond
		d := t.spawn("call whose time runs out", func() {
			start := time.Now()
			err = xtask.DoWithTimeout(timeout, func() error { <-gate; return res }, cleanup)
			if took := time.Since(start); took < timeout {
				t.failf("early", "a timeout of %v is reported after %v", timeout, took)
			}
		})
		// the timer is the runtime's: the call must return without the gate
		select {
		case <-d:
		case <-time.After(100 * time.Second):
			t.failf("hang", "a call with a timeout of milliseconds does not return while its function runs")
		}
		if err != context.DeadlineExceeded {
			t.failf("outcome", "a timeout gave %v", err)
		}
		close(gate)
	case 2: // plenty of time
		t.do("call with plenty of time", func() {
			long := []time.Duration{time.Hour, time.Minute, math.MaxInt64, 1 << 62, 1000 * 24 * time.Hour}[r.Intn(5)]
			err = xtask.DoWithTimeout(long, func() error { calls++; return res }, cleanup)
		})
		if err != res || calls != 1 {
			t.failf("outcome", "%v after %d calls instead of %v", err, calls, res)
		}
	}
	if c := atomic.LoadInt32(&cleanups); c != want {
		t.failf("cleanup", "the cleanup ran %d times", c)
	}
	t.leak("call with timeout")
	t.eval()
	t.seen(fmt.Sprint("timeout", kind, outcome, withCleanup))
}

// c10clock lets many calls run out of time, or be cancelled, by the clock, with
// functions that never return: none ends early, and most end about when a
// goroutine that just waits does.
func c10clock(t *T) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	t.quiet()
	t.setCase("timeouts by the clock")
	gate := make(chan struct{})
	var mu sync.Mutex
	var late []time.Duration
	var fns []func()
	for i := 0; i < 32; i++ {
		i := i
		timeout := time.Duration(r.Intn(1200000)) * time.Microsecond
		if i%3 == 0 {
			timeout += time.Duration(r.Intn(4000)) * time.Millisecond
		}
		fns = append(fns, func() {
			var ref, end time.Time
			var err error
			waited := make(chan struct{})
			start := time.Now()
			if i%2 == 0 {
				time.AfterFunc(timeout, func() { ref = time.Now(); close(waited) })
				err = xtask.DoWithTimeout(timeout, func() error { <-gate; return nil }, nil)
			} else {
				ctx, cancel := context.WithTimeout(context.Background(), timeout)
				defer cancel()
				go func() { <-ctx.Done(); ref = time.Now(); close(waited) }()
				err = xtask.Do(ctx, func() error { <-gate; return nil }, func() {})
			}
			end = time.Now()
			if err != context.DeadlineExceeded {
				t.failf("outcome", "a timeout of %v gave %v", timeout, err)
			}
			if end.Sub(start) < timeout {
				t.failf("early", "a timeout of %v is reported after %v", timeout, end.Sub(start))
			}
			<-waited
			mu.Lock()
			late = append(late, end.Sub(ref))
			mu.Unlock()
		})
	}
	var wg sync.WaitGroup
	for _, f := range fns {
		f := f
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	select {
	case <-all:
	case <-time.After(100 * time.Second):
		t.failf("hang", "calls with timeouts of a second do not return while their functions run")
	}
	close(gate)
	sort.Slice(late, func(a, b int) bool { return late[a] < late[b] })
	if m := late[len(late)/2]; m > 150*time.Millisecond {
		t.failf("late", "half of the calls returned %v or more after their time was over: %v", m, late)
	}
	t.leak("calls ended by the clock")
	t.eval()
	t.count("calls_by_the_clock", int64(len(fns)))
	t.seen(fmt.Sprint("clock", r.Int()))
}

// ---- C11 -----------------------------------------------------------------

type multiline struct{ s string }

func (m *multiline) Error() string { return m.s }

// errSame is returned by many attempts; bareErr values cannot be compared.
var errSame = errors.New("the same")

type bareErr struct{ parts []string }

func (b bareErr) Error() string { return strings.Join(b.parts, ",") }

func c11(t *T) {
	t.rule = "one evaluation = one retried call with random options and a random outcome sequence (errors of several kinds, first success anywhere or nowhere), alone or several at once; the oracle counts calls and compares the result with the list of failures; non-trivial = at least one attempt failed; distinct = distinct (options, outcome sequence)"
	for e := 0; e < t.n(40000); e++ {
		r := rand.New(rand.NewSource(t.rng.Int63()))
		if e%200 == 0 {
			t.quiet()
		}
		if e%20 == 0 {
			var fns []func()
			for i := 0; i < 4; i++ {
				rr := rand.New(rand.NewSource(r.Int63()))
				fns = append(fns, func() { c11one(t, e, rr) })
			}
			t.par("independent retried calls", fns...)
			continue
		}
		c11one(t, e, r)
	}
}

func c11one(t *T, e int, r *rand.Rand) {
	var opts []xtask.RetryOption
	var list []int
	for i := r.Intn(4); i > 0; i-- {
		n := r.Intn(8)
		if r.Intn(8) == 0 {
			n = []int{-1, -3, 20, -1 << 31, 50, math.MaxInt, math.MaxInt - 1, 1<<32 + 1, math.MinInt}[r.Intn(9)]
		}
		list = append(list, n)
		opts = append(opts, xtask.WithRetry(n))
	}
	budget := 3
	if len(list) > 0 {
		budget = list[len(list)-1]
	}
	if budget < 0 {
		budget = 0
	}
	maxCalls := budget
	if budget < math.MaxInt {
		maxCalls++
	}
	success := -1 // the attempt that succeeds
	if budget > 1000 {
		success = r.Intn(60)
	} else if r.Intn(3) > 0 {
		success = r.Intn(maxCalls + 2)
	}
	same := r.Intn(6)       // 0: always the same error
	flaky := r.Intn(2) == 0 // fails again after the first success
	var errs []error
	calls := 0
	doneOnce := false
	fn := func() error {
		i := calls
		calls++
		if success == i || (success >= 0 && i > success && !flaky) {
			doneOnce = true
			return nil
		}
		var err error
		k := r.Intn(9)
		if same == 0 {
			k = 4
		}
		switch k {
		case 6, 7, 8:
			err = knownErr(r)
		case 4:
			err = errSame
		case 5:
			err = bareErr{[]string{"bare", fmt.Sprint(i / 2)}}
		case 0:
			err = fmt.Errorf("attempt %d failed", i)
		case 1:
			err = &multiline{fmt.Sprintf("attempt %d\nfailed twice", i)}
		case 2:
			err = errors.New("")
		default:
			err = &multiline{fmt.Sprintf("wrapped %d: ✗ %q", i, "\n")}
		}
		errs = append(errs, err)
		return err
	}
	desc := fmt.Sprintf("options %v, success at %d, flaky %v", list, success, flaky)
	var got error
	p, panicked := try(func() { got = xtask.DoWithRetry(fn, opts...) })
	if panicked {
		t.failf("panic", "%s: %v", desc, p)
	}
	wantCalls := maxCalls
	if success >= 0 && success < maxCalls {
		wantCalls = success + 1
	}
	if calls != wantCalls {
		t.failf("calls", "%s: the function was called %d times instead of %d", desc, calls, wantCalls)
	}
	if doneOnce {
		if got != nil {
			t.failf("success", "%s: success at attempt %d reported as %q", desc, success, got.Error())
		}
	} else {
		if got == nil {
			t.failf("hidden", "%s: %d failures reported as success", desc, len(errs))
		}
		if len(errs) == 1 && !sameErr(got, errs[0]) {
			t.failf("identity", "%s: a single failure is not returned as is", desc)
		}
		var want []string
		for _, x := range errs {
			want = append(want, x.Error())
		}
		if w := strings.Join(want, "\n"); got.Error() != w {
			t.failf("text", "%s: reported as %q instead of %q", desc, got.Error(), w)
		}
	}
	t.eval()
	t.count("attempts", int64(calls))
	if len(errs) > 0 {
		t.seen(desc)
	}
	if e == 3 || e == 17 {
		t.sample(map[string]interface{}{"case": desc, "calls": calls, "result": fmt.Sprint(got)})
	}
}

// ---- C12 -----------------------------------------------------------------

func c12(t *T) {
	t.rule = "one evaluation = one worker limiter under load: (a) storms of tasks from several submitters with live, ended and later cancelled contexts and exiting tasks, whose start, end and cleanup events are checked for exactly-once and for the number in progress; (b) gated tasks showing that exactly size tasks get in, that the next submission waits, and that every way of ending frees one slot, repeated along a random history; non-trivial = more tasks than slots; distinct = distinct event order or history"
	for e := 0; e < t.n(1500); e++ {
		c12storm(t, e)
	}
	for e := 0; e < t.n(300); e++ {
		c12slots(t, e)
	}
	for _, n := range []int{0, -1, -2, -1 << 31, -1 << 62, math.MinInt} {
		t.setCase("a limiter of size %d", n)
		if _, p := try(func() { xworker.NewWorker(n) }); !p {
			t.failf("accepted", "NewWorker accepted the size %d", n)
		}
		t.eval()
	}
}

type taskLog struct {
	kind                 int
	runs, cleans         int32
	start, end           int64
	cleanStart, cleanEnd int64
	cancelled            int64
	payload              int
	seen                 int
}

const (
	taskLive = iota
	taskDead
	taskCancelled // abandoned while it runs
	taskExit      // exits its goroutine
)

func c12storm(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	size := 1 + r.Intn(5)
	submitters := 1 + r.Intn(3)
	per := 1 + r.Intn(10)
	mix := r.Intn(3)
	nz := t.noise()
	t.setCase("storm %d: noise %s size %d, %d submitters x %d, mix %d", e, nz, size, submitters, per, mix)
	w := xworker.NewWorker(size)
	logs := make([]*taskLog, submitters*per)
	var all sync.WaitGroup // cleanups
	var late sync.WaitGroup
	all.Add(submitters * per)
	var fns []func()
	for s := 0; s < submitters; s++ {
		s, seed := s, r.Int63()
		fns = append(fns, func() {
			rr := rand.New(rand.NewSource(seed))
			for i := 0; i < per; i++ {
				l := &taskLog{cancelled: never}
				logs[s*per+i] = l
				if mix > 0 {
					l.kind = rr.Intn(4)
				}
				var ctx context.Context
				cancel := func() {}
				switch l.kind {
				case taskDead:
					ctx, _ = deadCtx(rr)
				case taskCancelled:
					ctx, cancel, _ = liveCtx(rr)
				default:
					ctx, _ = endlessCtx(rr)
				}
				d := rr.Intn(8)
				gate := make(chan struct{})
				if l.kind == taskCancelled {
					late.Add(1)
				}
				w.Run(ctx, func() {
					if l.kind == taskCancelled {
						defer late.Done()
					}
					atomic.AddInt32(&l.runs, 1)
					l.start = now()
					for k := 0; k < d; k++ {
						runtime.Gosched()
					}
					switch l.kind {
					case taskCancelled:
						l.cancelled = now()
						cancel()
						<-gate // until its cleanup ran
						return
					case taskExit:
						l.payload = s*per + i + 1
						l.end = now()
						runtime.Goexit()
					}
					l.payload = s*per + i + 1
					l.end = now()
				}, func() {
					l.cleanStart = now()
					if l.kind == taskLive || l.kind == taskExit {
						l.seen = l.payload
					}
					if d > 4 {
						runtime.Gosched()
					}
					l.cleanEnd = now()
					if atomic.AddInt32(&l.cleans, 1) == 1 {
						close(gate)
						all.Done()
					}
				})
			}
		})
	}
	t.par("submissions", fns...)
	done := t.spawn("tasks", func() { all.Wait(); late.Wait() })
	t.await(done, "tasks of a worker limiter")
	t.quiet()
	t.leak("worker limiter")
	var iv [][2]int64
	var es []string
	for i, l := range logs {
		if l.cleans != 1 {
			t.failf("cleanup", "task %d (kind %d) got %d cleanup calls", i, l.kind, l.cleans)
		}
		switch l.kind {
		case taskDead:
			if l.runs != 0 {
				t.failf("ran", "a task whose context had ended ran")
			}
			iv = append(iv, [2]int64{l.cleanStart, l.cleanEnd})
		case taskCancelled:
			if l.runs != 1 {
				t.failf("ran", "a task with a live context ran %d times", l.runs)
			}
			iv = append(iv, [2]int64{l.start, l.cancelled}, [2]int64{l.cleanStart, l.cleanEnd})
		default:
			if l.runs != 1 {
				t.failf("ran", "a task with a live context ran %d times", l.runs)
			}
			if l.cleanStart < l.end || l.seen != i+1 {
				t.failf("order", "a task's cleanup ran before the task had ended")
			}
			iv = append(iv, [2]int64{l.start, l.cleanEnd})
		}
		es = append(es, fmt.Sprint(l.kind, l.start < l.cleanStart))
	}
	m := maxOverlap(iv)
	if m > size {
		t.failf("exceeded", "%d tasks were in progress together in a limiter of %d", m, size)
	}
	t.count("tasks", int64(len(logs)))
	t.count(fmt.Sprintf("reached_%d_of_%d", m, size), 1)
	t.eval()
	if len(logs) > size {
		t.seen(fmt.Sprint(size, submitters, m, es))
	}
	if e == 6 {
		t.sample(map[string]interface{}{"kind": "storm", "noise": nz, "size": size, "tasks": len(logs), "max_in_progress": m})
	}
}

func c12slots(t *T, e int) {
	r := rand.New(rand.NewSource(t.rng.Int63()))
	size := 1 + r.Intn(4)
	nz := t.noise()
	w := xworker.NewWorker(size)
	var hist []string
	t.setCase("slots %d: noise %s size %d", e, nz, size)
	type tk struct {
		l       *taskLog
		gate    chan struct{} // lets the function end
		cgate   chan struct{} // lets the cleanup end
		cancel  func()
		cleaned chan struct{}
		sub     <-chan struct{}
		kind    int
	}
	var started int32
	submit := func(kind int) *tk {
		k := &tk{l: &taskLog{}, gate: make(chan struct{}), cgate: make(chan struct{}), cleaned: make(chan struct{}), kind: kind}
		var ctx context.Context
		if kind == taskDead {
			ctx, _ = deadCtx(r)
			close(k.cgate)
		} else {
			ctx, k.cancel, _ = liveCtx(r)
		}
		k.sub = t.spawn("submission", func() {
			w.Run(ctx, func() {
				atomic.AddInt32(&k.l.runs, 1)
				atomic.AddInt32(&started, 1)
				<-k.gate
				if kind == taskExit {
					runtime.Goexit()
				}
			}, func() {
				if atomic.AddInt32(&k.l.cleans, 1) > 1 {
					t.failf("cleanup", "a second cleanup call")
				}
				<-k.cgate
				close(k.cleaned)
			})
		})
		return k
	}
	var in []*tk
	for round := 0; round < 4; round++ {
		// fill up
		for len(in) < size {
			k := submit([]int{taskLive, taskCancelled, taskExit}[r.Intn(3)])
			in = append(in, k)
		}
		t.quiesce("filling a worker limiter")
		for _, k := range in {
			if !isDone(k.sub) || atomic.LoadInt32(&k.l.runs) != 1 {
				t.failf("slot-lost", "size %d after %v: only %d tasks get in", size, hist, countRunning(in, func(k *tk) bool { return atomic.LoadInt32(&k.l.runs) == 1 }))
			}
		}
		// one more waits
		extraKind := []int{taskLive, taskDead, taskExit, taskCancelled}[r.Intn(4)]
		x := submit(extraKind)
		t.quiesce("one submission too many")
		if atomic.LoadInt32(&x.l.runs) != 0 {
			t.failf("exceeded", "size %d after %v: one more task runs", size, hist)
		}
		if isDone(x.sub) {
			t.failf("no-wait", "size %d after %v: one more submission does not wait", size, hist)
		}
		// one ends, in its own way
		i := r.Intn(len(in))
		k := in[i]
		in = append(in[:i:i], in[i+1:]...)
		holdCleanup := r.Intn(3) == 0
		if !holdCleanup {
			close(k.cgate)
		}
		if k.kind == taskCancelled {
			k.cancel()
		} else {
			close(k.gate)
		}
		if holdCleanup && k.kind != taskCancelled {
			// its cleanup still runs: it holds the slot
			t.quiesce("cleanup held back")
			if atomic.LoadInt32(&k.l.cleans) != 1 {
				t.failf("cleanup", "a finished task got %d cleanup calls", k.l.cleans)
			}
			if isDone(x.sub) || atomic.LoadInt32(&x.l.runs) != 0 {
				t.failf("exceeded", "size %d: the slot of a task still cleaning up was given away", size)
			}
		}
		if holdCleanup {
			close(k.cgate)
		}
		t.await(k.cleaned, "cleanup of an ended task")
		if k.kind == taskCancelled {
			close(k.gate) // the abandoned function may go on until now
		}
		t.await(x.sub, "submission waiting for a slot")
		hist = append(hist, fmt.Sprint(k.kind))
		if extraKind == taskDead {
			t.await(x.cleaned, "cleanup of a task whose context had ended")
			if atomic.LoadInt32(&x.l.runs) != 0 {
				t.failf("ran", "a task whose context had ended ran")
			}
			hist = append(hist, "dead")
		} else {
			in = append(in, x)
		}
		// more ended contexts through the free slots, if any
		for n := r.Intn(3); n > 0 && len(in) < size; n-- {
			d := submit(taskDead)
			t.await(d.cleaned, "cleanup of a task whose context had ended")
			hist = append(hist, "dead")
		}
	}
	for _, k := range in {
		close(k.cgate)
		close(k.gate)
		t.await(k.cleaned, "cleanup of a finished task")
		if k.l.runs != 1 {
			t.failf("ran", "a task ran %d times", k.l.runs)
		}
	}
	t.quiet()
	t.leak("worker limiter")
	t.eval()
	t.count("rendezvous", 4)
	t.seen(fmt.Sprint("slots", size, hist))
	if e == 6 {
		t.sample(map[string]interface{}{"kind": "slots", "noise": nz, "size": size, "history": hist})
	}
}

func countRunning[K any](l []K, f func(K) bool) int {
	n := 0
	for _, k := range l {
		if f(k) {
			n++
		}
	}
	return n
}

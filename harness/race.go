package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strconv"
	"sync"
	"time"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/xio"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/xonce"
	"github.com/chenquan/go-pkg/xring"
	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/xworker"
)

func init() { checks["C30"] = checkRaces }

// pay is plain memory handed over: only the library orders its writing and
// its reading, so a missing edge is a data race the detector reports.
type pay struct {
	a, b int
	s    []int
	m    map[int]int
}

//go:noinline
func newPay(i int) *pay {
	p := new(pay)
	p.a = i
	p.b = i + 1
	p.s = make([]int, 2)
	p.s[0] = i
	p.s[1] = -i
	p.m = map[int]int{i: i}
	return p
}

//go:noinline
func (p *pay) ok() bool {
	return p.b == p.a+1 && len(p.s) == 2 && p.s[0] == p.a && p.s[1] == -p.a && p.m[p.a] == p.a
}

// Close implements io.Closer: a pay may be a managed resource.
func (p *pay) Close() error {
	if !p.ok() {
		return errors.New("torn")
	}
	return nil
}

// racer is one goroutine of a scenario; it logs into its own memory.
type racer struct {
	id   int
	got  []int
	torn bool
	note string
}

func (r *racer) read(v interface{}) {
	p, _ := v.(*pay)
	if p == nil {
		r.torn = true
		return
	}
	if !p.ok() {
		r.torn = true
	}
	r.got = append(r.got, p.a)
}

type scenario struct {
	name string
	run  func(t *T) []*racer
}

// group runs fns as racers in parallel.
func group(t *T, what string, fns ...func(r *racer)) []*racer {
	rs := make([]*racer, len(fns))
	gs := make([]func(), len(fns))
	for i := range fns {
		r := &racer{id: i}
		f := fns[i]
		rs[i] = r
		gs[i] = func() { f(r) }
	}
	t.par(what, gs...)
	return rs
}

// ints draws the random choices of a racer before it starts.
func (t *T) draws(n, lim int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = t.rng.Intn(lim)
	}
	return o
}

func raceMap(t *T) []*racer {
	m := &xsync.Map{}
	keys := 3
	switch t.rng.Intn(3) {
	case 1: // present in the read part
		for k := 0; k < keys; k++ {
			m.Store(k, newPay(1000+k))
		}
		for k := 0; k < 8; k++ {
			m.Load(k)
		}
	case 2: // deleted entries, some of them expunged
		for k := 0; k < keys; k++ {
			m.Store(k, newPay(1000+k))
		}
		m.Range(func(_, _ interface{}) bool { return true })
		m.Delete(0)
		m.Delete(1)
		if t.rng.Intn(2) == 0 {
			m.Store(9, newPay(9))
		}
	}
	mk := func(base int) func(r *racer) {
		ops, ks := t.draws(6, 11), t.draws(6, keys)
		return func(r *racer) {
			for i, op := range ops {
				k := ks[i]
				id := base + i
				switch op {
				case 0, 1:
					m.Store(k, newPay(id))
				case 2:
					if v, loaded := m.LoadOrStore(k, newPay(id)); loaded {
						r.read(v)
					}
				case 3:
					v, loaded := m.ComputeIfAbsent(k, func(interface{}) interface{} { return newPay(id) })
					_ = loaded
					r.read(v)
				case 4:
					v, ok := m.ComputeIfPresent(k, func(_, old interface{}) interface{} {
						r.read(old)
						return newPay(id)
					})
					if ok {
						r.read(v)
					}
				case 5:
					if v, ok := m.LoadAndDelete(k); ok {
						r.read(v)
					}
				case 6:
					m.Delete(k)
				case 7:
					m.Range(func(_, v interface{}) bool {
						r.read(v)
						return true
					})
				case 8:
					if i == 5 {
						m.Clear()
						continue
					}
					fallthrough
				default:
					if v, ok := m.Load(k); ok {
						r.read(v)
					}
				}
			}
		}
	}
	return group(t, "Map hand-over", mk(0), mk(10), mk(20), mk(30))
}

func raceShared(t *T) []*racer {
	m := xsync.NewSharedMap(xsync.WithShardBlockSize(1 << uint(t.rng.Intn(3))))
	keys := []string{"a", "b", "c", "d"}
	mk := func(base int) func(r *racer) {
		ops, ks := t.draws(6, 12), t.draws(6, len(keys))
		return func(r *racer) {
			for i, op := range ops {
				k := keys[ks[i]]
				id := base + i
				switch op {
				case 0, 1:
					m.Store(k, newPay(id))
				case 2:
					m.MStore(map[string]interface{}{k: newPay(id), "b": newPay(id + 100)})
				case 3:
					m.LoadOrStore(k, newPay(id))
				case 4:
					v, _ := m.ComputeIfAbsent(k, func(string) interface{} { return newPay(id) })
					r.read(v)
				case 5:
					v, ok := m.ComputeIfPresent(k, func(_ string, old interface{}) interface{} {
						r.read(old)
						return newPay(id)
					})
					if ok {
						r.read(v)
					}
				case 6:
					m.Delete(k)
				case 7:
					if i == 5 {
						m.Clear()
						continue
					}
					m.Has(k)
				case 8:
					m.Range(func(_, v interface{}) bool {
						r.read(v)
						return true
					})
				default:
					if v, ok := m.Load(k); ok {
						r.read(v)
					}
				}
			}
		}
	}
	rs := group(t, "SharedMap hand-over", mk(0), mk(10), mk(20), mk(30))
	return rs
}

func raceSpin(t *T) []*racer {
	var l xsync.Spinlock
	counter := 0
	var list []int
	mk := func(n int, try bool) func(r *racer) {
		return func(r *racer) {
			for i := 0; i < n; i++ {
				if try && i%2 == 0 {
					if !l.TryLock() {
						continue
					}
				} else {
					l.Lock()
				}
				counter++
				list = append(list, r.id)
				if i == n-1 {
					r.got = append(r.got, counter)
				}
				l.Unlock()
			}
		}
	}
	return group(t, "Spinlock", mk(4, false), mk(3, true), mk(4, true), mk(2, false))
}

func raceManager(t *T) []*racer {
	m := xsync.NewResourceManager()
	keys := []string{"x", "y"}
	mk := func(base int) func(r *racer) {
		ops, ks := t.draws(4, 8), t.draws(4, 2)
		return func(r *racer) {
			for i, op := range ops {
				id := base + i
				if op == 0 {
					m.Remove(keys[ks[i]])
					continue
				}
				v, err := m.Get(keys[ks[i]], func() (io.Closer, error) {
					if op == 1 {
						return nil, errors.New("refused")
					}
					return newPay(id), nil
				})
				if err == nil {
					r.read(v)
				}
			}
		}
	}
	fns := []func(r *racer){mk(0), mk(10), mk(20)}
	if t.rng.Intn(2) == 0 {
		fns = append(fns, func(r *racer) {
			if err := m.Close(); err != nil {
				r.torn = true
			}
		})
	} else {
		fns = append(fns, mk(30))
	}
	return group(t, "ResourceManager hand-over", fns...)
}

func raceOnceValue(t *T) []*racer {
	v := xonce.NewValue()
	w := func(base int) func(r *racer) {
		return func(r *racer) {
			if v.Write(newPay(base)) {
				r.got = append(r.got, 1)
			}
			if x := v.Value(); x != nil {
				r.read(x)
			}
		}
	}
	rd := func(r *racer) {
		for i := 0; i < 200; i++ {
			if x := v.Value(); x != nil {
				r.read(x)
				return
			}
			runtime.Gosched()
		}
	}
	return group(t, "once.Value hand-over", w(1), w(2), rd, rd, rd)
}

func raceOnceChan(t *T) []*racer {
	c := xonce.NewChan()
	w := func(base int) func(r *racer) {
		return func(r *racer) {
			p := newPay(base)
			if c.Write(p) {
				r.got = append(r.got, 1)
			} else {
				p.a = 0 // it is still ours
			}
		}
	}
	return group(t, "once.Chan hand-over", w(1), w(2), w(3), func(r *racer) { r.read(<-c.Chan()) })
}

func raceBarrier(t *T) []*racer {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan interface{}, t.rng.Intn(3))
	n := 3
	stop := t.rng.Intn(3) == 0
	w := func(base int) func(r *racer) {
		b := xbarrier.NewWriteBarrier(ctx, ch)
		return func(r *racer) {
			for i := 0; i < n; i++ {
				p := newPay(base + i)
				if !b.Write(p) {
					p.a = 0 // it is still ours
					return
				}
				r.got = append(r.got, 1)
			}
		}
	}
	rd := func(r *racer) {
		b := xbarrier.NewReadBarrier(ctx, ch)
		for i := 0; i < n; i++ {
			x, ok := b.Read()
			if !ok {
				return
			}
			r.read(x)
		}
	}
	fns := []func(r *racer){w(0), w(10), rd, rd}
	if stop {
		fns = append(fns, func(*racer) { cancel() })
	}
	return group(t, "barrier hand-over", fns...)
}

func raceDo(t *T) []*racer {
	kind := t.rng.Intn(6)
	mk := func(base int) func(r *racer) {
		return func(r *racer) {
			p := newPay(base)
			var out *pay
			f := func() error {
				if !p.ok() {
					r.torn = true
				}
				p.a, p.b = p.a+1, p.b+1
				p.s[0]++
				p.s[1]--
				p.m[p.a] = p.a
				out = p
				if kind == 1 {
					return errors.New("failed")
				}
				if kind == 2 {
					panic("failed")
				}
				return nil
			}
			cleaned := 0
			cleanup := func() {
				cleaned++
				if out != nil {
					r.read(out)
				}
			}
			switch kind {
			case 3:
				if err := xtask.DoWithTimeout(time.Hour, f, cleanup); err != nil {
					r.torn = true
				}
			case 4:
				_ = xtask.DoWithoutDefer(context.Background(), f)
			case 5:
				n := 0
				_ = xtask.DoWithRetry(func() error {
					n++
					if n == 1 {
						return errors.New("again")
					}
					return f()
				})
			default:
				_, _ = try(func() { _ = xtask.Do(context.Background(), f, cleanup) })
			}
			r.read(out)
			r.got = append(r.got, cleaned)
		}
	}
	return group(t, "controlled call", mk(0), mk(10))
}

func raceWorker(t *T) []*racer {
	size := 1 + t.rng.Intn(2)
	w := xworker.NewWorker(size)
	serial := 0
	mk := func(base int) func(r *racer) {
		return func(r *racer) {
			var wg sync.WaitGroup
			slots := make([]*pay, 4)
			for i := 0; i < 4; i++ {
				i := i
				in := newPay(base + i)
				wg.Add(1)
				w.Run(context.Background(), func() {
					if !in.ok() {
						r.torn = true
					}
					slots[i] = newPay(in.a)
					if size == 1 { // one at a time: no lock is needed
						serial++
					}
				}, func() {
					if slots[i] == nil || !slots[i].ok() {
						r.torn = true
					}
					slots[i].s[1] = -slots[i].a
					if size == 1 {
						serial++
					}
					wg.Done()
				})
			}
			wg.Wait()
			for _, p := range slots {
				r.read(p)
			}
		}
	}
	return group(t, "Worker", mk(0), mk(10))
}

func raceMapping(t *T) []*racer {
	n := 2 + t.rng.Intn(8)
	size := []int{1, 2, 4, 16}[t.rng.Intn(4)]
	stream := t.rng.Intn(3) == 0
	cancelAt := -1
	if t.rng.Intn(4) == 0 {
		cancelAt = t.rng.Intn(n)
	}
	return group(t, "mapping", func(r *racer) {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		gen, own := 0, 0
		effects := make([]int, n)
		generate := func(source chan<- interface{}) {
			for i := 0; i < n; i++ {
				source <- newPay(i)
				gen++
			}
		}
		bad := make([]bool, n)
		mapper := func(item interface{}, w xbarrier.Writer) {
			p := item.(*pay)
			i := p.a
			if size == 1 && cancelAt < 0 {
				own++ // one mapper at a time: no lock needed
			}
			if !p.ok() {
				bad[i] = true
			}
			q := newPay(i)
			if w.Write(q) {
				effects[i]++
			} else {
				q.a = -1
			}
			if i%2 == 0 {
				q2 := newPay(i)
				if w.Write(q2) {
					effects[i]++
				} else {
					q2.a = -1
				}
			}
		}
		var out <-chan interface{}
		if stream {
			out = xmapreduce.MapStream(ctx, generate, mapper, xmapreduce.WithWorkerSize(size)).Chan()
		} else {
			out = xmapreduce.Map(ctx, generate, mapper, xmapreduce.WithWorkerSize(size))
		}
		k := 0
		for v := range out {
			r.read(v)
			if k == cancelAt {
				cancel()
			}
			k++
		}
		if cancelAt < 0 {
			r.got = append(r.got, gen)
			if size == 1 && own != n {
				r.torn = true
			}
			for i, e := range effects {
				if bad[i] || e == 0 {
					r.torn = true
				}
			}
		}
	})
}

func raceStream(t *T) []*racer {
	n := 2 + t.rng.Intn(8)
	stages := t.draws(1+t.rng.Intn(4), 12)
	end := t.rng.Intn(7)
	work := []int{1, 2, 4, 0}[t.rng.Intn(4)]
	return group(t, fmt.Sprintf("stream %v end %d", stages, end), func(r *racer) {
		gen := 0
		s := xstream.From(func(source chan<- interface{}) {
			for i := 0; i < n; i++ {
				source <- newPay(i)
				gen++
			}
		})
		opt := func() []xstream.Option {
			if work == 0 {
				return nil
			}
			return []xstream.Option{xstream.WithWorkSize(work)}
		}()
		// effects[stage][item]: each written by one call of a user function
		effects := make([][]int, len(stages))
		own := make([]int, len(stages)) // per stage, when its calls come one at a time
		touch := func(st int, v interface{}) *pay {
			p := v.(*pay)
			if !p.ok() {
				effects[st][p.a%n] = -1000
			}
			effects[st][p.a%n]++
			if work < 2 || stages[st] == 5 || stages[st] == 6 {
				own[st]++
			}
			return p
		}
		cut := false
		for st, k := range stages {
			st := st
			effects[st] = make([]int, n)
			switch k {
			case 0, 1:
				s = s.Map(func(v interface{}) interface{} { return newPay(touch(st, v).a) }, opt...)
			case 2:
				s = s.Filter(func(v interface{}) bool { touch(st, v); return true }, opt...)
			case 3:
				s = s.Walk(func(v interface{}, pipe chan<- interface{}) { pipe <- newPay(touch(st, v).a) }, opt...)
			case 4:
				s = s.FlatMap(func(v interface{}) interface{} { return newPay(touch(st, v).a) }, opt...)
			case 5:
				s = s.Peek(func(v interface{}) { touch(st, v) })
			case 6:
				s = s.Distinct(func(v interface{}) interface{} { return touch(st, v).a })
			case 7:
				s = s.Sort(func(a, b interface{}) bool { return a.(*pay).a < b.(*pay).a })
			case 8:
				s = s.Reverse()
			case 9:
				s = s.Buffer(2)
			case 10:
				s = s.Tail(n)
			default:
				s = s.Skip(1)
				cut = true
			}
		}
		switch end {
		case 0:
			s.Foreach(func(v interface{}) { r.read(v) })
		case 1:
			s.ForeachOrdered(func(v interface{}) { r.read(v) })
		case 2:
			s.Done()
		case 3:
			r.got = append(r.got, s.Count())
		case 4:
			slots := make([]*pay, n)
			calls := 0
			s.ParallelFinish(func(v interface{}) {
				p := v.(*pay)
				if work < 2 {
					calls++
				}
				slots[p.a] = newPay(p.a)
			}, opt...)
			if calls > n {
				r.torn = true
			}
			for _, p := range slots {
				if p != nil {
					r.read(p)
				}
			}
		case 5:
			s.Collection(xstream.CollectorFunc(func(c <-chan interface{}) {
				for v := range c {
					r.read(v)
				}
			}))
		default:
			for v := range s.Chan() {
				r.read(v)
			}
		}
		// the end of the stream has been reported: every effect is visible
		r.got = append(r.got, gen)
		for st := range effects {
			sum := 0
			for _, e := range effects[st] {
				sum += e
			}
			if own[st] != 0 && own[st] != sum {
				r.torn = true
			}
			for _, e := range effects[st] {
				if e > 1 || e < 0 {
					r.torn = true
				}
				if e == 0 && !cut && stages[st] < 7 {
					r.note = fmt.Sprint(stages, end, n, work, effects)
					r.torn = true
				}
			}
		}
	})
}

func raceStreamFan(t *T) []*racer {
	n := 2 + t.rng.Intn(6)
	kind := t.rng.Intn(3)
	var mk []func(r *racer)
	src := func() *xstream.Stream {
		return xstream.From(func(source chan<- interface{}) {
			for i := 0; i < n; i++ {
				source <- newPay(i)
			}
		})
	}
	switch kind {
	case 0: // copies read in parallel
		for _, s := range src().Copy(map[string]int{"a": n, "b": n, "c": n}) {
			s := s
			mk = append(mk, func(r *racer) { s.Foreach(func(v interface{}) { r.read(v) }) })
		}
	case 1: // joined streams read by several goroutines
		ch := src().Concat(src(), src()).Chan()
		for i := 0; i < 3; i++ {
			mk = append(mk, func(r *racer) {
				for v := range ch {
					r.read(v)
				}
			})
		}
	default: // independent streams at once share the pool
		for i := 0; i < 3; i++ {
			mk = append(mk, func(r *racer) {
				s := src().Group(func(v interface{}) interface{} { return v.(*pay).a % 2 })
				s.Foreach(func(v interface{}) {
					l, _ := v.([]interface{})
					for _, x := range l {
						r.read(x)
					}
				})
			})
		}
	}
	return group(t, "streams read in parallel", mk...)
}

func raceRing(t *T) []*racer {
	ring := xring.NewRing(1 + t.rng.Intn(4))
	w := func(base int) func(r *racer) {
		return func(r *racer) {
			for i := 0; i < 4; i++ {
				ring.Add(newPay(base + i))
			}
		}
	}
	rd := func(r *racer) {
		for i := 0; i < 4; i++ {
			l := ring.Take()
			for k, v := range l {
				r.read(v)
				l[k] = nil // the slice is ours
			}
		}
	}
	return group(t, "Ring hand-over", w(0), w(10), rd, rd)
}

func racePool(t *T) []*racer {
	sizes := t.draws(6, 200)
	kind := t.rng.Intn(2)
	mk := func(base int) func(r *racer) {
		return func(r *racer) {
			for i, sz := range sizes {
				b := xbytes.Malloc(sz, sz)
				if kind == 0 {
					b = xbytes.MallocSize(sz)
				}
				if len(b) != sz {
					r.torn = true
				}
				b = b[:cap(b)]
				for k := range b {
					b[k] = byte(base + i)
				}
				runtime.Gosched()
				for k := range b {
					if b[k] != byte(base+i) {
						r.torn = true
					}
				}
				r.got = append(r.got, cap(b))
				xbytes.Free(b)
			}
		}
	}
	return group(t, "byte pool", mk(1), mk(50), mk(100))
}

func raceBuffers(t *T) []*racer {
	sizes := []int{16, 64, 4096}
	pick := t.draws(6, 3)
	mk := func(base int) func(r *racer) {
		return func(r *racer) {
			for i, k := range pick {
				var out bytes.Buffer
				var w *bufio.Writer
				var rd *bufio.Reader
				text := strconv.Itoa(base*100 + i)
				in := bytes.NewBufferString(text)
				if k == 2 {
					w, rd = xio.GetBufferWriter(&out), xio.GetBufferReader(in)
				} else {
					w, rd = xio.GetBufferWriterSize(&out, sizes[k]), xio.GetBufferReaderSize(in, sizes[k])
				}
				_, _ = w.WriteString(text)
				runtime.Gosched()
				_ = w.Flush()
				got, _ := io.ReadAll(rd)
				if out.String() != text || string(got) != text {
					r.torn = true
				}
				r.got = append(r.got, len(got))
				xio.PutBufferWriter(w)
				xio.PutBufferReader(rd)
			}
		}
	}
	return group(t, "buffer pools", mk(1), mk(2), mk(3))
}

func checkRaces(t *T) {
	t.rule = "an episode in which plain-memory payloads were handed between goroutines only through a facility while the race detector watched, and at least one was received; distinct by facility and by which payload each goroutine received"
	scs := []scenario{
		{"map", raceMap}, {"shared map", raceShared}, {"spin lock", raceSpin}, {"resource manager", raceManager},
		{"once value", raceOnceValue}, {"once channel", raceOnceChan}, {"barrier", raceBarrier}, {"controlled call", raceDo},
		{"worker", raceWorker}, {"mapping", raceMapping}, {"stream", raceStream}, {"stream fan", raceStreamFan},
		{"ring", raceRing}, {"byte pool", racePool}, {"buffer pools", raceBuffers}, {"map", raceMap}, {"resource manager", raceManager},
		{"stream", raceStream},
	}
	for i := 0; i < t.n(26000); i++ {
		sc := scs[i%len(scs)]
		noise := t.noise()
		t.setCase("episode %d: %s under %s", i, sc.name, noise)
		rs := sc.run(t)
		t.quiet()
		t.eval()
		t.count("episodes: "+sc.name, 1)
		key := sc.name
		n := 0
		for _, r := range rs {
			if r.torn {
				t.setCase("%s; log %v %q", t.desc, r.got, r.note)
				t.failf("torn", "%s: a goroutine saw a payload that is not what was handed over", sc.name)
			}
			n += len(r.got)
			key += fmt.Sprint(r.got)
		}
		t.count("receptions: "+sc.name, int64(n))
		if n > 0 {
			t.seen(key)
			if i < 3*len(scs) && i%5 == 0 {
				t.sample(map[string]interface{}{"facility": sc.name, "noise": noise, "received": key})
			}
		}
	}
}

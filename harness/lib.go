package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/chenquan/go-pkg/verifrt"
)

// T is the state of one check.
type T struct {
	prop  string
	tier  string
	seed  int64
	rng   *rand.Rand
	rule  string
	start time.Time
	out   string

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	samples  []interface{}
	counters map[string]int64
	known    map[string]bool
	knownHit map[string]string
	failed   bool
	desc     string

	episode int
	points  []int32
	target  int
	procs   int
	percent int
}

type result struct {
	Prop      string            `json:"prop"`
	Evals     int64             `json:"evaluations"`
	Distinct  int               `json:"distinct_nontrivial"`
	Rule      string            `json:"rule"`
	Samples   []interface{}     `json:"samples"`
	Counters  map[string]int64  `json:"counters"`
	KnownHit  map[string]string `json:"known_hit"`
	Violation *violation        `json:"violation"`
}

type violation struct {
	Sig    string      `json:"sig"`
	Msg    string      `json:"msg"`
	Case   string      `json:"case"`
	Detail interface{} `json:"detail"`
	Stack  string      `json:"stack"`
}

func newT(prop string) *T {
	t := &T{prop: prop, tier: os.Getenv("VERIF_TIER"), out: os.Getenv("VERIF_OUT"),
		start: time.Now(), distinct: map[uint64]struct{}{}, counters: map[string]int64{},
		known: map[string]bool{}, knownHit: map[string]string{}}
	if t.tier != "thorough" {
		t.tier = "quick"
	}
	t.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if t.seed == 0 {
		t.seed = 1
	}
	for _, s := range strings.Split(os.Getenv("VERIF_KNOWN"), "\n") {
		if s != "" {
			t.known[s] = true
		}
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d", prop, t.seed)
	if sh := os.Getenv("VERIF_SHARD"); sh != "" && sh != "0" {
		fmt.Fprintf(h, "/%s", sh)
	}
	t.percent, _ = strconv.Atoi(os.Getenv("VERIF_PERCENT"))
	if t.percent <= 0 {
		t.percent = 100
	}
	t.rng = rand.New(rand.NewSource(int64(h.Sum64())))
	verifrt.Set(verifrt.Quiet, 0, 0, 0, h.Sum64())
	return t
}

// n scales a case count with the tier.
func (t *T) n(quick int) int {
	if t.tier == "thorough" {
		quick *= 20
	}
	return max(1, quick*t.percent/100)
}

// setCase describes the case being run, for the replay file.
func (t *T) setCase(format string, a ...interface{}) {
	t.mu.Lock()
	t.desc = fmt.Sprintf(format, a...)
	t.mu.Unlock()
}

func (t *T) eval() {
	t.mu.Lock()
	t.evals++
	t.mu.Unlock()
}

func (t *T) count(name string, n int64) {
	t.mu.Lock()
	t.counters[name] += n
	t.mu.Unlock()
}

// seen records one non-trivial case or history; s identifies it.
func (t *T) seen(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	k := h.Sum64()
	t.mu.Lock()
	t.distinct[k] = struct{}{}
	t.mu.Unlock()
}

func (t *T) sample(v interface{}) {
	t.mu.Lock()
	if len(t.samples) < 4 {
		t.samples = append(t.samples, v)
	}
	t.mu.Unlock()
}

// fail reports a violation. It returns only for a known finding.
func (t *T) fail(sig, msg string, detail interface{}) {
	t.mu.Lock()
	if t.known[sig] {
		t.knownHit[sig] = msg
		t.mu.Unlock()
		return
	}
	if t.failed {
		t.mu.Unlock()
		select {}
	}
	t.failed = true
	t.mu.Unlock()
	t.finish(&violation{Sig: sig, Msg: msg, Case: t.desc, Detail: detail, Stack: string(debug.Stack())})
	os.Exit(1)
}

func (t *T) failf(sig, format string, a ...interface{}) {
	t.fail(sig, fmt.Sprintf(format, a...), nil)
}

func (t *T) finish(v *violation) {
	ids, total := verifrt.Hit()
	t.mu.Lock()
	defer t.mu.Unlock()
	t.counters["noise_points_hit"] = int64(len(ids))
	t.counters["noise_points_passed"] = int64(total)
	r := result{Prop: t.prop, Evals: t.evals, Distinct: len(t.distinct), Rule: t.rule, Samples: t.samples,
		Counters: t.counters, KnownHit: t.knownHit, Violation: v}
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		r.Samples = []interface{}{fmt.Sprintf("%+v", t.samples)}
		if v != nil {
			v.Detail = fmt.Sprintf("%+v", v.Detail)
		}
		b, err = json.MarshalIndent(r, "", " ")
		if err != nil {
			b = []byte(fmt.Sprintf("{\"error\":%q}", err))
		}
	}
	if t.out == "" {
		os.Stdout.Write(append(b, '\n'))
		return
	}
	ks := make([]byte, 0, 8*len(t.distinct))
	for k := range t.distinct {
		ks = binary.LittleEndian.AppendUint64(ks, k)
	}
	_ = os.WriteFile(t.out+".keys", ks, 0o644)
	_ = os.WriteFile(t.out, b, 0o644)
}

func (t *T) inconclusive(msg string) {
	fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", msg)
	fmt.Fprintln(os.Stderr, stacks())
	os.Exit(4)
}

// ---- noise ---------------------------------------------------------------

var procsCycle = []int{8, 4, 2, 8, 1, 3}

// noise chooses the scheduling noise of the next episode.
func (t *T) noise() string {
	e := t.episode
	t.episode++
	if e%50 == 0 {
		p := procsCycle[e/50%len(procsCycle)]
		if p > runtime.NumCPU() {
			p = runtime.NumCPU()
		}
		if p != t.procs {
			runtime.GOMAXPROCS(p)
			t.procs = p
		}
	}
	if e == 30 || e%400 == 399 {
		t.points, _ = verifrt.Hit()
	}
	k := e % 8
	if k >= 3 && k <= 6 && len(t.points) == 0 {
		k = 1
	}
	seed := uint64(t.rng.Int63()) | 1
	switch k {
	case 0:
		verifrt.Set(verifrt.Quiet, 0, 0, 0, seed)
		return fmt.Sprintf("quiet/p%d", t.procs)
	case 3, 4, 5, 6:
		a := t.points[t.target%len(t.points)]
		t.target++
		b := int32(-1)
		if t.rng.Intn(2) == 0 {
			b = t.points[t.rng.Intn(len(t.points))]
		}
		st := []int32{10, 40, 150, 400}[t.rng.Intn(4)]
		verifrt.Set(verifrt.Target, a, b, st, seed)
		return fmt.Sprintf("target %d,%d/%d/p%d", a, b, st, t.procs)
	case 7:
		verifrt.Set(verifrt.Chaos, 0, 0, 0, seed)
		return fmt.Sprintf("chaos/p%d", t.procs)
	default:
		verifrt.Set(verifrt.Yield, 0, 0, 0, seed)
		return fmt.Sprintf("yield/p%d", t.procs)
	}
}

func (t *T) quiet() { verifrt.Set(verifrt.Quiet, 0, 0, 0, 0) }

// ---- time ----------------------------------------------------------------

var base = time.Now()

// now reads the monotonic clock; unlike a shared counter it does not order
// goroutines for the race detector.
func now() int64 { return int64(time.Since(base)) }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// ---- goroutine dumps -----------------------------------------------------

type gor struct {
	id      int
	state   string
	text    string
	lib     bool // runs code of the repository
	libMade bool // was started by the repository
}

func stacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

var gHead = regexp.MustCompile(`^goroutine (\d+)(?: [a-z]+=\S+)* \[([^\]]*)\]:`)

const libPrefix = "github.com/chenquan/go-pkg/"

func snapshot() []gor {
	var gs []gor
	for _, blk := range strings.Split(stacks(), "\n\n") {
		m := gHead.FindStringSubmatch(blk)
		if m == nil {
			continue
		}
		g := gor{text: blk}
		g.id, _ = strconv.Atoi(m[1])
		g.state = m[2]
		if i := strings.Index(g.state, ","); i >= 0 {
			g.state = g.state[:i]
		}
		for _, l := range strings.Split(blk, "\n")[1:] {
			if strings.HasPrefix(l, libPrefix) && !strings.HasPrefix(l, libPrefix+"verifrt.") {
				g.lib = true
			}
			if strings.HasPrefix(l, "created by "+libPrefix) {
				g.libMade = true
			}
		}
		gs = append(gs, g)
	}
	return gs
}

func blockedState(s string) bool {
	switch {
	case strings.HasPrefix(s, "chan receive"), strings.HasPrefix(s, "chan send"), strings.HasPrefix(s, "select"),
		strings.HasPrefix(s, "sync."), s == "semacquire", s == "IO wait", s == "finalizer wait", s == "cleanup wait":
		return true
	}
	return false
}

// allBlocked tells whether no goroutine but the caller can run, with a
// signature of who is blocked where.
func allBlocked() (bool, string) {
	gs := snapshot()
	var sb strings.Builder
	for i, g := range gs {
		if i == 0 {
			continue // the caller comes first
		}
		if !blockedState(g.state) {
			return false, ""
		}
		sb.WriteString(g.text)
	}
	return true, minutes.ReplaceAllString(sb.String(), "]")
}

var minutes = regexp.MustCompile(`, \d+ minutes\]`)

// quiesce waits until every other goroutine is blocked for good. A run that
// never quiets down is cut by its CPU consumption (a livelock) or, far later,
// by the clock (inconclusive).
func (t *T) quiesce(what string) {
	c0, w0, s0 := cpuTime(), time.Now(), verifrt.Steps()
	last, stable := "", 0
	for i := 0; ; i++ {
		ok, sig := allBlocked()
		if ok && sig == last {
			stable++
			if stable >= 3 {
				return
			}
		} else {
			stable = 0
		}
		last = sig
		if !ok {
			last = ""
		}
		if i < 20 {
			runtime.Gosched()
			time.Sleep(50 * time.Microsecond)
		} else {
			time.Sleep(time.Millisecond)
		}
		if i > 20 {
			t.budget(c0, w0, s0, what)
		}
	}
}

func (t *T) budget(c0 time.Duration, w0 time.Time, s0 uint64, what string) {
	if cpuTime()-c0 > 45*time.Second {
		t.fail("livelock", what+": still running after 45 s of processor time", stacks())
	}
	// A loop that sleeps and polls uses little processor time, but its steps
	// add up; an episode makes a few thousand.
	if time.Since(w0) > 120*time.Second && verifrt.Steps()-s0 > 60000 {
		t.fail("livelock", fmt.Sprintf("%s: still running after %d steps of the code under test", what, verifrt.Steps()-s0), stacks())
	}
	if time.Since(w0) > 400*time.Second {
		t.inconclusive(what + ": the machine is too slow")
	}
}

// await waits for done and reports a hang if instead everything is blocked.
func (t *T) await(done <-chan struct{}, what string) bool {
	tm := time.NewTimer(15 * time.Millisecond)
	defer tm.Stop()
	select {
	case <-done:
		return true
	case <-tm.C:
	}
	c0, w0, s0 := cpuTime(), time.Now(), verifrt.Steps()
	last, stable := "", 0
	d := 2 * time.Millisecond
	for {
		tm.Reset(d)
		select {
		case <-done:
			return true
		case <-tm.C:
		}
		ok, sig := allBlocked()
		if ok && sig == last {
			stable++
		} else {
			stable = 0
		}
		last = sig
		if !ok {
			last = ""
		}
		if stable >= 10 {
			d = 50 * time.Millisecond
		}
		// 10 + 60 identical dumps, over 3 seconds: nothing can wake anyone up.
		if stable >= 70 {
			select {
			case <-done:
				return true
			default:
			}
			t.fail("hang", what+": never completes, every goroutine is blocked", stacks())
			return false
		}
		t.budget(c0, w0, s0, what)
	}
}

// leak reports goroutines of the repository that remain once all is quiet.
func (t *T) leak(what string) {
	deadline := 0
	for {
		n := 0
		for i, g := range snapshot() {
			if i > 0 && (g.lib || g.libMade) {
				n++
			}
		}
		if n == 0 {
			return
		}
		deadline++
		if deadline > 5 {
			break
		}
		runtime.Gosched()
		time.Sleep(30 * time.Microsecond)
	}
	t.quiesce(what)
	for i, g := range snapshot() {
		if i > 0 && (g.lib || g.libMade) {
			t.fail("leak", what+": a goroutine of the library remains", g.text)
			return
		}
	}
}

// par runs fns concurrently, released together, and waits for all.
func (t *T) par(what string, fns ...func()) {
	gate := make(chan struct{})
	done := make(chan struct{})
	var wg sync.WaitGroup
	for _, f := range fns {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer t.guard(what)
			<-gate
			f()
		}()
	}
	go func() {
		wg.Wait()
		close(done)
	}()
	close(gate)
	t.await(done, what)
}

// do runs f in a goroutine and waits for it with hang detection.
func (t *T) do(what string, f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer t.guard(what)
		f()
	}()
	t.await(done, what)
}

// spawn starts f and returns a channel closed at its end.
func (t *T) spawn(what string, f func()) <-chan struct{} {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer t.guard(what)
		f()
	}()
	return done
}

func isDone(c <-chan struct{}) bool {
	select {
	case <-c:
		return true
	default:
		return false
	}
}

// guard turns a panic that escapes the library into a violation.
func (t *T) guard(what string) {
	if r := recover(); r != nil {
		t.fail("panic", fmt.Sprintf("%s: panic: %v", what, r), string(debug.Stack()))
	}
}

// try runs f and returns what it panicked with.
func try(f func()) (p interface{}, panicked bool) {
	done := false
	defer func() {
		if !done {
			p = recover()
			panicked = true
		}
	}()
	f()
	done = true
	return
}

// ---- histories -----------------------------------------------------------

type hop struct {
	Client int
	Key    string
	Op     string
	In     interface{}
	Out    interface{}
	Call   int64
	Ret    int64
}

func (h hop) String() string {
	return fmt.Sprintf("[%d..%d] c%d %s(%s %v) -> %v", h.Call, h.Ret, h.Client, h.Op, h.Key, h.In, h.Out)
}

// hist is a set of per-goroutine logs: no sharing while recording.
type hist struct{ logs [][]hop }

func newHist(clients int) *hist { return &hist{logs: make([][]hop, clients)} }

func (h *hist) add(o hop) { h.logs[o.Client] = append(h.logs[o.Client], o) }

func (h *hist) all() []hop {
	var r []hop
	for _, l := range h.logs {
		r = append(r, l...)
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].Call < r[j].Call })
	return r
}

// shape identifies the interleaving: the order of calls and returns with
// their operations and outcomes.
func shape(ops []hop) string {
	type e struct {
		t   int64
		ret bool
		i   int
	}
	es := make([]e, 0, 2*len(ops))
	for i, o := range ops {
		es = append(es, e{o.Call, false, i}, e{o.Ret, true, i})
	}
	sort.SliceStable(es, func(i, j int) bool { return es[i].t < es[j].t })
	var sb strings.Builder
	for _, x := range es {
		o := ops[x.i]
		if x.ret {
			fmt.Fprintf(&sb, "r%d=%v;", o.Client, o.Out)
		} else {
			fmt.Fprintf(&sb, "c%d%s%s%v;", o.Client, o.Op, o.Key, o.In)
		}
	}
	return sb.String()
}

func overlaps(ops []hop) int {
	n := 0
	for i := range ops {
		for j := i + 1; j < len(ops); j++ {
			if ops[i].Client != ops[j].Client && ops[i].Call < ops[j].Ret && ops[j].Call < ops[i].Ret {
				n++
			}
		}
	}
	return n
}

func render(ops []hop) []string {
	r := make([]string, len(ops))
	for i, o := range ops {
		r[i] = o.String()
	}
	return r
}

// linear checks a history against a model; an undecided one is counted.
func (t *T) linear(model porcupine.Model, ops []hop, what string) bool {
	po := make([]porcupine.Operation, len(ops))
	for i, o := range ops {
		ret := o.Ret
		if ret <= o.Call {
			ret = o.Call + 1
		}
		po[i] = porcupine.Operation{ClientId: o.Client, Input: o, Call: o.Call, Output: o.Out, Return: ret}
	}
	switch porcupine.CheckOperationsTimeout(model, po, 20*time.Second) {
	case porcupine.Illegal:
		t.fail("not-linearizable", what+": no sequential order explains the history", render(ops))
		return false
	case porcupine.Unknown:
		t.count("checker_timeouts", 1)
	}
	return true
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// nearKeys returns distinct keys that anything but exact comparison confuses.
func nearKeys(r *rand.Rand) []string {
	pool := []string{"key", "Key", "KEY", " key", "key ", "key\n", "key\x00", "ke", "key/", "/key", "kéy", "ke\u0301y", "k\xe9y", "", " ", "\x00", "0", "00", "-0",
		strings.Repeat("key", 400), strings.Repeat("key", 400) + "x", strings.Repeat("key", 400) + "y", "k\u212a", "kk", "kK"}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	return pool[:3+r.Intn(6)]
}

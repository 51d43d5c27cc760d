// Package hx runs scenarios against the code under test and records their traces.
//
// A scenario is a list of environment actions.  In controlled mode the instrumented code runs
// in a synctest bubble under vsched, one goroutine at a time; in free mode the plain code runs
// in a bubble with real parallelism (and the race detector).  In both modes the controller
// notices quiescence: the moments when nothing can happen any more unless the environment acts.
// They are recorded as "q" events and carry the obligations ("must have happened by now").
package hx

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/gostdlib/concurrency/zzverif/vsched"
)

// W is one execution.
type W struct {
	S     *vsched.S // nil in free mode
	Rng   *rand.Rand
	T     *testing.T
	Limit int // step limit

	mu    sync.Mutex
	buf   []byte
	n     int
	full  bool
	Stuck bool
	naps  int
	gates map[int]*Gate
	steps int
	done  atomic.Bool
}

const maxEvents = 6000

// Ev records an event. Values are int, bool, string or []int.
func (w *W) Ev(k string, kv ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.ev(k, kv...)
}

func (w *W) ev(k string, kv ...any) {
	if w.done.Load() || w.full {
		return
	}
	start := len(w.buf)
	b := w.buf
	if w.n > 0 {
		b = append(b, ',')
	}
	b = append(b, `{"k":"`...)
	b = append(b, k...)
	b = append(b, '"')
	for i := 0; i+1 < len(kv); i += 2 {
		b = append(b, `,"`...)
		b = append(b, kv[i].(string)...)
		b = append(b, `":`...)
		switch v := kv[i+1].(type) {
		case int:
			b = strconv.AppendInt(b, int64(v), 10)
		case int64:
			b = strconv.AppendInt(b, v, 10)
		case bool:
			b = strconv.AppendBool(b, v)
		case json.RawMessage:
			b = append(b, v...)
		case string:
			b = strconv.AppendQuote(b, v)
		case []int:
			b = append(b, '[')
			for j, x := range v {
				if j > 0 {
					b = append(b, ',')
				}
				b = strconv.AppendInt(b, int64(x), 10)
			}
			b = append(b, ']')
		case []string:
			b = append(b, '[')
			for j, x := range v {
				if j > 0 {
					b = append(b, ',')
				}
				b = strconv.AppendQuote(b, x)
			}
			b = append(b, ']')
		default:
			panic(fmt.Sprintf("hx: event value %T", v))
		}
	}
	b = append(b, '}')
	w.buf = b
	w.n++
	mirror(b[start:])
	progress.Add(1)
	if w.n >= maxEvents {
		w.full = true
	}
}

// Events returns the number of events so far.
func (w *W) Events() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.n
}

// Y is a yield point of the harness.
func (w *W) Y() { vsched.Y(-100) }

// Go runs f in a goroutine.
func (w *W) Go(f func()) {
	go func() {
		defer func() {
			if r := recover(); r != nil {
				w.Crash(r)
			}
		}()
		w.Y()
		f()
	}()
}

// Crash records a panic of the code under test.
func (w *W) Crash(r any) {
	m := fmt.Sprint(r)
	if os.Getenv("VH_STACK") != "" {
		var b [8192]byte
		os.Stderr.Write(b[:runtime.Stack(b[:], false)])
	}
	if len(m) > 200 {
		m = m[:200]
	}
	w.Ev("crash", "m", m)
}

// Gate is a latch that the environment opens.
type Gate struct {
	w    *W
	open bool
	ch   chan struct{}
}

// Gate returns the gate with this number.
func (w *W) Gate(i int) *Gate {
	w.mu.Lock()
	defer w.mu.Unlock()
	g := w.gates[i]
	if g == nil {
		g = &Gate{w: w, ch: make(chan struct{})}
		w.gates[i] = g
	}
	return g
}

// Wait waits until the gate is open.
func (g *Gate) Wait() {
	<-g.ch
	g.w.Y()
}

// WaitCtx waits until the gate is open or ctx is done.
func (g *Gate) WaitCtx(ctx context.Context) error {
	var err error
	select {
	case <-g.ch:
	case <-ctx.Done():
		err = ctx.Err()
	}
	g.w.Y()
	return err
}

// Open opens the gate.
func (g *Gate) Open() {
	g.w.mu.Lock()
	defer g.w.mu.Unlock()
	if !g.open {
		g.open = true
		close(g.ch)
	}
}

// OpenAll opens all gates, also those not yet used.
func (w *W) IsOpen(i int) bool {
	g := w.Gate(i)
	w.mu.Lock()
	defer w.mu.Unlock()
	return g.open
}

// LetTimePass makes some executions let (virtual) time pass at a few of the moments of quiescence: nothing may depend on it.
// In total less than 200 hours pass.
func (w *W) LetTimePass() {
	if w.Rng.Intn(4) == 0 {
		w.naps = 1 + w.Rng.Intn(5)
	}
}

// Settle runs until quiescence. It reports false if the step limit was reached.
func (w *W) Settle() bool {
	if !w.settle() {
		return false
	}
	if w.naps > 0 && w.Rng.Intn(6) == 0 {
		w.naps--
		h := time.Hour
		d := []time.Duration{time.Millisecond, 100 * time.Millisecond, time.Second, 10 * time.Second, time.Minute, 10 * time.Minute, h, 25 * h}[w.Rng.Intn(8)]
		// Whoever wakes up has to be let go on: a loop that sleeps needs many steps.
		for n := []int{1, 1, 20, 1500}[w.Rng.Intn(4)]; n > 0; n-- {
			time.Sleep(d / time.Duration(n))
			d -= d / time.Duration(n)
			if !w.settle() {
				return false
			}
		}
		return true
	}
	return true
}

func (w *W) settle() bool {
	if w.S == nil {
		synctest.Wait()
		progress.Add(1)
		return true
	}
	for w.S.Step() {
		w.steps++
		if w.steps&63 == 0 {
			progress.Add(1)
		}
		if w.steps > w.Limit {
			w.Stuck = true
			return false
		}
	}
	return true
}

// Call runs f in a goroutine of its own until quiescence and reports whether it returned.
func (w *W) Call(f func()) bool {
	var ok atomic.Bool
	w.Go(func() {
		f()
		ok.Store(true)
	})
	return w.Settle() && ok.Load()
}

// Some lets up to n scheduling steps happen; in free mode it just yields.
func (w *W) Some(n int) {
	if w.S == nil {
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
		return
	}
	for i := 0; i < n; i++ {
		if !w.S.Step() {
			return
		}
		w.steps++
	}
}

// Steps returns the number of scheduling steps so far.
func (w *W) Steps() int { return w.steps }

// Leftover returns the number of goroutines of this bubble besides the caller whose stack
// does not contain any of the given texts.
func (w *W) Leftover(ignore ...string) int {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	gs := strings.Split(string(buf), "\n\n")
	me := gs[0]
	i := strings.Index(me, "synctest bubble ")
	if i < 0 {
		return 0
	}
	j := strings.IndexAny(me[i:], "],")
	tag := me[i : i+j]
	n := 0
next:
	for _, g := range gs[1:] {
		h := g
		if k := strings.IndexByte(g, '\n'); k > 0 {
			h = g[:k]
		}
		if !strings.Contains(h, tag+"]") && !strings.Contains(h, tag+",") {
			continue
		}
		if strings.Contains(g, "internal/synctest.Run(") || strings.Contains(g, "testingSynctestTest(") {
			continue
		}
		for _, s := range ignore {
			if strings.Contains(g, s) {
				continue next
			}
		}
		if os.Getenv("VH_STACK") != "" {
			fmt.Fprintln(os.Stderr, g)
		}
		n++
	}
	return n
}

// ---------------------------------------------------------------------------------------

var (
	progress atomic.Int64
	mm       []byte
	mmPos    int
)

// mirror copies an event to a shared mapping, which survives a crash of the process.
func mirror(b []byte) {
	if mm == nil {
		return
	}
	if mmPos+len(b)+1 >= len(mm) {
		return
	}
	copy(mm[mmPos:], b)
	mmPos += len(b)
	mm[mmPos] = 0
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Env are the parameters of a run.
type Env struct {
	Out     string
	Seed    int64
	Shard   int
	Shards  int
	N       int // executions of this shard
	Seconds int
	Focus   string
	Free    bool
	Scripts []json.RawMessage
	Only    int64  // seed of a single execution
	Trace   string // "1" or "0" forces tracing on or off; "2": and records the spans
}

// Rec decides whether an execution has a recording span.
func (e *Env) Rec(def bool) bool {
	if e.Trace != "" {
		return e.Trace != "0"
	}
	return def
}

// Spans decides whether the life of the spans is recorded, too.
func (e *Env) Spans() bool { return e.Trace == "2" }

// GetEnv reads the parameters.
func GetEnv() Env {
	e := Env{
		Out:     os.Getenv("VH_OUT"),
		Seed:    int64(envInt("VH_SEED", 1)),
		Shard:   envInt("VH_SHARD", 0),
		Shards:  envInt("VH_SHARDS", 1),
		N:       envInt("VH_N", 100),
		Seconds: envInt("VH_SECONDS", 60),
		Focus:   os.Getenv("VH_FOCUS"),
		Trace:   os.Getenv("VH_TRACE"),
		Free:    os.Getenv("VH_MODE") == "free",
		Only:    int64(envInt("VH_ONLY", 0)),
	}
	if f := os.Getenv("VH_SCRIPTS"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if l != "" {
				e.Scripts = append(e.Scripts, json.RawMessage(l))
			}
		}
	}
	return e
}

// SyncMode decides which actions of a model-generated script wait for quiescence: all, none or some.
func SyncMode(rng *rand.Rand) func() bool {
	p := []int{0, 50, 100}[rng.Intn(3)]
	return func() bool { return rng.Intn(100) < p }
}

// Scenario is one kind of execution: it makes a configuration and returns the body.
type Scenario func(e *Env, idx int, script json.RawMessage, rng *rand.Rand) (cfg map[string]any, limit int, body func(w *W))

// Main runs the scenario as often as asked for and writes the distinct traces.
func Main(t *testing.T, sc Scenario) {
	e := GetEnv()
	if e.Out == "" {
		t.Skip("no VH_OUT")
	}
	f, err := os.Create(e.Out)
	if err != nil {
		t.Fatal(err)
	}
	out := bufio.NewWriterSize(f, 1<<20)
	mf, err := os.OpenFile(e.Out+".cur", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err == nil {
		const size = 2 << 20
		mf.Truncate(size)
		if m, err := syscall.Mmap(int(mf.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
			mm = m
		}
	}
	go watchdog()

	seen := map[uint64]bool{}
	begin := time.Now()
	ran, distinct, steps, choices, stuck, leaks := 0, 0, 0, 0, 0, 0
	for i := 0; i < e.N; i++ {
		if time.Since(begin) > time.Duration(e.Seconds)*time.Second {
			break
		}
		idx := i*e.Shards + e.Shard
		seed := e.Seed*1_000_003 + int64(idx)
		if e.Only != 0 {
			seed = e.Only
			idx = int(e.Only - e.Seed*1_000_003)
		}
		rng := rand.New(rand.NewSource(seed))
		var script json.RawMessage
		if len(e.Scripts) > 0 {
			script = e.Scripts[idx%len(e.Scripts)]
		}
		cfg, limit, body := sc(&e, idx, script, rng)
		cj, err := json.Marshal(cfg)
		if err != nil {
			panic(err)
		}
		w := &W{Rng: rng, Limit: limit, gates: map[int]*Gate{}}
		mmPos = 0
		mirror([]byte(fmt.Sprintf(`{"seed":%d,"cfg":%s,"ev":[`, seed, cj)))
		if os.Getenv("VH_VERBOSE") != "" {
			fmt.Fprintln(os.Stderr, "seed", seed, string(cj))
		}
		if !one(w, t, seed, e.Free, body) {
			leaks++
		}
		ran++
		steps += w.steps
		if w.S != nil {
			choices += w.S.Choices
		}
		if w.Stuck {
			stuck++
		}
		h := fnv.New64a()
		h.Write(cj)
		h.Write(w.buf)
		if k := h.Sum64(); !seen[k] {
			seen[k] = true
			distinct++
			fmt.Fprintf(out, `{"id":%d,"cfg":%s,"ev":[%s]}`+"\n", seed, cj, w.buf)
		}
		if e.Only != 0 {
			break
		}
	}
	mmPos = 0
	if mm != nil {
		mm[0] = 0
	}
	out.Flush()
	f.Close()
	sum := map[string]any{"executions": ran, "distinct": distinct, "steps": steps, "choices": choices,
		"stuck": stuck, "sites": len(vsched.Sites), "leaky": leaks, "seconds": time.Since(begin).Seconds()}
	b, _ := json.Marshal(sum)
	os.WriteFile(e.Out+".sum", b, 0o644)
}

// one runs one execution; it reports false if goroutines were left over.
func one(w *W, t *testing.T, seed int64, free bool, body func(w *W)) (clean bool) {
	clean = true
	defer func() {
		w.done.Store(true)
		if r := recover(); r != nil {
			m := fmt.Sprint(r)
			if strings.Contains(m, "bubble") && strings.Contains(m, "deadlock") {
				clean = false
				return
			}
			panic(r)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		w.T = t
		if !free {
			w.S = vsched.New(seed, synctest.Wait)
			defer w.S.Stop()
		}
		body(w)
		w.done.Store(true)
	})
	return
}

func watchdog() {
	last, n := int64(-1), 0
	for {
		time.Sleep(time.Second)
		p := progress.Load()
		if p != last {
			last, n = p, 0
			continue
		}
		if n++; n > envInt("VH_HANG", 40) {
			mirror([]byte(`,{"k":"hang"}`))
			buf := make([]byte, 1<<20)
			os.Stderr.Write(buf[:runtime.Stack(buf, true)])
			os.Exit(77)
		}
	}
}

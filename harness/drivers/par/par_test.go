// Package par drives slices.Access, chans.Access and chans.Modify through scenarios; see spec/Par.tla.
package par

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/chans"
	"github.com/gostdlib/concurrency/prim/slices"
	"github.com/gostdlib/concurrency/zzverif/hx"
	"github.com/gostdlib/concurrency/zzverif/vspan"
)

// Op is an environment action.
type Op struct {
	Op   string `json:"op"` // call, send, close, recv, open, cancel, occ, oopen
	I    int    `json:"i"`
	N    int    `json:"n"`
	Sync bool   `json:"sync"`
}

// Elem is how the call for an element behaves.
type Elem struct {
	Gate bool `json:"gate"` // waits for its gate
	GC   bool `json:"gc"`   // or for its context
	E    int  `json:"e"`    // kind of error
	Set  int  `json:"set"`  // number of times the setter is called
}

// Script is a scenario.
type Script struct {
	Kind   string `json:"kind"`
	N      int    `json:"n"`
	Pool   string `json:"pool"`
	Size   int    `json:"size"`
	NB     bool   `json:"nb"`
	Stop   bool   `json:"stop"`
	ICap   int    `json:"icap"`
	OCap   int    `json:"ocap"`
	Spy    bool   `json:"spy"`
	DL     bool   `json:"dl"` // the caller's context ends by a deadline
	NoRecv bool   `json:"norecv"`
	Off    int    `json:"off"`  // subtracted from elements and results, so that some are zero
	Twin   bool   `json:"twin"` // another operation is stuck at the same time
	Elems  []Elem `json:"elems"`
	Ops    []Op   `json:"ops"`
}

func random(e *hx.Env, rng *rand.Rand) Script {
	kinds := []string{"slice", "access", "modify"}
	switch e.Focus {
	case "C14":
		kinds = []string{"slice"}
	case "C15":
		kinds = []string{"access"}
	case "C16":
		kinds = []string{"modify"}
	}
	s := Script{Kind: kinds[rng.Intn(len(kinds))], N: rng.Intn(8), Stop: rng.Intn(3) == 0, ICap: rng.Intn(4) / 2 * rng.Intn(3), OCap: rng.Intn(4) / 2 * rng.Intn(3), DL: rng.Intn(6) == 0}
	if s.Kind == "slice" && rng.Intn(3) == 0 {
		s.N = 8 + rng.Intn(6)
	}
	if s.Kind != "slice" {
		s.N++
	}
	switch {
	case e.Free && rng.Intn(10) == 0:
		s.N = 50 + rng.Intn(150)
	case rng.Intn(25) == 0:
		s.N = 20 + rng.Intn(15)
		if rng.Intn(4) == 0 {
			s.N = 100 + rng.Intn(200)
		}
	}
	s.Off = rng.Intn(3)
	s.Twin = rng.Intn(12) == 0
	s.Pool = []string{"none", "limited", "pooled"}[rng.Intn(3)]
	if e.Focus == "C18" && rng.Intn(2) == 0 {
		s.Pool = []string{"limited", "pooled"}[rng.Intn(2)]
	}
	if s.Pool != "none" {
		s.Size = 1 + rng.Intn(4)
		s.NB = rng.Intn(4) == 0
		s.Spy = rng.Intn(2) == 0
	}
	s.NoRecv = rng.Intn(4) == 0
	// More elements than CPUs, all in progress.
	wide := rng.Intn(12) == 0 || e.Focus == "C18" && rng.Intn(5) == 0
	if wide = wide && runtime.NumCPU() <= 64; wide {
		s.Pool, s.Size, s.NB, s.Spy = "none", 0, false, false
		s.N = runtime.NumCPU() + 1 + rng.Intn(runtime.NumCPU()+2)
	}
	perr := []int{0, 0, 25, 60}[rng.Intn(4)]
	if e.Focus == "C17" {
		perr = []int{0, 15, 30, 80}[rng.Intn(4)]
		s.Stop = rng.Intn(2) == 0
	}
	pgate := []int{0, 40, 100}[rng.Intn(3)]
	if s.N > 15 {
		pgate = []int{0, 10}[rng.Intn(2)]
	}
	if wide || s.Kind == "slice" && s.N > 8 && s.N <= 15 && s.Pool == "none" {
		pgate = 100
	}
	for i := 0; i < s.N; i++ {
		x := Elem{Gate: rng.Intn(100) < pgate, GC: rng.Intn(2) == 0, Set: rng.Intn(4)}
		if rng.Intn(100) < perr {
			x.E = 1 + rng.Intn(6)
		}
		s.Elems = append(s.Elems, x)
	}
	psync := []int{0, 30, 80, 100}[rng.Intn(4)]
	pcan := []int{0, 0, 10}[rng.Intn(3)]
	pocc := 0
	if s.Pool != "none" {
		pocc = []int{0, 0, 15}[rng.Intn(3)]
	}
	early := rng.Intn(5)
	if rng.Intn(3) == 0 {
		early = 0
	}
	n := 3 + rng.Intn(10) + s.N
	if n > 40 {
		n = 40
	}
	next, occ, called := 1, 0, false
	if wide {
		called = true
		s.Ops = append(s.Ops, Op{Op: "call"})
		if s.Kind != "slice" {
			s.Ops = append(s.Ops, Op{Op: "send", I: 1, N: s.N - 1})
			next = s.N + 1
		}
		psync = 100
	}
	for k := 0; k < n; k++ {
		var o Op
		switch r := rng.Intn(100); {
		case !called && k >= early:
			o = Op{Op: "call"}
			called = true
		case r < pcan:
			o = Op{Op: "cancel"}
		case r < pcan+pocc:
			if occ > 0 && rng.Intn(2) == 0 {
				o = Op{Op: "oopen", I: 1 + rng.Intn(occ)}
			} else {
				occ++
				o = Op{Op: "occ", I: occ}
			}
		case s.Kind != "slice" && next <= s.N && rng.Intn(100) < 50:
			o = Op{Op: "send", I: next}
			next++
			if rng.Intn(4) == 0 {
				o.N = 1 + rng.Intn(3) // a run of values
				if s.N > 15 {
					o.N = 1 + rng.Intn(s.N)
				}
				if o.I+o.N > s.N {
					o.N = s.N - o.I
				}
				next += o.N
			}
		case s.Kind != "slice" && rng.Intn(100) < 4:
			o = Op{Op: "close"}
		case s.Kind == "modify" && !s.NoRecv && rng.Intn(100) < 40:
			o = Op{Op: "recv", N: 1 + rng.Intn(3)}
		case s.N > 0:
			o = Op{Op: "open", I: 1 + rng.Intn(s.N)}
		default:
			continue
		}
		o.Sync = rng.Intn(100) < psync
		s.Ops = append(s.Ops, o)
	}
	if !called {
		s.Ops = append(s.Ops, Op{Op: "call"})
	}
	return s
}

type myErr struct{ n int }

// Some errors have nothing to say, some go on for long, some say what others say.
func (e *myErr) Error() string {
	switch {
	case e.n%7 == 5:
		return ""
	case e.n%7 == 6:
		return "error " + strings.Repeat("x", 3000)
	case e.n%7 == 4:
		return "error\nerror"
	}
	return fmt.Sprint("error ", e.n)
}

type ctxErr struct {
	n int
	e error
}

func (e *ctxErr) Error() string { return fmt.Sprint("error ", e.n, ": ", e.e) }
func (e *ctxErr) Unwrap() error { return e.e }

type ckey struct{}

// spy is a pool that records the jobs submitted to it.
type spy struct {
	goroutines.Pool
	d *drv
}

func (p *spy) Submit(ctx context.Context, job goroutines.Job, o ...goroutines.SubmitOption) error {
	if job == nil {
		return p.Pool.Submit(ctx, job, o...)
	}
	return p.Pool.Submit(ctx, func(ctx context.Context) {
		p.d.w.Ev("js")
		defer p.d.w.Ev("je")
		job(ctx)
	}, o...)
}

type drv struct {
	w      *hx.W
	s      Script
	base   context.Context
	ctx    context.Context
	cancel func()
	real   goroutines.Pool
	in     chan int
	out    chan chans.StreamResult[int]
	abort  chan struct{}
	sl     []int

	mu     sync.Mutex
	errs   map[int]error
	live   map[int]context.Context
	called bool
	closed bool
	ret    atomic.Bool
	rp     atomic.Int64
	sp     atomic.Int64
	occ    int
	outcl  atomic.Bool
	calls  atomic.Int64
	used   []atomic.Int64 // how often each submit option was used
	twin   atomic.Bool // the other operation has returned
}

func (d *drv) elem(i int) Elem {
	if i >= 1 && i <= len(d.s.Elems) {
		return d.s.Elems[i-1]
	}
	return Elem{}
}

// errCause is why a context is cancelled; no error is ever reported as this one.
var errCause = errors.New("the cause")

func (d *drv) err(i int, k int, ctx context.Context) (int, error) {
	var err error
	switch k {
	case 0:
		return 0, nil
	case 1, 2, 3:
		err = &myErr{i}
	case 4:
		return -1, context.Canceled
	case 5:
		if ctx.Err() != nil {
			return -1, ctx.Err()
		}
		return -1, context.DeadlineExceeded
	case 6:
		err = &ctxErr{i, context.Canceled}
	}
	d.mu.Lock()
	d.errs[i] = err
	d.mu.Unlock()
	return i, err
}

func (d *drv) body(ctx context.Context, i, v int, set func(int)) error {
	w := d.w
	k, _ := ctx.Value(ckey{}).(int)
	w.Ev("start", "i", i, "v", v, "c", k == 7)
	d.mu.Lock()
	d.live[i] = ctx
	d.mu.Unlock()
	x := d.elem(i)
	w.Y()
	doset := func(n int) {
		if set != nil {
			w.Ev("set", "i", i, "v", 10*i+n)
			set(10*(i-d.s.Off) + n)
			w.Y()
		}
	}
	if x.Set > 0 {
		doset(1)
	}
	if x.Gate {
		if x.GC {
			w.Gate(i).WaitCtx(ctx)
		} else {
			w.Gate(i).Wait()
		}
	}
	for n := 2; n <= x.Set; n++ {
		doset(n)
	}
	n, err := d.err(i, x.E, ctx)
	d.mu.Lock()
	delete(d.live, i)
	d.mu.Unlock()
	d.calls.Add(1)
	w.Ev("end", "i", i, "e", n)
	return err
}

// counted is a submit option that counts how often it is used.
func counted[O any, F ~func(O) (O, error)](f F, n *atomic.Int64) F {
	return func(o O) (O, error) {
		n.Add(1)
		return f(o)
	}
}

func (d *drv) call() {
	w := d.w
	var pool goroutines.Pool = d.real
	if d.s.Spy {
		pool = &spy{Pool: d.real, d: d}
	}
	var po []goroutines.SubmitOption
	if d.s.NB {
		if d.s.N%2 == 0 {
			if d.s.Pool == "limited" {
				po = append(po, limited.Caller("caller"))
			} else {
				po = append(po, pooled.Caller("caller"))
			}
		}
		if d.s.Pool == "limited" {
			po = append(po, limited.NonBlocking())
		} else {
			po = append(po, pooled.NonBlocking())
		}
		d.used = make([]atomic.Int64, len(po))
		for k := range po {
			po[k] = counted(po[k], &d.used[k])
		}
	}
	var so []slices.SliceOption
	var co []chans.Option
	if d.s.Pool != "none" {
		so = append(so, slices.WithPoolOptions(pool, po...))
		co = append(co, chans.WithPoolOptions(pool, po...))
	}
	if d.s.Stop {
		so = append(so, slices.WithStopOnErr())
		co = append(co, chans.WithStopOnErr())
	}
	w.Ev("call")
	var err error
	switch d.s.Kind {
	case "slice":
		err = slices.Access(d.ctx, d.sl, func(ctx context.Context, i int, v int, m slices.Modifier[int]) error {
			return d.body(ctx, i+1, v+10*d.s.Off, func(v int) { m(v) })
		}, so...)
	case "access":
		err = chans.Access(d.ctx, d.in, func(ctx context.Context, v int) error { return d.body(ctx, v+d.s.Off, v+d.s.Off, nil) }, co...)
	case "modify":
		err = chans.Modify(d.ctx, d.in, d.out, func(ctx context.Context, v int) (int, error) {
			return v, d.body(ctx, v+d.s.Off, v+d.s.Off, nil)
		}, co...)
	}
	es := []int{}
	d.mu.Lock()
	for n, e := range d.errs {
		if errors.Is(err, e) {
			es = append(es, n)
		}
	}
	d.mu.Unlock()
	w.Ev("ret", "es", es, "ok", err == nil, "vals", d.vals())
	d.ret.Store(true)
}

func (d *drv) vals() []int {
	r := []int{}
	for _, v := range d.sl {
		r = append(r, v+10*d.s.Off)
	}
	return r
}

func (d *drv) recv(n int) {
	w := d.w
	w.Go(func() {
		for k := 0; k < n; k++ {
			d.rp.Add(1)
			r, ok := <-d.out
			d.rp.Add(-1)
			if !ok {
				w.Ev("outclosed")
				d.outcl.Store(true)
				return
			}
			w.Y()
			var m *myErr
			var c *ctxErr
			switch {
			case r.Err == nil:
				w.Ev("recv", "v", r.Value+d.s.Off, "e", 0)
			case errors.As(r.Err, &m):
				w.Ev("recv", "v", m.n, "e", m.n)
			case errors.As(r.Err, &c):
				w.Ev("recv", "v", c.n, "e", c.n)
			case errors.Is(r.Err, context.Canceled), errors.Is(r.Err, context.DeadlineExceeded):
				w.Ev("recv", "v", 0, "e", -1)
			default:
				w.Ev("recv", "v", -1, "e", 0)
			}
		}
	})
}

func (d *drv) q() bool {
	ok := d.w.Settle()
	if !ok {
		d.w.Ev("stuck")
		return false
	}
	r := -1
	if d.real != nil {
		d.w.Call(func() { r = d.real.Running() })
	}
	live, dead := []int{}, []int{}
	d.mu.Lock()
	for i, c := range d.live {
		if c.Err() == nil {
			live = append(live, i)
		} else {
			dead = append(dead, i)
		}
	}
	d.mu.Unlock()
	d.w.Ev("q", "live", live, "dead", dead, "r", r, "rp", int(d.rp.Load()))
	return true
}

func (d *drv) doCancel() {
	w := d.w
	w.Ev("cancel")
	if d.s.DL {
		time.Sleep(200*time.Hour + 1)
	}
	d.cancel()
	w.Ev("cancelled")
}

func (d *drv) closeIn() bool {
	if d.closed || d.s.Kind == "slice" || d.sp.Load() > 0 {
		return false
	}
	d.closed = true
	d.w.Ev("close")
	close(d.in)
	return true
}

func (d *drv) do(o Op) {
	w := d.w
	switch o.Op {
	case "call":
		if !d.called {
			d.called = true
			w.Go(d.call)
		}
	case "send":
		if d.closed || d.s.Kind == "slice" {
			return
		}
		d.sp.Add(1)
		w.Go(func() {
			defer d.sp.Add(-1)
			for v := o.I; v <= o.I+o.N; v++ {
				w.Ev("send", "v", v)
				select {
				case d.in <- v - d.s.Off:
					w.Ev("sent", "v", v)
					w.Y()
				case <-d.abort:
					return
				}
			}
		})
	case "close":
		d.closeIn()
	case "recv":
		if d.s.Kind == "modify" {
			d.recv(o.N)
		}
	case "open":
		w.Gate(o.I).Open()
	case "cancel":
		if d.s.DL {
			d.doCancel() // sleeps
		} else {
			w.Go(d.doCancel)
		}
	case "occ":
		if d.real == nil {
			return
		}
		d.occ++
		i := d.occ
		w.Go(func() {
			d.real.Submit(d.base, func(context.Context) {
				w.Ev("ob", "o", i)
				w.Gate(500 + i).Wait()
				w.Ev("oe", "o", i)
			})
		})
	case "oopen":
		w.Gate(500 + o.I).Open()
	}
}

func (d *drv) run() {
	w := d.w
	w.LetTimePass()
	var cancel context.CancelFunc
	c0 := context.WithValue(d.base, ckey{}, 7)
	if d.s.DL {
		d.ctx, cancel = context.WithTimeoutCause(c0, 200*time.Hour, errCause)
	} else {
		ctx, cc := context.WithCancelCause(c0)
		d.ctx, cancel = ctx, func() { cc(errCause) }
	}
	defer cancel()
	d.cancel = cancel
	switch d.s.Pool {
	case "limited":
		d.real, _ = limited.New("", d.s.Size)
	case "pooled":
		d.real, _ = pooled.New("", d.s.Size)
	}
	if d.s.Twin {
		w.Go(func() {
			x := make([]int, runtime.NumCPU()+1)
			slices.Access(d.base, x, func(context.Context, int, int, slices.Modifier[int]) error {
				w.Gate(9999).Wait()
				return nil
			})
			d.twin.Store(true)
		})
	}
	d.in = make(chan int, d.s.ICap)
	d.out = make(chan chans.StreamResult[int], d.s.OCap)
	if d.s.Kind == "slice" {
		for i := 1; i <= d.s.N; i++ {
			d.sl = append(d.sl, 10*(i-d.s.Off))
		}
		if d.s.N == 0 && w.Rng.Intn(2) == 0 {
			d.sl = []int{}
		}
	}
	for _, o := range d.s.Ops {
		if o.Sync {
			if !d.q() {
				return
			}
		} else {
			w.Some(w.Rng.Intn(40))
		}
		d.do(o)
	}
	if !d.called {
		d.do(Op{Op: "call"})
	}
	// Let it finish.
	norecv := d.s.NoRecv && d.s.Kind == "modify"
	drained := false
	for k := 0; k < 400; k++ {
		if !d.q() {
			return
		}
		if d.ret.Load() {
			break
		}
		if norecv && w.Rng.Intn(3) == 0 {
			norecv = false
			d.doCancel()
			continue
		}
		var acts []func()
		for i := 1; i <= d.s.N; i++ {
			i := i
			if d.elem(i).Gate && !w.IsOpen(i) {
				acts = append(acts, func() { w.Gate(i).Open() })
			}
		}
		for i := 1; i <= d.occ; i++ {
			i := i
			if !w.IsOpen(500 + i) {
				acts = append(acts, func() { w.Gate(500 + i).Open() })
			}
		}
		if d.s.Kind == "modify" && !drained && !norecv {
			acts = append(acts, func() { drained = true; d.recv(300) })
		}
		if !d.closed && d.s.Kind != "slice" && d.sp.Load() == 0 {
			acts = append(acts, func() { d.closeIn() })
		}
		if len(acts) == 0 {
			if norecv {
				continue
			}
			break
		}
		acts[w.Rng.Intn(len(acts))]()
	}
	for i := 1; i <= d.s.N; i++ {
		w.Gate(i).Open()
	}
	for i := 1; i <= d.occ; i++ {
		w.Gate(500 + i).Open()
	}
	close(d.abort)
	if d.s.Kind == "modify" && !drained {
		d.recv(300)
	}
	if !d.q() || !d.ret.Load() {
		return
	}
	if d.s.Kind == "slice" {
		w.Ev("vals", "v", d.vals())
	}
	for k := range d.used {
		w.Ev("opts", "n", int(d.used[k].Load()), "m", int(d.calls.Load()))
	}
	if d.real != nil {
		ran := false
		ok := w.Call(func() {
			done := make(chan struct{})
			if err := d.real.Submit(d.base, func(context.Context) { close(done) }); err == nil {
				<-done
				ran = true
			}
		})
		w.Ev("poolok", "b", ok && ran)
		if !w.Call(d.real.Close) {
			w.Ev("poolok", "b", false)
			return
		}
	}
	if d.s.Twin {
		w.Gate(9999).Open()
		if !w.Settle() {
			return
		}
		if !d.twin.Load() {
			w.Ev("hang")
			return
		}
	}
	w.Ev("leak", "n", w.Leftover())
}

func TestPar(t *testing.T) {
	hx.Main(t, func(e *hx.Env, idx int, script json.RawMessage, rng *rand.Rand) (map[string]any, int, func(*hx.W)) {
		var s Script
		if script != nil {
			if err := json.Unmarshal(script, &s); err != nil {
				panic(err)
			}
			s.Pool = []string{"none", "none", "limited", "pooled"}[rng.Intn(4)]
			if s.Pool != "none" {
				s.Size = 1 + rng.Intn(2)
				s.NB, s.Spy = rng.Intn(4) == 0, rng.Intn(2) == 0
			}
			s.Stop, s.DL, s.Off, s.NoRecv = rng.Intn(3) == 0, rng.Intn(6) == 0, rng.Intn(3), rng.Intn(4) == 0
			s.ICap, s.OCap = rng.Intn(3), rng.Intn(3)
			sync := hx.SyncMode(rng)
			for i := range s.Ops {
				s.Ops[i].Sync = sync()
			}
			called := false
			for _, o := range s.Ops {
				called = called || o.Op == "call"
			}
			if !called {
				s.Ops = append(s.Ops, Op{Op: "call"})
			}
		} else {
			s = random(e, rng)
		}
		if s.Spy && s.Pool == "none" {
			s.Spy = false
		}
		rec := e.Rec(rng.Intn(4) == 0)
		n := s.N
		if s.Kind != "slice" {
			n = 0
		}
		cfg := map[string]any{"op": s.Kind, "n": n, "pool": s.Pool, "size": s.Size, "nb": s.NB, "stop": s.Stop, "cpus": runtime.NumCPU(), "ocap": s.OCap, "spy": s.Spy}
		return cfg, 30000, func(w *hx.W) {
			d := &drv{w: w, s: s, base: context.Background(), abort: make(chan struct{}), errs: map[int]error{}, live: map[int]context.Context{}}
			if rec {
				d.base = vspan.Context(d.base)
			}
			d.run()
		}
	})
}

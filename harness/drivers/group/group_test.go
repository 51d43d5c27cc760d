// Package group drives wait.Groups through scenarios; see spec/Group.tla for the events.
package group

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/prim/wait"
	"github.com/gostdlib/concurrency/zzverif/hx"
	"github.com/gostdlib/concurrency/zzverif/vspan"
)

// Op is an environment action.
type Op struct {
	Op   string `json:"op"`
	G    int    `json:"g"`
	F    int    `json:"f"`
	C    int    `json:"c"`    // context: 0 that of the round, else an extra one
	E    int    `json:"e"`    // kind of error
	Gate bool   `json:"gate"` // 1: waits for its gate, whatever its context
	GC   bool   `json:"gc"`   // the gate ends early with the context
	Body []Op   `json:"body"` // nested go
	Sync bool   `json:"sync"`
	N    int    `json:"n"`
}

// Script is a scenario.
type Script struct {
	Pool   string `json:"pool"`
	Size   int    `json:"size"`
	NB     []bool `json:"nb"`
	Cancel []bool `json:"cancel"` // the groups have a cancel function
	Ops    []Op   `json:"ops"`
	Groups int    `json:"groups"`
}

func random(e *hx.Env, rng *rand.Rand) Script {
	s := Script{Pool: []string{"none", "limited", "pooled"}[rng.Intn(3)], Size: 1 + rng.Intn(3), Groups: 1 + rng.Intn(2)}
	for g := 0; g < s.Groups; g++ {
		s.NB = append(s.NB, s.Pool != "none" && rng.Intn(4) == 0)
		s.Cancel = append(s.Cancel, rng.Intn(3) > 0)
	}
	top := 14
	if rng.Intn(8) == 0 {
		s.Size, top = 4+rng.Intn(6), 24
	}
	perr := []int{0, 20, 50, 90}[rng.Intn(4)]
	pgate := []int{0, 30, 80, 100}[rng.Intn(4)]
	pext := []int{0, 0, 25}[rng.Intn(3)]
	prun := []int{0, 10}[rng.Intn(2)]
	pcan := []int{0, 5, 15}[rng.Intn(3)]
	pwait := []int{6, 12, 25}[rng.Intn(3)]
	psync := []int{0, 30, 80, 100}[rng.Intn(4)]
	pnest := []int{0, 0, 30}[rng.Intn(3)]
	switch e.Focus {
	case "C11":
		perr = []int{10, 50, 90}[rng.Intn(3)]
	case "C12":
		perr, pgate = []int{0, 10, 40}[rng.Intn(3)], 80
	case "C13":
		prun, pwait = 15, 20
	}
	parents := 0
	next := 1
	var fs []int
	mk := func(g int) Op {
		o := Op{Op: "go", G: g, F: next, Gate: rng.Intn(100) < pgate, GC: rng.Intn(3) == 0}
		if rng.Intn(100) < pext {
			o.C = 1 + rng.Intn(3)
		}
		if rng.Intn(100) < perr {
			o.E = 1 + rng.Intn(7)
		}
		fs = append(fs, next)
		next++
		return o
	}
	max := 4 + rng.Intn(10)
	if e.Free {
		max = 6 + rng.Intn(30)
	}
	switch rng.Intn(80) {
	case 0: // many functions
		o := Op{Op: "burst", G: 1 + rng.Intn(s.Groups), F: next, N: 20 << rng.Intn(5), E: rng.Intn(8) * rng.Intn(2), Gate: rng.Intn(100) < pgate}
		next += o.N
		top += o.N
		s.Ops = append(s.Ops, o)
	case 1: // many rounds
		n := 10 << rng.Intn(3)
		for k := 0; k < n; k++ {
			s.Ops = append(s.Ops, Op{Op: "go", G: 1, F: next, E: rng.Intn(8) * rng.Intn(2)}, Op{Op: "wait", G: 1, Sync: rng.Intn(2) == 0}, Op{Op: "run", G: 1, Sync: true})
			next++
		}
		top += n
	}
	for i := 0; i < max && next <= top; i++ {
		g := 1 + rng.Intn(s.Groups)
		var o Op
		switch r := rng.Intn(100); {
		case r < prun:
			o = Op{Op: "run", G: g}
		case r < prun+pcan:
			o = Op{Op: "cancel", G: g, C: rng.Intn(4)}
		case r < prun+pcan+pwait:
			o = Op{Op: "wait", G: g}
		case r < prun+pcan+pwait+4:
			o = Op{Op: "burst", G: g, F: next, N: 2 + rng.Intn(3), E: rng.Intn(8)}
			if rng.Intn(3) > 0 {
				o.E = rng.Intn(2)
			}
			if e.Free {
				o.N = 2 + rng.Intn(20)
			}
			next += o.N
		case len(fs) > 0 && rng.Intn(100) < 30:
			o = Op{Op: "open", F: fs[rng.Intn(len(fs))]}
		default:
			o = mk(g)
			ok := s.Pool == "none" || s.NB[g-1]
			if !ok && parents < s.Size-1 {
				ok = true
			}
			if ok && rng.Intn(100) < pnest {
				parents++
				o.Body = append(o.Body, mk(g))
			}
		}
		o.Sync = rng.Intn(100) < psync
		s.Ops = append(s.Ops, o)
	}
	return s
}

type myErr struct{ n int }

// Some errors have nothing to say, some go on for long, some say what others say.
func (e *myErr) Error() string {
	switch {
	case e.n%7 == 5:
		return ""
	case e.n%7 == 6:
		return "error " + strings.Repeat("x", 3000)
	case e.n%7 == 4:
		return "error\nerror"
	}
	return fmt.Sprint("error ", e.n)
}

type ctxErr struct {
	n int
	e error
}

func (e *ctxErr) Error() string { return fmt.Sprint("error ", e.n, ": ", e.e) }
func (e *ctxErr) Unwrap() error { return e.e }

type sliceErr struct {
	n int
	x []int
}

func (e sliceErr) Error() string { return fmt.Sprint("error ", e.n) }
func (e sliceErr) Is(t error) bool {
	v, ok := t.(sliceErr)
	return ok && v.n == e.n
}

var sentinel = errors.New("sentinel")

const sentinelID = 1000

// hasPlain reports whether a context error itself, not a wrapped one of ours, is in err.
func hasPlain(err error) bool {
	switch v := err.(type) {
	case nil:
		return false
	case *ctxErr, *myErr, sliceErr:
		return false
	case interface{ Unwrap() []error }:
		for _, e := range v.Unwrap() {
			if hasPlain(e) {
				return true
			}
		}
		return false
	default:
		if err == context.Canceled || err == context.DeadlineExceeded {
			return true
		}
		return hasPlain(errors.Unwrap(err))
	}
}

// errCause is why a context is cancelled; no error is ever reported as this one.
var errCause = errors.New("the cause")

type cx struct {
	id     int
	ctx    context.Context
	cancel func()
	tr     bool // has a recording span
}

type grp struct {
	wait.Group
	id      int
	round   int
	c       *cx
	ext     atomic.Int64
	waiting atomic.Bool
	starts  int
}

type ckey struct{}

type drv struct {
	w     *hx.W
	s     Script
	base  context.Context
	mixed bool // not every context has the span
	pool  goroutines.Pool
	gs    []*grp

	cxs hx.Ctxs

	mu    sync.Mutex
	errs  map[int]error
	ctxs  map[int]*cx
	nctx  int
	ended map[int]bool
}

// newCtx makes a context: kind 0 and 1 are cancelled by a call, 2 by its deadline.
func (d *drv) newCtx(kind int) *cx {
	d.nctx++
	c := &cx{id: d.nctx}
	w := d.w
	base := d.base
	if d.mixed && d.nctx%3 == 1 {
		base = context.Background()
	}
	c.tr = vspan.ID(base) > 0
	if kind == 2 {
		ctx, cancel := context.WithTimeoutCause(base, 200*time.Hour, errCause)
		c.ctx = ctx
		c.cancel = func() {
			w.Ev("cancel", "c", c.id)
			time.Sleep(200*time.Hour + 1)
			cancel()
			w.Ev("cancelled", "c", c.id)
		}
		return c
	}
	ctx, cancel := context.WithCancelCause(base)
	c.ctx = ctx
	c.cancel = func() {
		w.Ev("cancel", "c", c.id)
		w.Y()
		cancel(errCause)
		w.Ev("cancelled", "c", c.id)
	}
	return c
}

func (d *drv) newRound(g *grp) {
	g.round++
	g.c = d.newCtx(0)
	id := 0
	if d.s.Cancel[g.id-1] {
		c := g.c
		id = c.id
		g.CancelOnErr = func() {
			d.w.Ev("cf", "g", g.id)
			c.cancel()
		}
	}
	d.w.Ev("round", "g", g.id, "c", id)
}

func (d *drv) err(o Op, ctx context.Context) (int, error) {
	var err error
	n := o.F
	switch o.E {
	case 0:
		return 0, nil
	case 1, 2:
		err = &myErr{n: n}
	case 3:
		return -1, context.Canceled
	case 4:
		if ctx.Err() == nil {
			return -2, context.DeadlineExceeded
		}
		if ctx.Err() == context.Canceled {
			return -1, ctx.Err()
		}
		return -2, ctx.Err()
	case 5:
		err = &ctxErr{n, context.Canceled}
	case 6:
		err = sliceErr{n: n, x: []int{1}}
	case 7:
		n, err = sentinelID, sentinel
	}
	d.mu.Lock()
	d.errs[n] = err
	d.mu.Unlock()
	return n, err
}

func (d *drv) goCall(g *grp, o Op) {
	w := d.w
	c := g.c
	if o.C > 0 {
		c = d.ctxs[o.C]
	}
	w.Ev("go", "g", g.id, "f", o.F, "c", c.id, "nb", d.s.NB[g.id-1], "tr", c.tr)
	own := context.WithValue(c.ctx, ckey{}, o.F)
	g.Go(own, func(ctx context.Context) error {
		d.cxs.Begin(o.F, own, ctx)
		v, _ := ctx.Value(ckey{}).(int)
		w.Ev("start", "g", g.id, "f", o.F, "c", v == o.F, "sp", vspan.ID(ctx))
		w.Y()
		for _, b := range o.Body {
			d.goCall(g, b)
		}
		if o.Gate {
			if o.GC {
				w.Gate(o.F).WaitCtx(ctx)
			} else {
				w.Gate(o.F).Wait()
			}
		}
		w.Y()
		n, err := d.err(o, ctx)
		d.cxs.End(o.F)
		w.Ev("end", "g", g.id, "f", o.F, "e", n, "sp", vspan.ID(ctx))
		return err
	})
	w.Ev("goret", "g", g.id, "f", o.F)
}

func (d *drv) wait(g *grp) bool {
	if g.ext.Load() > 0 || g.waiting.Load() {
		return false
	}
	w := d.w
	g.waiting.Store(true)
	ctx := d.base
	switch w.Rng.Intn(4) {
	case 0:
		ctx = g.c.ctx
	case 1:
		ctx = d.ctxs[1+w.Rng.Intn(3)].ctx
	}
	w.Go(func() {
		w.Ev("wait", "g", g.id)
		w.Y()
		err := g.Wait(ctx)
		var es []int
		d.mu.Lock()
		for n, e := range d.errs {
			if errors.Is(err, e) {
				es = append(es, n)
			}
		}
		d.mu.Unlock()
		if es == nil {
			es = []int{}
		}
		w.Ev("waitret", "g", g.id, "es", es, "ctx", hasPlain(err), "ok", err == nil, "z", g.CancelOnErr == nil, "r", g.Running())
		d.mu.Lock()
		d.newRound(g)
		d.mu.Unlock()
		g.waiting.Store(false)
	})
	return true
}

func (d *drv) q() bool {
	ok := d.w.Settle()
	if !ok {
		d.w.Ev("stuck")
		return false
	}
	rs := make([]int, len(d.gs))
	d.w.Call(func() {
		for i, g := range d.gs {
			rs[i] = g.Running()
		}
	})
	for _, f := range d.cxs.Lost() {
		d.w.Ev("octx", "f", f)
	}
	d.w.Ev("q", "rs", rs)
	return true
}

func (d *drv) walk(ops []Op, f func(Op)) {
	for _, o := range ops {
		f(o)
		d.walk(o.Body, f)
	}
}

func (d *drv) run() {
	w := d.w
	w.LetTimePass()
	opts := []goroutines.SubmitOption(nil)
	switch d.s.Pool {
	case "limited":
		d.pool, _ = limited.New("", d.s.Size)
		opts = append(opts, limited.NonBlocking())
	case "pooled":
		d.pool, _ = pooled.New("", d.s.Size)
		opts = append(opts, pooled.NonBlocking())
	}
	for c := 1; c <= 3; c++ {
		d.ctxs[c] = d.newCtx(c - 1)
	}
	for i := 1; i <= d.s.Groups; i++ {
		g := &grp{id: i}
		g.Pool = d.pool
		if d.s.NB[i-1] {
			g.PoolOptions = opts
		}
		if i == 2 {
			g.Name = "second"
		}
		d.newRound(g)
		d.gs = append(d.gs, g)
	}
	id := 0
	for _, o := range d.s.Ops {
		if o.Sync {
			if !d.q() {
				return
			}
		} else {
			w.Some(w.Rng.Intn(40))
		}
		o := o
		var g *grp
		if o.G > 0 {
			g = d.gs[o.G-1]
		}
		id++
		i := id
		switch o.Op {
		case "go":
			if g.waiting.Load() {
				continue
			}
			g.ext.Add(1)
			w.Go(func() { defer g.ext.Add(-1); d.goCall(g, o) })
		case "burst":
			if g.waiting.Load() {
				continue
			}
			g.ext.Add(1)
			w.Go(func() {
				defer g.ext.Add(-1)
				for k := 0; k < o.N; k++ {
					d.goCall(g, Op{G: o.G, F: o.F + k, E: o.E, Gate: o.Gate})
				}
			})
		case "open":
			w.Gate(o.F).Open()
		case "cancel":
			if o.C == 3 {
				d.ctxs[3].cancel() // waits in virtual time: not in a goroutine of its own
				continue
			}
			d.mu.Lock()
			c := d.gs[o.G-1].c
			d.mu.Unlock()
			if o.C > 0 {
				c = d.ctxs[o.C]
			}
			w.Go(c.cancel)
		case "wait":
			d.wait(g)
		case "run":
			w.Go(func() {
				for k := 0; k < 3; k++ {
					w.Ev("run", "i", i*10+k, "g", o.G)
					v := g.Running()
					w.Ev("runret", "i", i*10+k, "v", v)
					w.Y()
				}
			})
		}
	}
	var gates []int
	d.walk(d.s.Ops, func(o Op) {
		for k := 0; o.Gate && (k == 0 || k < o.N); k++ {
			gates = append(gates, o.F+k)
		}
	})
	w.Rng.Shuffle(len(gates), func(i, j int) { gates[i], gates[j] = gates[j], gates[i] })
	for len(gates) > 0 {
		if !d.q() {
			return
		}
		for n := 1 + w.Rng.Intn(2) + len(gates)/20; n > 0 && len(gates) > 0; n-- {
			w.Gate(gates[0]).Open()
			gates = gates[1:]
		}
		if w.Rng.Intn(3) == 0 {
			d.wait(d.gs[w.Rng.Intn(len(d.gs))])
		}
	}
	for k := 0; k < 2; k++ {
		if !d.q() {
			return
		}
		for _, g := range d.gs {
			d.wait(g)
		}
	}
	if !d.q() {
		return
	}
	for _, g := range d.gs {
		if g.waiting.Load() {
			return // it was reported at the last quiescence
		}
	}
	if d.pool != nil && !w.Call(d.pool.Close) {
		return
	}
	w.Ev("leak", "n", w.Leftover())
}

func TestGroup(t *testing.T) {
	hx.Main(t, func(e *hx.Env, idx int, script json.RawMessage, rng *rand.Rand) (map[string]any, int, func(*hx.W)) {
		var s Script
		if script != nil {
			if err := json.Unmarshal(script, &s); err != nil {
				panic(err)
			}
			s.Groups = 1
			s.Cancel = []bool{rng.Intn(3) > 0}
			s.Pool = []string{"none", "limited", "pooled"}[rng.Intn(3)]
			s.Size = 1 + rng.Intn(2)
			s.NB = []bool{s.Pool != "none" && rng.Intn(4) == 0}
			sync := hx.SyncMode(rng)
			for i := range s.Ops {
				s.Ops[i].Sync = sync()
			}
		} else {
			s = random(e, rng)
		}
		rec := e.Rec(rng.Intn(4) == 0)
		mixed := rng.Intn(2) == 0
		d0 := len(s.Ops)
		for _, o := range s.Ops {
			d0 += o.N
		}
		return map[string]any{"groups": s.Groups, "pool": s.Pool, "size": s.Size, "spans": e.Spans()}, 20000 + 300*d0, func(w *hx.W) {
			d := &drv{w: w, s: s, base: context.Background(), errs: map[int]error{}, ctxs: map[int]*cx{}}
			if rec {
				var r *vspan.Rec
				d.base, r = vspan.New(d.base)
				if e.Spans() {
					r.On = w.Ev
					d.mixed = mixed
				}
			}
			d.run()
		}
	})
}

// Package pool drives goroutine pools through scenarios; see spec/Pool.tla for the events.
package pool

import (
	"context"
	"encoding/json"
	"math/rand"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/zzverif/hx"
	"github.com/gostdlib/concurrency/zzverif/vspan"
)

// Op is an environment action.
type Op struct {
	Op   string `json:"op"`
	J    int    `json:"j"`    // job (or variant)
	NB   bool   `json:"nb"`   // NonBlocking
	G    bool   `json:"g"`    // the job waits for its gate
	Body []Op   `json:"body"` // what the job does itself: sub, await
	Sync bool   `json:"sync"` // act only at quiescence
	C    int    `json:"c"`    // burst: clients
	N    int    `json:"n"`    // burst: jobs per client
	All  bool   `json:"all"`  // burst: with NB, all of them are non-blocking
	X    int    `json:"x"`    // context: 1 and 2 are cancelled by a call, 3 by its deadline
}

// Script is a scenario.
type Script struct {
	Kind string `json:"kind"`
	Size int    `json:"size"`
	Ops  []Op   `json:"ops"`
	Name string `json:"name"`
	Twin int    `json:"twin"` // size of another pool that is full all the time
}

func random(e *hx.Env, rng *rand.Rand) Script {
	s := Script{Kind: []string{"limited", "pooled"}[rng.Intn(2)], Size: 1 + rng.Intn(3)}
	if rng.Intn(8) == 0 {
		s.Size = 4 + rng.Intn(5)
		if e.Free {
			s.Size = 4 + rng.Intn(20)
		}
	}
	large := rng.Intn(100) == 0
	if large {
		s.Size = 30 + rng.Intn(250)
	}
	s.Name = []string{"", "", "pool"}[rng.Intn(3)]
	if rng.Intn(4) == 0 {
		s.Twin = 1 + rng.Intn(2)
	}
	next := 1
	pnb := []int{0, 20, 50}[rng.Intn(3)]
	pbad := []int{0, 0, 20}[rng.Intn(3)]
	prun := []int{0, 10, 25}[rng.Intn(3)]
	pwait := []int{0, 10}[rng.Intn(2)]
	pgate := []int{20, 60, 100}[rng.Intn(3)]
	pnest := []int{0, 0, 30}[rng.Intn(3)]
	pctx := []int{0, 0, 25, 60}[rng.Intn(4)]
	psync := []int{0, 30, 80, 100}[rng.Intn(4)]
	switch e.Focus {
	case "C03":
		pnb = 40 + rng.Intn(50)
	case "C04":
		pbad = 25
	case "C05":
		prun = 25
	}
	var nb func() bool
	nb = func() bool { return rng.Intn(100) < pnb }
	var jobs []int
	cx := func() int {
		if rng.Intn(100) < pctx {
			return 1 + rng.Intn(3)
		}
		return 0
	}
	sub := func() Op {
		o := Op{Op: "sub", J: next, NB: nb(), G: rng.Intn(100) < pgate, X: cx()}
		jobs = append(jobs, next)
		next++
		if rng.Intn(100) < pnest {
			k := Op{Op: "sub", J: next, NB: nb() || rng.Intn(3) > 0, G: rng.Intn(4) == 0, X: cx()}
			jobs = append(jobs, next)
			next++
			o.Body = append(o.Body, k)
			if k.NB && rng.Intn(2) == 0 {
				o.Body = append(o.Body, Op{Op: "await", J: k.J})
			}
		}
		return o
	}
	max, top := 3+rng.Intn(6), 12
	if s.Size > 3 {
		max, top = max+s.Size, 2*s.Size+8
		pgate = 100
	}
	if e.Free {
		max = 3 + rng.Intn(12)
	}
	if large {
		o := Op{Op: "burst", J: next, C: 1 + rng.Intn(3), NB: pnb > 0, G: true}
		o.N = s.Size/o.C + rng.Intn(20)
		next += o.C * o.N
		top += o.C * o.N
		s.Ops = append(s.Ops, o)
	}
	if rng.Intn(60) == 0 {
		o := Op{Op: "burst", J: next, C: 1 + rng.Intn(3), N: 15 << rng.Intn(4), NB: pnb > 0}
		next += o.C * o.N
		top += o.C * o.N
		s.Ops = append(s.Ops, o)
	}
	if rng.Intn(60) == 0 { // many jobs beyond the size of the pool
		o := Op{Op: "burst", J: next, C: 1 + rng.Intn(3), N: 10 << rng.Intn(4), NB: true, All: true, G: true}
		next += o.C * o.N
		top += o.C * o.N
		s.Ops = append(s.Ops, o)
	}
	for len(s.Ops) < max+2 && next <= top {
		var o Op
		r := rng.Intn(100)
		switch {
		case r < prun:
			o = Op{Op: "run"}
		case r < prun+pwait:
			o = Op{Op: "wait"}
		case r < prun+pwait+pbad:
			o = Op{Op: "bad", J: rng.Intn(7)}
		case r < prun+pwait+pbad+3:
			o = Op{Op: "len"}
		case r < prun+pwait+pbad+6:
			o = Op{Op: "burst", J: next, C: 1 + rng.Intn(3), N: 1 + rng.Intn(3), NB: pnb > 0, G: rng.Intn(4) == 0, X: cx()}
			if e.Free {
				o.C, o.N = 2+rng.Intn(6), 3+rng.Intn(15)
				if rng.Intn(10) == 0 {
					o.N = 60
				}
			}
			for k := 0; k < o.C*o.N; k++ {
				jobs = append(jobs, next)
				next++
			}
		case pctx > 0 && rng.Intn(100) < 15:
			o = Op{Op: "cancel", X: 1 + rng.Intn(3)}
		case len(jobs) > 0 && rng.Intn(100) < 40:
			o = Op{Op: "open", J: jobs[rng.Intn(len(jobs))]}
		default:
			o = sub()
		}
		o.Sync = rng.Intn(100) < psync
		s.Ops = append(s.Ops, o)
	}
	return s
}

type ckey struct{}

type drv struct {
	w       *hx.W
	s       Script
	p       goroutines.Pool
	ctx     context.Context
	ctxs    [4]context.Context
	cxs     hx.Ctxs
	canc    [4]context.CancelFunc
	jobs    []int
	ext     atomic.Int64 // Submit calls from outside of jobs that have not returned
	wpnd    atomic.Int64 // Wait calls that have not returned
	wids    int
	closing bool
	twin    goroutines.Pool
}

func (d *drv) opts(nb bool, j int) []goroutines.SubmitOption {
	var o []goroutines.SubmitOption
	if d.s.Kind == "limited" {
		if nb {
			o = append(o, limited.NonBlocking())
		}
		switch j % 4 {
		case 0:
			o = append(o, limited.Caller("caller"))
		case 1:
			o = append([]goroutines.SubmitOption{limited.Caller("first")}, o...)
		}
		return o
	}
	if nb {
		o = append(o, pooled.NonBlocking())
	}
	switch j % 4 {
	case 0:
		o = append(o, pooled.Caller("caller"))
	case 1:
		o = append([]goroutines.SubmitOption{pooled.Caller("first")}, o...)
	}
	return o
}

func (d *drv) submit(o Op) {
	w := d.w
	w.Ev("sub", "j", o.J, "nb", o.NB)
	own := context.WithValue(d.ctxs[o.X], ckey{}, o.J)
	err := d.p.Submit(own, func(ctx context.Context) {
		v, _ := ctx.Value(ckey{}).(int)
		w.Ev("start", "j", o.J, "c", v == o.J)
		d.cxs.Begin(o.J, own, ctx)
		w.Y()
		for _, b := range o.Body {
			switch b.Op {
			case "sub":
				d.submit(b)
			case "await":
				w.Gate(1000 + b.J).Wait()
			}
		}
		if o.G {
			w.Gate(o.J).Wait()
		}
		w.Y()
		d.cxs.End(o.J)
		w.Ev("end", "j", o.J)
		w.Gate(1000 + o.J).Open()
	}, d.opts(o.NB, o.J)...)
	w.Ev("subret", "j", o.J, "ok", err == nil, "x", d.ctxs[o.X].Err() != nil)
	if err != nil {
		w.Gate(1000 + o.J).Open() // nobody has to wait for this job
	}
	w.Y()
}

func (d *drv) bad(v, id int) {
	w := d.w
	job := func(context.Context) { w.Ev("badrun") }
	var err error
	w.Ev("bad", "b", id)
	good := d.opts(true, 1)
	var other goroutines.SubmitOption = pooled.NonBlocking()
	if d.s.Kind == "pooled" {
		other = limited.NonBlocking()
	}
	switch v {
	case 0:
		err = d.p.Submit(d.ctx, nil)
	case 1:
		err = d.p.Submit(d.ctx, job, other)
	case 2:
		err = d.p.Submit(d.ctx, job, append(good, other)...)
	case 3:
		if d.s.Kind == "pooled" {
			err = d.p.Submit(d.ctx, job, limited.Caller("x"))
		} else {
			err = d.p.Submit(d.ctx, job, pooled.Caller("x"))
		}
	case 4:
		err = d.p.Submit(d.ctx, job, append([]goroutines.SubmitOption{other}, good...)...)
	case 5:
		err = d.p.Submit(d.ctx, nil, good...)
	case 6:
		err = d.p.Submit(d.ctx, nil, d.opts(false, 0)...)
	}
	w.Ev("badret", "b", id, "ok", err == nil)
}

func (d *drv) wait(cl bool) {
	// Wait must only be called when no Submit is being called.
	if d.ext.Load() > 0 {
		return
	}
	d.closing = d.closing || cl
	d.wids++
	id := d.wids
	w := d.w
	d.wpnd.Add(1)
	w.Go(func() {
		defer d.wpnd.Add(-1)
		w.Ev("wait", "w", id, "cl", cl)
		if cl {
			d.p.Close()
		} else {
			d.p.Wait()
		}
		w.Ev("waitret", "w", id, "cl", cl, "r", d.p.Running())
	})
}

func (d *drv) q() bool {
	ok := d.w.Settle()
	if !ok {
		d.w.Ev("stuck")
		return false
	}
	r, l := -1, -1
	d.w.Call(func() { r, l = d.p.Running(), d.p.Len() })
	for _, j := range d.cxs.Lost() {
		d.w.Ev("octx", "j", j)
	}
	d.w.Ev("q", "r", r, "l", l)
	return true
}

func (d *drv) walk(ops []Op, f func(Op)) {
	for _, o := range ops {
		f(o)
		d.walk(o.Body, f)
	}
}

func (d *drv) run() {
	w := d.w
	w.LetTimePass()
	mk := func(size int) goroutines.Pool {
		var p goroutines.Pool
		var err error
		if d.s.Kind == "limited" {
			p, err = limited.New(d.s.Name, size)
		} else {
			p, err = pooled.New(d.s.Name, size)
		}
		if err != nil {
			w.Ev("crash", "m", "New failed")
			return nil
		}
		return p
	}
	if d.s.Twin > 0 {
		// Another pool with more jobs than it can run.
		p := mk(d.s.Twin)
		if p == nil {
			return
		}
		for i := 0; i < d.s.Twin+1; i++ {
			w.Go(func() { p.Submit(d.ctx, func(context.Context) { w.Gate(9999).Wait() }) })
		}
		d.twin = p
	}
	if d.p = mk(d.s.Size); d.p == nil {
		return
	}
	d.ctxs[0] = d.ctx
	for i := 1; i < 3; i++ {
		d.ctxs[i], d.canc[i] = context.WithCancel(d.ctx)
	}
	d.ctxs[3], d.canc[3] = context.WithTimeout(d.ctx, 200*time.Hour)
	defer func() {
		for _, c := range d.canc[1:] {
			c()
		}
	}()
	ids := 0
	for _, o := range d.s.Ops {
		if o.Sync {
			if !d.q() {
				return
			}
		} else {
			w.Some(w.Rng.Intn(40))
		}
		ids++
		id := ids
		o := o
		switch o.Op {
		case "sub":
			if d.wpnd.Load() > 0 {
				continue
			}
			d.ext.Add(1)
			w.Go(func() { defer d.ext.Add(-1); d.submit(o) })
		case "burst":
			if d.wpnd.Load() > 0 {
				continue
			}
			for c := 0; c < o.C; c++ {
				nbs := make([]bool, o.N)
				for k := range nbs {
					nbs[k] = o.NB && (o.All || w.Rng.Intn(2) == 0)
				}
				first := o.J + c*o.N
				d.ext.Add(1)
				w.Go(func() {
					defer d.ext.Add(-1)
					for k := 0; k < o.N; k++ {
						d.submit(Op{J: first + k, NB: nbs[k], G: o.G, X: o.X})
					}
				})
			}
		case "open":
			w.Gate(o.J).Open()
		case "cancel":
			if o.X < 3 {
				d.canc[o.X]()
			} else if d.ctxs[3].Err() == nil {
				if !d.q() {
					return
				}
				time.Sleep(200*time.Hour + 1)
			}
		case "wait":
			d.wait(false)
		case "bad":
			w.Go(func() { d.bad(o.J, id) })
		case "run":
			w.Go(func() {
				for k := 0; k < 3; k++ {
					w.Ev("run", "i", id*10+k)
					v := d.p.Running()
					w.Ev("runret", "i", id*10+k, "v", v)
					w.Y()
				}
			})
		case "len":
			w.Go(func() { w.Ev("len", "v", d.p.Len()) })
		}
	}
	// Let everything finish.
	var gates []int
	d.walk(d.s.Ops, func(o Op) {
		if o.Op == "sub" && o.G {
			gates = append(gates, o.J)
		}
		if o.Op == "burst" && o.G {
			for k := 0; k < o.C*o.N; k++ {
				gates = append(gates, o.J+k)
			}
		}
	})
	w.Rng.Shuffle(len(gates), func(i, j int) { gates[i], gates[j] = gates[j], gates[i] })
	early := w.Rng.Intn(2) == 0 // Close is called while jobs run
	for len(gates) > 0 {
		if !d.q() {
			return
		}
		if early && !d.closing && d.ext.Load() == 0 {
			d.wait(true)
			if w.Rng.Intn(2) == 0 && !d.q() {
				return
			}
		}
		n := 1 + w.Rng.Intn(2)
		for ; n > 0 && len(gates) > 0; n-- {
			w.Gate(gates[0]).Open()
			gates = gates[1:]
		}
	}
	if d.ext.Load() > 0 && !d.q() {
		return
	}
	if !d.closing {
		d.wait(true)
	}
	if !d.q() {
		return
	}
	if d.twin != nil {
		w.Gate(9999).Open()
		if !w.Settle() {
			return
		}
		if !w.Call(d.twin.Close) {
			w.Ev("hang")
			return
		}
	}
	w.Ev("leak", "n", w.Leftover())
}

func TestPool(t *testing.T) {
	hx.Main(t, func(e *hx.Env, idx int, script json.RawMessage, rng *rand.Rand) (map[string]any, int, func(*hx.W)) {
		var s Script
		if script != nil {
			if err := json.Unmarshal(script, &s); err != nil {
				panic(err)
			}
			s.Kind = []string{"limited", "pooled"}[rng.Intn(2)]
			s.Size = 1 + rng.Intn(2)
			sync := hx.SyncMode(rng)
			for i := range s.Ops {
				s.Ops[i].Sync = sync()
			}
		} else {
			s = random(e, rng)
		}
		rec := e.Rec(rng.Intn(4) == 0)
		d0 := 0
		for _, o := range s.Ops {
			d0 += o.C * o.N
		}
		return map[string]any{"kind": s.Kind, "size": s.Size}, 20000 + 400*d0, func(w *hx.W) {
			d := &drv{w: w, s: s, ctx: context.Background()}
			if rec {
				d.ctx = vspan.Context(d.ctx)
			}
			d.run()
		}
	})
}

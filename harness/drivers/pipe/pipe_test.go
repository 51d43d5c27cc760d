// Package pipe drives pipelines/stagedpipe; see spec/Pipe.tla.
package pipe

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"log"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/zzverif/hx"
	"github.com/gostdlib/concurrency/zzverif/vspan"
)

// PipeCfg are Pipelines.
type PipeCfg struct {
	Kind    string `json:"kind"`
	Par     int    `json:"par"`
	Subs    int    `json:"subs"`
	NoCount bool   `json:"nocount"` // without CountSubStages
	Extra   int    `json:"extra"`   // sub-stages that are counted, two of each object, and never used
	Dag     bool   `json:"dag"`
	Ordered bool   `json:"ordered"`
	NPP     int    `json:"npp"`
	Delay   int    `json:"delay"`
}

// Visit is what happens when a request is at its nth stage.
type Visit struct {
	Next   int  `json:"next"`   // 0: none
	Err    int  `json:"err"`    // error of the stage
	Gate   bool `json:"gate"`   // waits
	Ctx    bool `json:"ctx"`    // the wait ends when the context is done
	PP     int  `json:"pp"`     // this preprocessor fails
	PPGate int  `json:"ppgate"` // this preprocessor waits
}

// Sub is a request to submit.
type Sub struct {
	C     int     `json:"c"`     // context; -1: nil
	Reuse bool    `json:"reuse"` // a Request that came out before
	Stale int     `json:"stale"` // Next is set
	V     []Visit `json:"v"`
}

// Op is an environment action.
type Op struct {
	Op   string `json:"op"` // group, sub, recv, close, open, cancel, sleep, stat, pclose, life
	P    int    `json:"p"`
	G    int    `json:"g"` // the nth group
	N    int    `json:"n"`
	Subs []Sub  `json:"subs,omitempty"`
	Sync bool   `json:"sync"`
	More bool   `json:"more"` // life: pauses; many: requests wait in their stage
}

// Script is a scenario.
type Script struct {
	Pipes []PipeCfg `json:"pipes"`
	Ops   []Op      `json:"ops"`
	Ctx   []int     `json:"ctx"`  // contexts: 0 cancel, otherwise timeout
	Unit  int       `json:"unit"` // of time, in nanoseconds, more than thrice the number of requests
}

type group struct {
	n, p    int
	rg      *stagedpipe.RequestGroup[Data]
	subs    atomic.Int64 // submitters under way
	recv    atomic.Int64 // consumers
	made    atomic.Bool
	closing atomic.Bool
	auto    bool // is used by a goroutine of its own
	eof     atomic.Bool
	clret   atomic.Bool
}

type pipes struct {
	cfg    PipeCfg
	p      *stagedpipe.Pipelines[Data]
	stages []Stg
	cap    int
	closed bool
	lives  atomic.Int64
}

type ctxt struct {
	ctx      context.Context
	cancel   context.CancelFunc
	deadline time.Time
	code     int
	done     bool
}

type drv struct {
	w    *hx.W
	s    Script
	t0   time.Time
	ps   []*pipes
	ctx  []*ctxt
	base context.Context
	cxs  hx.Ctxs

	mu     sync.Mutex
	owns   map[int]context.Context // of requests
	gs     []*group
	prog   map[int][]Visit
	visit  map[int]int
	parked []int // gates with somebody waiting
	old    []Req // requests that came out
	ids    atomic.Int64
	toks   atomic.Int64
	stats  atomic.Int64
	opened bool
	lost   int // goroutines of pipelines that were refused
}

type myErr int

func (e myErr) Error() string { return fmt.Sprintf("error %d", int(e)) }

func code(err error) (int, bool) {
	switch e := err.(type) {
	case nil:
		return 0, false
	case myErr:
		return int(e), false
	}
	switch {
	case err == context.Canceled:
		return -1, false
	case err == context.DeadlineExceeded:
		return -2, false
	case stagedpipe.IsErrCyclic(err):
		return -4, true
	}
	return -3, false
}

// now is the time in units. Time passes in whole units, but for deadlines, which are 1ns earlier.
func (d *drv) now() int { return int(time.Since(d.t0)+2) / d.s.Unit }

func (d *drv) at(id int) (Visit, int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	k := d.visit[id]
	if vs := d.prog[id]; k < len(vs) {
		return vs[k], k
	}
	return Visit{}, k
}

func (d *drv) wait(gate int, ctx context.Context) error {
	d.mu.Lock()
	if d.opened {
		d.mu.Unlock()
		d.w.Y()
		return nil
	}
	d.parked = append(d.parked, gate)
	d.mu.Unlock()
	if ctx != nil {
		return d.w.Gate(gate).WaitCtx(ctx)
	}
	d.w.Gate(gate).Wait()
	return nil
}

type (
	rkey struct{} // the value is the request
	tkey struct{} // the value is the token of the last step
)

// errCause is never the error of a request, that of its context is.
var errCause = errors.New("the cause")

// own records it if a request has lost its own context or what the last step has put in it.
func (d *drv) own(r Req) {
	if r.Ctx == nil || r.Ctx.Value(rkey{}) != r.Data.ID || r.Ctx.Value(tkey{}) != r.Data.Tok {
		d.w.Ev("octx", "r", r.Data.ID)
	}
}

// stage is a stage of a state machine.
func (d *drv) stage(p, m int, r Req) Req {
	id := r.Data.ID
	d.w.Ev("st", "r", id, "m", m, "t", r.Data.Tok, "now", d.now(), "sp", vspan.ID(r.Ctx))
	d.own(r)
	ctx0 := r.Ctx
	d.mu.Lock()
	own := d.owns[id]
	d.mu.Unlock()
	if r.Ctx != nil && own != nil {
		d.cxs.Begin(id, own, r.Ctx)
	}
	v, k := d.at(id)
	var err error
	if v.Gate {
		if v.Ctx {
			err = d.wait(id*256+2*k, r.Ctx)
		} else {
			d.wait(id*256+2*k, nil)
		}
	} else {
		d.w.Y()
	}
	if k%2 == 0 {
		r.Event("stage", "k", k)
	}
	d.mu.Lock()
	d.visit[id]++
	d.mu.Unlock()
	tok := int(d.toks.Add(1))
	r.Data.Tok = tok
	if r.Ctx != nil {
		r.Ctx = context.WithValue(r.Ctx, tkey{}, tok)
	}
	r.Data.Bag.touch()
	switch {
	case err != nil:
		r.Err = err
	case v.Err != 0:
		r.Err = myErr(v.Err)
	}
	ps := d.ps[p]
	nx := v.Next
	if nx > len(ps.stages) {
		nx = 0
	}
	if nx > 0 {
		r.Next = ps.stages[nx-1]
	}
	e, _ := code(r.Err)
	d.cxs.End(id)
	d.w.Ev("en", "r", id, "m", m, "t", tok, "e", e, "nx", nx, "now", d.now(), "sp", vspan.ID(ctx0))
	return r
}

func (d *drv) preproc(p, i int, r Req) Req {
	id := r.Data.ID
	d.w.Ev("pb", "r", id, "i", i, "t", r.Data.Tok, "now", d.now(), "sp", vspan.ID(r.Ctx))
	d.own(r)
	v, k := d.at(id)
	if v.PPGate == i {
		d.wait(id*256+2*k+1, nil)
	} else {
		d.w.Y()
	}
	tok := int(d.toks.Add(1))
	r.Data.Tok = tok
	if r.Ctx != nil {
		r.Ctx = context.WithValue(r.Ctx, tkey{}, tok)
	}
	r.Data.Bag.touch()
	if v.PP == i {
		r.Err = myErr(1000 + i)
	}
	e, _ := code(r.Err)
	d.w.Ev("pe", "r", id, "i", i, "t", tok, "e", e, "now", d.now())
	return r
}

func (d *drv) smClosed(p int) { d.w.Ev("smc", "p", p+1) }

// submit submits a request to a group.
func (d *drv) submit(g *group, s Sub) {
	var r Req
	if s.Reuse {
		d.mu.Lock()
		if n := len(d.old); n > 0 {
			r = d.old[n-1]
			d.old = d.old[:n-1]
		}
		d.mu.Unlock()
	}
	id := int(d.ids.Add(1))
	tok := int(d.toks.Add(1))
	d.mu.Lock()
	d.prog[id] = s.V
	d.mu.Unlock()
	if ps := d.ps[g.p]; s.Stale > 0 && s.Stale <= len(ps.stages) {
		r.Next = ps.stages[s.Stale-1]
	}
	r.Data = Data{ID: id, Tok: tok, Bag: &Bag{Bad: id%5 == 0}}
	r.Err = nil
	r.Ctx = nil
	if s.C >= 0 {
		r.Ctx = context.WithValue(context.WithValue(d.ctx[s.C].ctx, rkey{}, id), tkey{}, tok)
	}
	d.mu.Lock()
	d.owns[id] = r.Ctx
	d.mu.Unlock()
	d.w.Ev("sub", "r", id, "g", g.n, "c", s.C, "t", tok, "now", d.now())
	e, _ := code(g.rg.Submit(r))
	if e != 0 {
		r.Data.Bag.touch()
	}
	d.w.Ev("subret", "r", id, "e", e)
	d.w.Y()
}

// recv receives up to n requests (-1: all); it reports whether the output ended.
func (d *drv) recv(g *group, n int) bool {
	for ; n != 0; n-- {
		d.w.Ev("rv", "g", g.n)
		r, ok := <-g.rg.Out()
		if !ok {
			d.w.Ev("eof", "g", g.n)
			g.eof.Store(true)
			return true
		}
		e, cy := code(r.Err)
		d.w.Ev("out", "g", g.n, "r", r.Data.ID, "t", r.Data.Tok, "e", e, "cy", cy, "now", d.now(), "sp", vspan.ID(r.Ctx))
		d.own(r)
		r.Data.Bag.touch()
		d.mu.Lock()
		d.old = append(d.old, r)
		d.mu.Unlock()
		d.w.Y()
	}
	return false
}

func (d *drv) newGroup(p int, auto bool) *group {
	d.mu.Lock()
	g := &group{n: len(d.gs) + 1, p: p, auto: auto}
	d.gs = append(d.gs, g)
	d.mu.Unlock()
	return g
}

func (d *drv) makeGroup(g *group) {
	d.w.Ev("ng", "g", g.n, "p", g.p+1)
	rg := d.ps[g.p].p.NewRequestGroup()
	if g.n%2 == 0 {
		rg.Name = "named"
	}
	g.rg = rg
	d.w.Ev("ngret", "g", g.n)
	g.made.Store(true)
}

func (d *drv) closeGroup(g *group) {
	d.w.Ev("cl", "g", g.n)
	g.rg.Close()
	d.w.Ev("clret", "g", g.n)
	g.clret.Store(true)
}

// life creates, uses and closes a group.
func (d *drv) life(p int, subs []Sub, more bool) {
	ps := d.ps[p]
	g := d.newGroup(p, true)
	ps.lives.Add(1)
	g.recv.Add(1)
	d.w.Go(func() {
		defer ps.lives.Add(-1)
		d.makeGroup(g)
		d.w.Go(func() { d.recv(g, -1); g.recv.Add(-1) })
		for _, s := range subs {
			d.submit(g, s)
			if more {
				d.w.Y()
			}
		}
		g.closing.Store(true)
		d.closeGroup(g)
	})
}

// lives creates, uses and closes n groups, one after the other.
func (d *drv) lives(p int, n int) {
	ps := d.ps[p]
	ps.lives.Add(1)
	d.w.Go(func() {
		defer ps.lives.Add(-1)
		for ; n > 0; n-- {
			g := d.newGroup(p, true)
			d.makeGroup(g)
			if n%4 == 0 {
				d.closeGroup(g)
				d.recv(g, -1)
				continue
			}
			d.submit(g, Sub{V: []Visit{{}}})
			d.recv(g, 1)
			g.closing.Store(true)
			d.closeGroup(g)
			d.recv(g, -1)
		}
	})
}

// q waits for quiescence and looks at the statistics.
func (d *drv) q() bool {
	if !d.w.Settle() {
		d.w.Ev("stuck")
		return false
	}
	for _, r := range d.cxs.Lost() {
		d.w.Ev("octx", "r", r)
	}
	b := []byte{'['}
	for i, p := range d.ps {
		if i > 0 {
			b = append(b, ',')
		}
		s := p.p.Stats()
		b = fmt.Appendf(b, `{"run":%d,"comp":%d,"min":%d,"avg":%d,"max":%d,"imin":%d,"iavg":%d,"imax":%d}`,
			clip(s.Running), clip(s.Completed), d.units(s.Min), d.units(s.Avg), d.units(s.Max), d.units(s.IngestStats.Min), d.units(s.IngestStats.Avg), d.units(s.IngestStats.Max))
	}
	d.w.Ev("q", "ss", json.RawMessage(append(b, ']')), "now", d.now())
	return true
}

// units converts a duration.
func (d *drv) units(t time.Duration) int64 {
	if t > 0 {
		t = (t + 2) / time.Duration(d.s.Unit)
	}
	return clip(t)
}

// clip makes a number that TLC can read.
func clip[T ~int64](v T) int64 {
	if int64(v) > 1<<30 {
		return 1 << 30
	}
	if int64(v) < -1<<30 {
		return -1 << 30
	}
	return int64(v)
}

// sleep lets time pass at quiescence.
func (d *drv) sleep(n int) bool {
	if !d.q() {
		return false
	}
	most := n // at once: a loop that sleeps is let go on
	if d.w.Rng.Intn(10) == 0 {
		most = 1 + n/20
	}
	n *= d.s.Unit
	for n > 0 {
		step := min(n, most*d.s.Unit)
		var fire []int
		for {
			fire = fire[:0]
			first := time.Time{}
			for c, x := range d.ctx {
				if !x.done && !x.deadline.IsZero() && (first.IsZero() || x.deadline.Before(first)) {
					first = x.deadline
					_ = c
				}
			}
			if first.IsZero() || int(time.Until(first)) > step {
				break
			}
			step = int(time.Until(first)) + 1
			for c, x := range d.ctx {
				if !x.done && !x.deadline.IsZero() && int(time.Until(x.deadline)) <= step {
					fire = append(fire, c)
				}
			}
			break
		}
		for _, c := range fire {
			d.w.Ev("cancel", "c", c, "e", -2)
		}
		time.Sleep(time.Duration(step))
		for _, c := range fire {
			d.w.Ev("cancelled", "c", c)
			d.ctx[c].done = true
		}
		n -= step
		if !d.q() {
			return false
		}
	}
	return true
}

// open opens a gate that somebody waits at.
func (d *drv) open() bool {
	d.mu.Lock()
	if len(d.parked) == 0 {
		d.mu.Unlock()
		return false
	}
	sort.Ints(d.parked)
	i := d.w.Rng.Intn(len(d.parked))
	g := d.parked[i]
	d.parked = append(d.parked[:i], d.parked[i+1:]...)
	d.mu.Unlock()
	d.w.Gate(g).Open()
	return true
}

// settled reports whether nobody can still submit to pipelines p.
func (d *drv) settled(p int) bool {
	if d.ps[p].lives.Load() > 0 {
		return false
	}
	for _, g := range d.groups() {
		if g.p == p && (!g.made.Load() || g.subs.Load() > 0) {
			return false
		}
	}
	return true
}

func (d *drv) groups() []*group {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]*group(nil), d.gs...)
}

func (d *drv) pclose(p int) {
	ps := d.ps[p]
	if ps.closed || !d.settled(p) {
		return
	}
	ps.closed = true
	d.w.Go(func() {
		d.w.Ev("pcl", "p", p+1)
		ps.p.Close()
		d.w.Ev("pclret", "p", p+1)
	})
}

// spare is a state machine for pipelines that are not used.
type spare struct{ used atomic.Int64 }

func (s *spare) Start(r Req) Req { s.used.Add(100); return r }
func (s *spare) Close()          { s.used.Add(1) }

// build makes pipelines with arguments that are not valid, or that are unusual; it closes the latter.
func (d *drv) build(v int) bool {
	if !d.q() {
		return false
	}
	n := d.w.Leftover("johnsiilver/pools")
	s := &spare{}
	var sm stagedpipe.StateMachine[Data] = s
	num, good := 1, false
	var opts []stagedpipe.Option[Data]
	pp := stagedpipe.PreProcessors[Data](func(r Req) Req { s.used.Add(100); return r })
	delay := func(n int) stagedpipe.Option[Data] { return stagedpipe.DelayWarning[Data](time.Duration(n)) }
	switch v % 12 {
	case 0:
		num = 0
	case 1:
		num = -1 - d.w.Rng.Intn(5)
	case 2:
		sm = nil
	case 3:
		opts = append(opts, delay(-1))
	case 4:
		opts = append(opts, delay(-1000), pp, stagedpipe.DAG[Data]())
	case 5:
		num = 2
		opts = append(opts, stagedpipe.Ordered[Data](), pp, delay(-1), delay(1))
	case 6:
		num, sm = 0, nil
		opts = append(opts, delay(-1))
	case 7:
		sm = nil
		opts = append(opts, pp, stagedpipe.CountSubStages[Data](&subA{}))
	case 8:
		good = true
		num = 1 + d.w.Rng.Intn(3)
		opts = append(opts, delay(0))
	case 9:
		good = true
		opts = append(opts, stagedpipe.PreProcessors[Data](), stagedpipe.CountSubStages[Data]())
	case 10:
		good = true
		opts = append(opts, stagedpipe.Ordered[Data](), stagedpipe.Ordered[Data](), stagedpipe.DAG[Data](), pp, delay(1))
	case 11:
		num = 0
		opts = append(opts, stagedpipe.DAG[Data](), stagedpipe.Ordered[Data]())
	}
	// What is valid or not does not depend on what else is given, nor on the order.
	more := []stagedpipe.Option[Data]{delay(1), delay(0), pp, stagedpipe.DAG[Data](), stagedpipe.Ordered[Data](), stagedpipe.CountSubStages[Data](&subA{})}
	for d.w.Rng.Intn(2) == 0 {
		o := more[d.w.Rng.Intn(len(more))]
		if d.w.Rng.Intn(2) == 0 {
			opts = append(opts, o)
		} else {
			opts = append([]stagedpipe.Option[Data]{o}, opts...)
		}
	}
	var p *stagedpipe.Pipelines[Data]
	var err error
	name := []string{"", "spare"}[d.w.Rng.Intn(2)]
	done := d.w.Call(func() {
		p, err = stagedpipe.New(name, num, sm, opts...)
		if err == nil {
			p.Close()
		}
	})
	if !done {
		d.w.Ev("hang")
		return false
	}
	left := d.w.Leftover("johnsiilver/pools") - n
	d.lost += left
	d.w.Ev("bnew", "v", v, "ok", err == nil, "good", good, "d", left, "cl", s.used.Load())
	return true
}

// warnings receives what the package logs.
type warnings struct{}

var (
	current atomic.Pointer[drv]
	logName = regexp.MustCompile(`\bp([0-9]+)\b`)
)

func (warnings) Write(b []byte) (int, error) {
	if os.Getenv("VH_LOG") != "" {
		os.Stderr.Write(b)
	}
	if d := current.Load(); d != nil {
		p := 1
		if m := logName.FindSubmatch(b); m != nil {
			k, _ := strconv.Atoi(string(m[1]))
			p = k + 1
		}
		if p <= len(d.s.Pipes) {
			d.w.Ev("warn", "p", p, "now", d.now())
		}
	}
	return len(b), nil
}

func (d *drv) op(o Op) bool {
	w := d.w
	switch o.Op {
	case "sleep":
		return d.sleep(o.N)
	case "build":
		return d.build(o.N)
	}
	if o.Sync {
		if !d.q() {
			return false
		}
	} else {
		w.Some(w.Rng.Intn(60))
	}
	var g *group
	if gs := d.groups(); len(gs) > 0 {
		g = gs[o.G%len(gs)]
		if o.Op == "sub" { // prefer a group that can be used
			for k := range gs {
				if x := gs[(o.G+k)%len(gs)]; !x.auto && x.made.Load() && !x.closing.Load() && !d.ps[x.p].closed {
					g = x
					break
				}
			}
		}
	}
	usable := g != nil && g.made.Load() && !g.auto
	switch o.Op {
	case "group":
		if p := o.P % len(d.ps); !d.ps[p].closed {
			g := d.newGroup(p, false)
			w.Go(func() { d.makeGroup(g) })
		}
	case "life":
		if p := o.P % len(d.ps); !d.ps[p].closed {
			d.life(p, o.Subs, o.More)
		}
	case "lives":
		if p := o.P % len(d.ps); !d.ps[p].closed {
			d.lives(p, o.N)
		}
	case "many":
		if usable && !g.closing.Load() && !d.ps[g.p].closed {
			g.subs.Add(1)
			w.Go(func() {
				for k := 0; k < o.N; k++ {
					d.submit(g, Sub{V: []Visit{{Gate: o.More}}})
				}
				g.subs.Add(-1)
			})
		}
	case "sub":
		if usable && !g.closing.Load() && !d.ps[g.p].closed {
			g.subs.Add(1)
			w.Go(func() {
				for _, s := range o.Subs {
					d.submit(g, s)
				}
				g.subs.Add(-1)
			})
		}
	case "recv":
		max := int64(1)
		if usable && !d.ps[g.p].cfg.Ordered {
			max = 2
		}
		if usable && !g.eof.Load() && g.recv.Load() < max {
			g.recv.Add(1)
			w.Go(func() { d.recv(g, o.N); g.recv.Add(-1) })
		}
	case "close":
		if usable && g.subs.Load() == 0 && !g.closing.Swap(true) {
			w.Go(func() { d.closeGroup(g) })
		}
	case "open":
		for k := 0; k < o.N && d.open(); k++ {
		}
	case "cancel":
		c := d.ctx[1+o.N%(len(d.ctx)-1)]
		if !c.done && c.deadline.IsZero() {
			c.done = true
			w.Ev("cancel", "c", 1+o.N%(len(d.ctx)-1), "e", -1)
			c.cancel()
			w.Ev("cancelled", "c", 1+o.N%(len(d.ctx)-1))
		}
	case "stat":
		p := d.ps[o.P%len(d.ps)]
		i := int(d.stats.Add(1))
		w.Go(func() {
			w.Ev("stat", "i", i, "p", 1+o.P%len(d.ps))
			s := p.p.Stats()
			w.Ev("statret", "i", i, "run", clip(s.Running), "comp", clip(s.Completed))
		})
	case "pclose":
		d.pclose(o.P % len(d.ps))
	}
	return true
}

func (d *drv) run() {
	w := d.w
	d.t0 = time.Now()
	bg := &ctxt{ctx: d.base}
	d.ctx = append(d.ctx, bg)
	for _, k := range d.s.Ctx {
		c := &ctxt{code: -1}
		if k > 0 {
			c.deadline = time.Now().Add(time.Duration(k*d.s.Unit - 1))
			c.ctx, c.cancel = context.WithDeadlineCause(d.base, c.deadline, errCause)
		} else {
			ctx, cancel := context.WithCancelCause(d.base)
			c.ctx, c.cancel = ctx, func() { cancel(errCause) }
		}
		d.ctx = append(d.ctx, c)
	}
	defer func() {
		for _, c := range d.ctx[1:] {
			c.cancel()
		}
	}()
	for i, pc := range d.s.Pipes {
		sm, stages, _, objs := machine(pc.Kind, box{d, i}, pc.Subs)
		var opts []stagedpipe.Option[Data]
		var pps []stagedpipe.PreProcesor[Data]
		for k := 1; k <= pc.NPP; k++ {
			pps = append(pps, func(r Req) Req { return d.preproc(i, k, r) })
		}
		for len(pps) > 0 {
			n := 1 + w.Rng.Intn(len(pps))
			opts = append(opts, stagedpipe.PreProcessors(pps[:n]...))
			pps = pps[n:]
		}
		if pc.Dag {
			opts = append(opts, stagedpipe.DAG[Data]())
		}
		if pc.Ordered {
			opts = append(opts, stagedpipe.Ordered[Data]())
		}
		if pc.Delay > 0 {
			opts = append(opts, stagedpipe.DelayWarning[Data](time.Duration(pc.Delay*d.s.Unit)))
		}
		for !pc.NoCount && len(objs) > 0 {
			n := 1 + w.Rng.Intn(len(objs))
			opts = append([]stagedpipe.Option[Data]{stagedpipe.CountSubStages[Data](objs[:n]...)}, opts...)
			objs = objs[n:]
		}
		if pc.Extra > 0 {
			more := make([]any, pc.Extra)
			for k := range more {
				more[k] = &subA{}
			}
			opts = append(opts, stagedpipe.CountSubStages[Data](more...))
		}
		p, err := stagedpipe.New(fmt.Sprintf("p%d", i), pc.Par, sm, opts...)
		if err != nil {
			panic(err)
		}
		d.ps = append(d.ps, &pipes{cfg: pc, p: p, stages: stages})
	}
	for _, o := range d.s.Ops {
		if !d.op(o) {
			return
		}
	}
	d.finish()
}

// finish lets everything end in some order.
func (d *drv) finish() {
	w := d.w
	for k := 0; k < 600; k++ {
		if k > 100 {
			d.mu.Lock()
			d.opened = true
			d.mu.Unlock()
		}
		if w.Rng.Intn(3) == 0 && k < 100 {
			w.Some(w.Rng.Intn(60))
		} else if !d.q() {
			return
		}
		all := true
		gs := d.groups()
		did := false
		for _, i := range w.Rng.Perm(len(gs)) {
			g := gs[i]
			if !g.eof.Load() || !g.clret.Load() {
				all = false
			}
			if !g.made.Load() || g.auto || did && w.Rng.Intn(2) == 0 {
				continue
			}
			if g.recv.Load() == 0 && !g.eof.Load() && w.Rng.Intn(2) == 0 {
				n := -1
				if k < 100 && w.Rng.Intn(3) == 0 {
					n = 1 + w.Rng.Intn(3)
				}
				g.recv.Add(1)
				w.Go(func() { d.recv(g, n); g.recv.Add(-1) })
				did = true
			}
			if g.subs.Load() == 0 && w.Rng.Intn(3) == 0 && !g.closing.Swap(true) {
				w.Go(func() { d.closeGroup(g) })
				did = true
			}
		}
		if w.Rng.Intn(4) > 0 {
			d.open()
			for k > 100 && d.open() {
			}
		}
		for p := range d.ps {
			if !d.ps[p].closed {
				all = false
				if w.Rng.Intn(5) == 0 {
					d.pclose(p)
				}
			}
		}
		if all {
			break
		}
		if k == 300 {
			break
		}
	}
	if !d.q() {
		return
	}
	w.Ev("leak", "n", w.Leftover("johnsiilver/pools")-d.lost)
}

// ---------------------------------------------------------------------------------------

func stagesOf(p PipeCfg) (n, own int) {
	n = map[string]int{"ptr": 4, "val": 2, "one": 1, "gen": 3, "genstr": 3, "emb": 3, "over": 2}[p.Kind]
	own = n
	if p.Subs&1 != 0 {
		n += 2
	}
	if p.Subs&2 != 0 {
		n++
	}
	if p.Subs&4 != 0 {
		n += 2
	}
	return
}

func capOf(p PipeCfg) int {
	n, own := stagesOf(p)
	if p.NoCount {
		n = own
	}
	n += 2 * p.Extra
	return p.Par * n
}

func random(e *hx.Env, rng *rand.Rand) Script {
	f := e.Focus
	is := func(c string) bool { return f == c }
	pct := func(n int) bool { return rng.Intn(100) < n }
	var s Script
	np := 1
	if pct(25) || is("C21") && pct(60) {
		np = 2
	}
	for i := 0; i < np; i++ {
		p := PipeCfg{Kind: kinds[rng.Intn(len(kinds))], Par: 1 + rng.Intn(2), NPP: []int{0, 0, 1, 2, 0, 1, 2, 3}[rng.Intn(8)]}
		if is("C20") && p.NPP == 0 {
			p.NPP = rng.Intn(4)
		}
		if pct(8) || is("C24") && pct(30) {
			p.Par = 1 + rng.Intn(4)
		}
		if pct(1) || is("C24") && pct(2) {
			p.Par = 5 << rng.Intn(4)
		}
		if p.Par < 4 && (pct(1) || is("C24") && pct(2)) {
			p.Extra = 3 << rng.Intn(4)
		}
		if pct(35) {
			p.Subs = 1 + rng.Intn(7)
			p.NoCount = pct(30)
		}
		p.Dag = pct(25) || is("C21") && pct(70)
		p.Ordered = pct(30) || is("C22")
		if pct(15) || is("C33") && pct(80) {
			p.Delay = []int{50, 30, 200}[rng.Intn(3)]
		}
		s.Pipes = append(s.Pipes, p)
	}
	nctx := 1 + rng.Intn(4)
	for i := 0; i < nctx; i++ {
		k := 0
		if pct(25) {
			k = 1 + rng.Intn(2000)
		}
		s.Ctx = append(s.Ctx, k)
	}
	pgate := []int{0, 20, 50}[rng.Intn(3)]
	if is("C24") {
		pgate = []int{50, 90, 100}[rng.Intn(3)]
	}
	if is("C26") || is("C22") || is("C23") {
		pgate = []int{20, 50, 80}[rng.Intn(3)]
	}
	pctx := 30
	if is("C23") {
		pctx = 80
	}
	if pct(30) && !is("C23") {
		pctx = 0
	}
	total := 0
	maxv := 3
	if is("C20") || is("C21") {
		maxv = 7
	}
	visits := func() []Visit {
		var vs []Visit
		n := 1 + rng.Intn(maxv)
		long, huge := pct(2), false
		if long {
			n = 10 + rng.Intn(30)
			if pct(15) {
				n = 100 + rng.Intn(200)
				huge = true
			}
		}
		perm := rng.Perm(8)
		free := pct(40)
		for i := 0; i < n; i++ {
			v := Visit{Gate: pct(pgate) && !long, Ctx: pct(20)}
			if i < n-1 {
				v.Next = 1 + rng.Intn(8)
				if !free { // no stage twice
					v.Next = 2 + perm[i%8]%7
				}
				if s.Pipes[0].Kind == "one" && s.Pipes[0].Subs == 0 {
					v.Next = 1
				}
			}
			if pct(8) && !long {
				v.Err = 1 + rng.Intn(5)
			}
			if pct(6) && !huge {
				v.PP = 1 + rng.Intn(2)
			}
			if pct(pgate / 4) {
				v.PPGate = 1 + rng.Intn(2)
			}
			vs = append(vs, v)
		}
		return vs
	}
	subs := func(n int) []Sub {
		var out []Sub
		one := -2
		if pct(50) {
			one = rng.Intn(nctx + 1)
		}
		for ; n > 0 && total < 28; n-- {
			total++
			x := Sub{V: visits(), Reuse: pct(30)}
			if pct(12) {
				x.Stale = 1 + rng.Intn(6)
			}
			if pct(pctx) {
				x.C = one
				if one == -2 {
					x.C = rng.Intn(nctx + 1)
				}
			}
			if pct(2) {
				x.C = -1
			}
			out = append(out, x)
		}
		return out
	}
	psync := []int{0, 10, 40, 70}[rng.Intn(4)]
	add := func(o Op) {
		o.Sync = pct(psync)
		s.Ops = append(s.Ops, o)
	}
	for i := 0; i < np; i++ {
		add(Op{Op: "group", P: i})
		s.Ops[len(s.Ops)-1].Sync = false
	}
	if pct(50) || is("C27") {
		add(Op{Op: "group", P: rng.Intn(np)})
	}
	s.Ops = append(s.Ops, Op{Op: "stat", Sync: true})
	if is("C32") {
		for k := rng.Intn(5); k >= 0; k-- {
			add(Op{Op: "build", N: rng.Intn(12)})
		}
	}
	slow := is("C33") && pct(60)
	if !slow && pct(60) {
		for i := 0; i < 3; i++ {
			add(Op{Op: "recv", G: i, N: -1})
		}
	}
	if is("C26") && pct(50) || pct(4) {
		// Requests that began at different times end at the same time, and others begin at the same time.
		add(Op{Op: "recv", G: 0, N: -1})
		for r := 1 + rng.Intn(3); r > 0; r-- {
			scale := 1 << rng.Intn(8)
			for k := 2 + rng.Intn(2*capOf(s.Pipes[0])+2); k > 0 && total < 40; k-- {
				total++
				s.Ops = append(s.Ops, Op{Op: "sub", G: 0, Subs: []Sub{{V: []Visit{{Gate: true}}}}})
				s.Ops = append(s.Ops, Op{Op: "sleep", N: 1 + rng.Intn(scale)})
			}
			for k := 1 + rng.Intn(3); k > 0; k-- {
				s.Ops = append(s.Ops, Op{Op: "open", N: 100})
				if pct(30) {
					s.Ops = append(s.Ops, Op{Op: "sleep", N: 1 + rng.Intn(scale)})
				}
			}
		}
	}
	n := 4 + rng.Intn(14)
	if s.Pipes[0].Par > 4 && !slow {
		add(Op{Op: "recv", G: 0, N: -1})
		add(Op{Op: "many", G: 0, N: 1 + rng.Intn(capOf(s.Pipes[0])+10), More: true})
		for k := rng.Intn(4); k > 0; k-- {
			s.Ops = append(s.Ops, Op{Op: "open", N: 20, Sync: true})
		}
	}
	if pct(2) && !slow {
		// Many requests or groups.
		if pct(50) || is("C27") {
			add(Op{Op: "lives", P: rng.Intn(np), N: 20 << rng.Intn(5)})
		} else {
			if pct(70) {
				add(Op{Op: "recv", G: 0, N: -1})
			}
			add(Op{Op: "many", G: 0, N: 20 << rng.Intn(5)})
		}
	}
	for i := 0; i < n; i++ {
		o := Op{P: rng.Intn(np), G: rng.Intn(6)}
		r := rng.Intn(100)
		if is("C27") && pct(50) {
			r = []int{8, 12, 12, 12, 70}[rng.Intn(5)]
		}
		if is("C26") && pct(30) {
			r = 85
		}
		if is("C23") && pct(25) {
			r = 80
		}
		if is("C33") && pct(40) {
			r = 85
		}
		if is("C33") && pct(30) {
			r = 20
		}
		if is("C32") && pct(20) || is("C25") && pct(5) {
			r = 96
		}
		switch {
		case r < 9:
			o.Op = "group"
		case r < 17:
			o.Op = "life"
			o.Subs = subs(rng.Intn(4))
			o.More = pct(50)
		case r < 45:
			o.Op = "sub"
			o.Subs = subs(1 + rng.Intn(5))
			if is("C24") {
				o.Subs = append(o.Subs, subs(4)...)
			}
		case r < 60:
			o.Op = "recv"
			o.N = []int{-1, 1, 2, 3, 5}[rng.Intn(5)]
			if slow {
				o.N = 1
			}
		case r < 66:
			o.Op = "close"
		case r < 76:
			o.Op = "open"
			o.N = 1 + rng.Intn(3)
		case r < 83:
			o.Op = "cancel"
			o.N = rng.Intn(8)
		case r < 91:
			o.Op = "sleep"
			o.N = 1 + rng.Intn(400)
		case r < 96:
			o.Op = "stat"
		case r < 97:
			o.Op = "build"
			o.N = rng.Intn(12)
		default:
			o.Op = "pclose"
			if is("C25") {
				o.Sync = false
			}
		}
		if is("C25") && pct(10) {
			o.Op = "pclose"
		}
		add(o)
	}
	return s
}

func TestPipe(t *testing.T) {
	log.SetOutput(warnings{})
	hx.Main(t, func(e *hx.Env, idx int, script json.RawMessage, rng *rand.Rand) (map[string]any, int, func(*hx.W)) {
		var s Script
		if script != nil {
			if err := json.Unmarshal(script, &s); err != nil {
				panic(err)
			}
			s.Pipes = []PipeCfg{{Kind: []string{"ptr", "gen", "emb"}[rng.Intn(3)], Par: 1 + rng.Intn(2), Subs: rng.Intn(3), Dag: rng.Intn(3) == 0, Ordered: rng.Intn(3) == 0, NPP: rng.Intn(3), Delay: rng.Intn(3) / 2 * 5}}
			sync := hx.SyncMode(rng)
			for i := 2; i < len(s.Ops); i++ {
				s.Ops[i].Sync = sync()
			}
		} else {
			s = random(e, rng)
		}
		s.Unit = 1 << 14
		if rng.Intn(3) == 0 {
			s.Unit = []int{1000000, 1000000000, 60 * 1000000000, 3600 * 1000000000}[rng.Intn(4)]
		}
		steps := 60000
		for _, o := range s.Ops {
			for _, x := range o.Subs {
				steps += 200 * len(x.V)
			}
			if o.Op == "many" || o.Op == "lives" {
				steps += 1000 * o.N
			}
		}
		rec := e.Rec(rng.Intn(6) == 0)
		var ps []map[string]any
		for _, p := range s.Pipes {
			ps = append(ps, map[string]any{"cap": capOf(p), "dag": p.Dag, "ordered": p.Ordered, "npp": p.NPP, "delay": p.Delay})
		}
		return map[string]any{"pipes": ps, "spans": e.Spans()}, steps, func(w *hx.W) {
			d := &drv{w: w, s: s, base: context.Background(), prog: map[int][]Visit{}, owns: map[int]context.Context{}, visit: map[int]int{}}
			if rec {
				var r *vspan.Rec
				d.base, r = vspan.New(d.base)
				if e.Spans() {
					r.On = w.Ev
				}
			}
			current.Store(d)
			defer current.Store(nil)
			d.run()
		}
	})
}

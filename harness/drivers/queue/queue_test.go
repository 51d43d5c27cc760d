// Package queue drives the internal queue; see spec/Queue.tla.
package queue

import (
	"encoding/json"
	"math/rand"
	"sync/atomic"
	"testing"
	"time"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe/internal/queue"
	"github.com/gostdlib/concurrency/zzverif/hx"
)

// Op is an environment action: a goroutine that pushes or pops N times, Close, or the passing of time.
type Op struct {
	Op   string `json:"op"` // push, pop, close, sleep
	N    int    `json:"n"`
	Sync bool   `json:"sync"`
}

// Script is a scenario.
type Script struct {
	Limit int  `json:"limit"`
	Ops   []Op `json:"ops"`
}

func random(e *hx.Env, rng *rand.Rand) Script {
	s := Script{Limit: rng.Intn(6) - 1}
	if rng.Intn(10) == 0 {
		s.Limit = 4 + rng.Intn(6)
	}
	if s.Limit == 4 {
		s.Limit = 0
	}
	psync := []int{0, 20, 60}[rng.Intn(3)]
	bias := 20 + rng.Intn(60)
	max := 5
	if e.Free {
		max = 12
	}
	if rng.Intn(60) == 0 {
		// Many values.
		for k := 1 + rng.Intn(2); k > 0; k-- {
			n := 20 << rng.Intn(3)
			s.Ops = append(s.Ops, Op{Op: "push", N: n})
			if rng.Intn(2) == 0 {
				s.Ops = append(s.Ops, Op{Op: "pop", N: n - rng.Intn(4)})
			}
		}
	}
	patient := 0
	for k := 3 + rng.Intn(8); k > 0; k-- {
		o := Op{Sync: rng.Intn(100) < psync, N: 1 + rng.Intn(max)}
		switch r := rng.Intn(100); {
		case r < 25:
			o.Op = "sleep"
			o.N = 1 << rng.Intn(26)
			if patient == 0 && rng.Intn(60) == 0 {
				o.N = 0
				patient++
			}
		case r < 29:
			o.Op = "close"
		case rng.Intn(100) < bias:
			o.Op = "push"
		default:
			o.Op = "pop"
		}
		s.Ops = append(s.Ops, o)
	}
	return s
}

type drv struct {
	w       *hx.W
	q       *queue.Queue[int]
	v, j    atomic.Int64
	pushing atomic.Int64
	popping atomic.Int64
	closed  bool
}

func (d *drv) push(n int) {
	if d.closed {
		return
	}
	d.pushing.Add(1)
	d.w.Go(func() {
		defer d.pushing.Add(-1)
		for ; n > 0; n-- {
			v := int(d.v.Add(1))
			d.w.Ev("push", "v", v)
			d.q.Push(v - 1)
			d.w.Ev("pushret", "v", v)
			d.w.Y()
		}
	})
}

func (d *drv) pop(n int) {
	d.popping.Add(1)
	d.w.Go(func() {
		defer d.popping.Add(-1)
		for ; n > 0; n-- {
			j := int(d.j.Add(1))
			d.w.Ev("pop", "j", j)
			v, ok := d.q.Pop()
			if ok {
				v++
			}
			d.w.Ev("popret", "j", j, "ok", ok, "v", v)
			d.w.Y()
		}
	})
}

// pushClose pushes and closes at once.
func (d *drv) pushClose(n int) {
	if d.closed || d.pushing.Load() > 0 {
		return
	}
	d.closed = true
	d.pushing.Add(1)
	d.w.Go(func() {
		defer d.pushing.Add(-1)
		for ; n > 0; n-- {
			v := int(d.v.Add(1))
			d.w.Ev("push", "v", v)
			d.q.Push(v - 1)
			d.w.Ev("pushret", "v", v)
		}
		d.w.Ev("close")
		d.q.Close()
		d.w.Ev("closeret")
	})
}

func (d *drv) close() bool {
	if d.closed || d.pushing.Load() > 0 {
		return false
	}
	d.closed = true
	d.w.Go(func() {
		d.w.Ev("close")
		d.q.Close()
		d.w.Ev("closeret")
	})
	return true
}

// quiet waits until nothing happens any more however long one waits.
func (d *drv) quiet() bool {
	for k, n := 0, -1; k < 3; k++ {
		if n >= 0 {
			time.Sleep(time.Second)
		}
		if !d.w.Settle() {
			d.w.Ev("stuck")
			return false
		}
		if m := d.w.Events(); m != n { // something did happen
			n, k = m, -1
		}
	}
	d.w.Ev("q")
	return true
}

func (d *drv) run(s Script) {
	w := d.w
	d.q = queue.New[int](s.Limit)
	for _, o := range s.Ops {
		if o.Sync {
			if !d.quiet() {
				return
			}
		} else {
			w.Some(w.Rng.Intn(40))
		}
		switch o.Op {
		case "push":
			d.push(o.N)
		case "pop":
			d.pop(o.N)
		case "close":
			d.close()
		case "sleep":
			time.Sleep(time.Duration(o.N))
			// A loop that sleeps is let go on for long.
			for k := 0; o.N == 0 && k < 1500; k++ {
				time.Sleep(20 * time.Millisecond)
				if !w.Settle() {
					d.w.Ev("stuck")
					return
				}
			}
		}
	}
	// Let everything end.
	for k := 0; k < 60; k++ {
		if w.Rng.Intn(3) > 0 {
			if !d.quiet() {
				return
			}
		} else {
			w.Some(w.Rng.Intn(40))
			time.Sleep(time.Duration(1 << w.Rng.Intn(26)))
		}
		switch {
		case d.pushing.Load() > 0:
			d.pop(1 + w.Rng.Intn(4))
		case !d.closed:
			if w.Rng.Intn(3) == 0 {
				d.push(1 + w.Rng.Intn(2))
				d.pop(1 + w.Rng.Intn(2))
				w.Some(w.Rng.Intn(60))
			}
			if w.Rng.Intn(2) == 0 {
				d.pop(1 + w.Rng.Intn(2))
				time.Sleep(time.Duration(1 << w.Rng.Intn(22)))
				w.Some(w.Rng.Intn(6))
				d.pushClose(1 + w.Rng.Intn(2))
			} else {
				d.close()
			}
		default:
			k += 30
			d.pop(int(d.v.Load()) + 1 - k/4)
		}
	}
	// What is left comes out, and then the end.
	if !d.quiet() {
		return
	}
	for k := int(d.v.Load()); k >= 0; k-- {
		d.pop(1)
	}
	d.quiet()
}

func TestQueue(t *testing.T) {
	hx.Main(t, func(e *hx.Env, idx int, script json.RawMessage, rng *rand.Rand) (map[string]any, int, func(*hx.W)) {
		var s Script
		if script != nil {
			if err := json.Unmarshal(script, &s); err != nil {
				panic(err)
			}
			sync := hx.SyncMode(rng)
			for i := range s.Ops {
				s.Ops[i].Sync = sync()
			}
		} else {
			s = random(e, rng)
		}
		limit := s.Limit
		if limit < 0 {
			limit = 0
		}
		return map[string]any{"limit": limit}, 200000, func(w *hx.W) {
			d := &drv{w: w}
			d.run(s)
		}
	})
}

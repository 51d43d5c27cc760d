// Package rw drives atomics.RWValue; see spec/RW.tla.
package rw

import (
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/gostdlib/concurrency/prim/atomics"
	"github.com/gostdlib/concurrency/zzverif/hx"
)

// Op is one call.
type Op struct {
	K    string `json:"k"`    // ld, st, lr
	Gate bool   `json:"gate"` // the function of lr waits for the environment
	End  int    `json:"end"`  // 0: ok, 1: error, 2: panic, 3: error with a changed value
	Load bool   `json:"load"` // the function of lr calls Load
}

// Script is a scenario: the calls of each goroutine.
type Script struct {
	Th  [][]Op `json:"th"`
	Dup bool   `json:"dup"` // few different values are written
}

func random(e *hx.Env, rng *rand.Rand) Script {
	var s Script
	s.Dup = rng.Intn(4) == 0
	pgate, pend, pld := []int{0, 30, 100}[rng.Intn(3)], []int{0, 30, 60}[rng.Intn(3)], 20+rng.Intn(60)
	plr := rng.Intn(101)
	many := rng.Intn(80) == 0
	if e.Focus == "C09" && rng.Intn(2) == 0 {
		pgate = 60
	}
	for t := 2 + rng.Intn(3); t > 0; t-- {
		var ops []Op
		n := 1 + rng.Intn(5)
		if many {
			n = 10 << rng.Intn(4)
		}
		for k := n; k > 0; k-- {
			o := Op{K: "ld"}
			if rng.Intn(100) >= pld {
				o.K = "st"
				if rng.Intn(100) < plr {
					o.K = "lr"
					o.Gate = rng.Intn(100) < pgate
					o.Load = rng.Intn(6) == 0
					if rng.Intn(100) < pend {
						o.End = 1 + rng.Intn(3)
					}
				}
			}
			ops = append(ops, o)
		}
		s.Th = append(s.Th, ops)
	}
	return s
}

// val is a value whose parts are all equal unless it was torn.
type val struct {
	a [3]int
	s string
	b [6]int
}

func mk(n int) val {
	var v val
	if n == 0 {
		return v
	}
	for i := range v.a {
		v.a[i] = n
	}
	for i := range v.b {
		v.b[i] = n
	}
	v.s = fmt.Sprint(n)
	return v
}

func (v val) num() int {
	n := v.a[0]
	if v != mk(n) {
		return -1
	}
	return n
}

// next is the value that the write i writes.
func (d *drv) next(i int) int {
	if d.dup {
		return i % 3
	}
	return i
}

type drv struct {
	dup bool
	w   *hx.W
	v   atomics.RWValue[val]
	mu  sync.Mutex
	n   int
	wt  map[int]bool
}

func (d *drv) id() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.n++
	return d.n
}

func (d *drv) load() {
	i := d.id()
	d.w.Ev("ld", "i", i)
	n := d.v.Load().num()
	d.w.Ev("ldret", "i", i, "v", n)
}

func (d *drv) op(o Op) {
	w := d.w
	switch o.K {
	case "ld":
		d.load()
	case "st":
		i := d.id()
		w.Ev("st", "i", i, "v", d.next(i))
		d.v.Store(mk(d.next(i)))
		w.Ev("stret", "i", i)
	case "lr":
		i := d.id()
		var mine error
		defer func() {
			if r := recover(); r != nil {
				if r != any("panic of the function") {
					w.Crash(r)
					return
				}
				w.Ev("lrpanic", "i", i)
			}
		}()
		w.Ev("lr", "i", i)
		err := d.v.LoadReplace(func(v val) (val, error) {
			w.Ev("fs", "i", i, "v", v.num())
			w.Y()
			if o.Load {
				d.load()
				w.Y()
			}
			if o.Gate {
				d.mu.Lock()
				d.wt[i] = true
				d.mu.Unlock()
				w.Gate(i).Wait()
				d.mu.Lock()
				delete(d.wt, i)
				d.mu.Unlock()
			}
			n := d.next(i)
			if o.End == 1 {
				n = v.num()
			}
			e := 0
			if o.End == 1 || o.End == 3 {
				mine = errors.New("error of the function")
				e = 1
			}
			w.Ev("fe", "i", i, "n", n, "e", e, "p", o.End == 2)
			if o.End == 2 {
				panic("panic of the function")
			}
			return mk(n), mine
		})
		e := 0
		switch {
		case err == nil:
		case mine != nil && err == mine:
			e = 1
		default:
			e = -1
		}
		w.Ev("lrret", "i", i, "e", e)
	}
}

func (d *drv) q() bool {
	if !d.w.Settle() {
		d.w.Ev("stuck")
		return false
	}
	d.w.Ev("q")
	return true
}

func (d *drv) run(s Script) {
	w := d.w
	w.LetTimePass()
	for _, ops := range s.Th {
		ops := ops
		w.Go(func() {
			for _, o := range ops {
				w.Y()
				d.op(o)
			}
		})
		switch w.Rng.Intn(4) {
		case 0:
			w.Some(w.Rng.Intn(30))
		case 1:
			if !d.q() {
				return
			}
		}
	}
	for k := 0; k < 60; k++ {
		if !d.q() {
			return
		}
		g := 0
		d.mu.Lock()
		for i := range d.wt {
			if !w.IsOpen(i) && (g == 0 || i < g) {
				g = i
			}
		}
		d.mu.Unlock()
		if g == 0 {
			break
		}
		w.Gate(g).Open()
	}
	w.Call(d.load)
	d.q()
}

func TestRW(t *testing.T) {
	hx.Main(t, func(e *hx.Env, idx int, script json.RawMessage, rng *rand.Rand) (map[string]any, int, func(*hx.W)) {
		var s Script
		if script != nil {
			if err := json.Unmarshal(script, &s); err != nil {
				panic(err)
			}
			s.Dup = rng.Intn(4) == 0
		} else {
			s = random(e, rng)
		}
		if e.Free { // a goroutine that waits for a real mutex is not seen as waiting: no waiting functions
			for _, ops := range s.Th {
				for i := range ops {
					ops[i].Gate = false
				}
			}
		}
		return map[string]any{"x": 0}, 20000, func(w *hx.W) {
			d := &drv{dup: s.Dup, w: w, wt: map[int]bool{}}
			d.run(s)
		}
	})
}

// Package registry drives the creation, naming, enumeration and closing of pools; see spec/Registry.tla.
package registry

import (
	"context"
	"encoding/json"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/goroutines/internal/register"
	"github.com/gostdlib/concurrency/goroutines/limited"
	"github.com/gostdlib/concurrency/goroutines/pooled"
	"github.com/gostdlib/concurrency/zzverif/hx"
)

// Op is an environment action.
type Op struct {
	Op   string `json:"op"` // new, close, job, jobend, name, pools
	I    int    `json:"i"`  // pool (in the order of the requests)
	B    int    `json:"b"`
	Kind int    `json:"kind"`
	Size int    `json:"size"`
	Bad  int    `json:"bad"` // kind of an invalid name; 0: valid
	Sync bool   `json:"sync"`
}

// Script is a scenario.
type Script struct {
	Ops []Op `json:"ops"`
}

func random(e *hx.Env, rng *rand.Rand) Script {
	var s Script
	bases := 1 + rng.Intn(3)
	pbad := []int{0, 20}[rng.Intn(2)]
	if e.Focus == "C04" {
		pbad = 40
	}
	psync := []int{0, 30, 80, 100}[rng.Intn(4)]
	pclose := 15 + rng.Intn(30)
	n, next := 5+rng.Intn(14), 1
	if rng.Intn(12) == 0 {
		// Many pools with the same base name.
		k := 9 + rng.Intn(30)
		if rng.Intn(8) == 0 {
			k = 95 + rng.Intn(12)
		}
		for ; k > 0; k-- {
			s.Ops = append(s.Ops, Op{Op: "new", I: next, B: 1, Kind: rng.Intn(2), Size: 1, Sync: rng.Intn(4) == 0})
			next++
		}
	}
	most := next + 9
	for k := 0; k < n; k++ {
		o := Op{Sync: rng.Intn(100) < psync}
		switch r := rng.Intn(100); {
		case next > 1 && r < pclose:
			o.Op = "close"
		case next > 1 && r < pclose+8:
			o.Op = "job"
		case next > 1 && r < pclose+14:
			o.Op = "jobend"
		case next > 1 && r < pclose+18:
			o.Op = "name"
		case r < pclose+28:
			o.Op = "pools"
		case next > most:
			continue
		default:
			o.Op = "new"
			o.Kind = rng.Intn(2)
			o.B = rng.Intn(bases + 1)
			if o.B == 0 {
				o.B = rng.Intn(bases + 1)
			}
			o.Size = 1 + rng.Intn(3)
			if rng.Intn(100) < pbad {
				if rng.Intn(2) == 0 {
					o.Size = -rng.Intn(3)
				} else {
					o.Bad = 1 + rng.Intn(8)
				}
			}
			o.I = next
			next++
			s.Ops = append(s.Ops, o)
			continue
		}
		o.I = 1 + rng.Intn(next)
		s.Ops = append(s.Ops, o)
	}
	return s
}

type entry struct {
	p      goroutines.Pool
	closed bool
	jobs   int // jobs submitted
	ended  int // jobs told to end
}

type drv struct {
	w     *hx.W
	bases []string
	mu    sync.Mutex
	pools map[int]*entry
	ids   map[goroutines.Pool]int
	enum  int
	next  int
	busy  atomic.Int64
}

// split gives the base and the number of a name.
func (d *drv) split(name string) (int, int) {
	if name == "" {
		return 0, 0
	}
	for i, b := range d.bases {
		if name == b {
			return i + 1, 0
		}
		if r, ok := strings.CutPrefix(name, b+"-"); ok {
			if n, err := strconv.Atoi(r); err == nil && n > 0 && strconv.Itoa(n) == r {
				return i + 1, n
			}
		}
	}
	return -1, 0
}

func bad(kind int, b string) string {
	h := b[:len(b)/2]
	t := b[len(b)/2:]
	return []string{b, b + "1", b + "-x", b + " x", "7" + b, h + "-" + t, h + "\t" + t, h + "0" + t, b + "-1"}[kind]
}

func (d *drv) do(o Op) {
	w := d.w
	d.mu.Lock()
	x := d.pools[o.I]
	d.mu.Unlock()
	switch o.Op {
	case "new":
		name := ""
		if o.B > 0 {
			name = d.bases[o.B-1]
		}
		if o.Bad > 0 {
			if o.B == 0 {
				o.B = 1
				name = d.bases[0]
			}
			name = bad(o.Bad, name)
		}
		w.Go(func() {
			w.Ev("new", "i", o.I, "b", o.B, "z", o.Size > 0, "v", o.Bad == 0)
			var p goroutines.Pool
			var err error
			if o.Kind == 0 {
				var q *limited.Pool
				if q, err = limited.New(name, o.Size); q != nil {
					p = q
				}
			} else {
				var q *pooled.Pool
				if q, err = pooled.New(name, o.Size); q != nil {
					p = q
				}
			}
			b, n := 0, 0
			if err == nil && p != nil {
				b, n = d.split(p.GetName())
			}
			d.mu.Lock()
			defer d.mu.Unlock()
			if err == nil && p != nil {
				d.ids[p] = o.I
				d.pools[o.I] = &entry{p: p}
			}
			w.Ev("newret", "i", o.I, "ok", err == nil, "b", b, "n", n)
		})
	case "close":
		if x == nil || x.closed {
			return
		}
		x.closed = true
		w.Ev("close", "i", o.I)
		w.Go(func() {
			x.p.Close()
			w.Ev("closeret", "i", o.I)
		})
	case "job":
		if x == nil || x.closed || x.jobs >= 1 { // one job, so that Submit never waits
			return
		}
		x.jobs++
		g := w.Gate(100 + o.I)
		w.Ev("job", "i", o.I)
		x.p.Submit(context.Background(), func(context.Context) {
			g.Wait()
			w.Ev("jobend", "i", o.I)
		})
	case "jobend":
		w.Gate(100 + o.I).Open()
	case "name":
		if x == nil {
			return
		}
		b, n := d.split(x.p.GetName())
		w.Ev("name", "i", o.I, "b", b, "n", n)
	case "pools":
		d.enum++
		j := d.enum
		w.Go(func() {
			w.Ev("pools", "j", j)
			var l []goroutines.Pool
			for p := range register.Pools() {
				w.Y()
				l = append(l, p)
			}
			d.mu.Lock()
			defer d.mu.Unlock()
			r := []int{}
			for _, p := range l {
				i, ok := d.ids[p]
				if !ok {
					i = -1
				}
				r = append(r, i)
			}
			w.Ev("poolsret", "j", j, "l", r)
		})
	}
}

func (d *drv) q() bool {
	if !d.w.Settle() {
		d.w.Ev("stuck")
		return false
	}
	d.w.Ev("q")
	return true
}

func (d *drv) run(s Script) {
	w := d.w
	w.LetTimePass()
	ids := []int{}
	step := func(o Op, sync bool) bool {
		if sync {
			if !d.q() {
				return false
			}
		} else {
			w.Some(w.Rng.Intn(40))
		}
		// The actions of the environment that call the code directly must not wait within the controller.
		if o.Op == "job" {
			return w.Call(func() { d.do(o) })
		}
		d.do(o)
		return true
	}
	for _, o := range s.Ops {
		if o.Op == "new" {
			ids = append(ids, o.I)
		}
		if !step(o, o.Sync) {
			return
		}
	}
	if !d.q() {
		return
	}
	step(Op{Op: "pools"}, true)
	step(Op{Op: "name", I: 1 + w.Rng.Intn(len(ids)+1)}, true)
	for _, i := range ids {
		step(Op{Op: "jobend", I: i}, false)
		step(Op{Op: "close", I: i}, w.Rng.Intn(2) == 0)
	}
	if !d.q() {
		return
	}
	// Everything is as in the beginning.
	step(Op{Op: "pools"}, true)
	for b := range d.bases {
		step(Op{Op: "new", I: 1000 + b, B: b + 1, Size: 1, Kind: w.Rng.Intn(2)}, true)
	}
	for b := range d.bases {
		step(Op{Op: "close", I: 1000 + b}, true)
	}
	step(Op{Op: "pools"}, true)
	if d.q() {
		w.Ev("leak", "n", w.Leftover())
	}
}

var execs atomic.Int64

func TestRegistry(t *testing.T) {
	hx.Main(t, func(e *hx.Env, idx int, script json.RawMessage, rng *rand.Rand) (map[string]any, int, func(*hx.W)) {
		var s Script
		if script != nil {
			if err := json.Unmarshal(script, &s); err != nil {
				panic(err)
			}
			sync := hx.SyncMode(rng)
			for i := range s.Ops {
				s.Ops[i].Sync = sync()
			}
		} else {
			s = random(e, rng)
		}
		// The registry is global: every execution has its own names.
		u := ""
		for n := execs.Add(1); n > 0; n /= 26 {
			u += string(rune('a' + n%26))
		}
		bases := []string{"p" + u, "pq" + u, "p" + u + "é"}
		switch rng.Intn(4) {
		case 0:
			bases = []string{"example.com/x.y/" + u, "example.com/xzy/" + u, "example.com/x.y/" + u + "/z_"}
		case 1:
			bases = []string{u + "P", u + "p", u + "PP"}
			if rng.Intn(3) == 0 {
				bases[0] = strings.Repeat(u+"long/", 60)
			}
		}
		return map[string]any{"x": 0}, 20000 + 1000*len(s.Ops), func(w *hx.W) {
			d := &drv{w: w, bases: bases, pools: map[int]*entry{}, ids: map[goroutines.Pool]int{}}
			d.run(s)
		}
	})
}

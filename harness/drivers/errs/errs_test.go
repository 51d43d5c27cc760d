// Package errs drives goroutines.Errors; see spec/Errs.tla.
package errs

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"

	"github.com/gostdlib/concurrency/goroutines"
	"github.com/gostdlib/concurrency/zzverif/hx"
)

// Script is a scenario: the calls of each goroutine (rec, ls, fst, app, again).
type Script struct {
	Th   [][]string `json:"th"`
	Same int        `json:"same"` // 1: the first goroutine always records the same error, 2: all errors look the same
}

func random(rng *rand.Rand, free bool) Script {
	var s Script
	s.Same = rng.Intn(4)
	most := 6
	if rng.Intn(40) == 0 {
		most = 30 << rng.Intn(3)
		if free {
			most = 200
		}
	}
	prec := 20 + rng.Intn(70)
	for t := 2 + rng.Intn(3); t > 0; t-- {
		var ops []string
		for k := 1 + rng.Intn(most); k > 0; k-- {
			if rng.Intn(100) < prec {
				ops = append(ops, "rec")
			} else {
				ops = append(ops, []string{"ls", "ls", "fst", "app", "again"}[rng.Intn(5)])
			}
		}
		s.Th = append(s.Th, ops)
	}
	return s
}

type numbered struct {
	n    int
	same bool
}

func (e *numbered) Error() string {
	if e.same {
		return "error"
	}
	switch {
	case e.n%9 == 8:
		return ""
	case e.n%9 == 7:
		return "error " + strings.Repeat("x", 3000)
	}
	return fmt.Sprint("error ", e.n)
}

func (e *numbered) Is(t error) bool {
	_, ok := t.(*numbered)
	return ok && (e.same || e == t)
}

// nums gives the numbers of errors; an error that is none of ours has the number -1.
func (d *drv) nums(l []error) []int {
	d.mu.Lock()
	defer d.mu.Unlock()
	r := []int{}
	shared := 0
	for _, e := range l {
		n := -1
		if x, ok := e.(*numbered); ok {
			n = x.n
		}
		if e == error(sharedErr) {
			// It was recorded by one goroutine only: this is its next recording.
			if n = -1; shared < len(d.shared) {
				n = d.shared[shared]
			}
			shared++
		}
		r = append(r, n)
	}
	return r
}

var sharedErr = &numbered{n: 5555}

type list struct {
	j int
	l []error
}

type drv struct {
	w  *hx.W
	e  goroutines.Errors
	mu sync.Mutex
	n  int

	same   int
	shared []int
}

func (d *drv) id() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.n++
	return d.n
}

func (d *drv) again(x list) {
	d.w.Ev("again", "j", x.j, "l", d.nums(x.l))
}

// thread makes the calls of one goroutine. It looks at its own lists only.
func (d *drv) thread(t int, ops []string, seed int64) {
	rng := rand.New(rand.NewSource(seed))
	w := d.w
	var mine []list
	for _, o := range ops {
		w.Y()
		switch o {
		case "rec":
			i := d.id()
			w.Ev("rec", "i", i)
			err := &numbered{n: i, same: d.same == 2}
			if t == 0 && d.same == 1 {
				err = sharedErr
				d.mu.Lock()
				d.shared = append(d.shared, i)
				d.mu.Unlock()
			}
			d.e.Record(err)
			w.Ev("recret", "i", i)
		case "ls", "app":
			j := d.id()
			w.Ev("ls", "j", j)
			l := d.e.Errors()
			w.Ev("lsret", "j", j, "l", d.nums(l))
			mine = append(mine, list{j, l})
			if o == "app" { // the list belongs to the caller
				w.Y()
				_ = append(l, &numbered{n: 9999})
			}
		case "fst":
			j := d.id()
			w.Ev("fst", "j", j)
			n := 0
			if err := d.e.Error(); err != nil {
				n = d.nums([]error{err})[0]
			}
			w.Ev("fstret", "j", j, "v", n)
		case "again":
			if len(mine) > 0 {
				d.again(mine[rng.Intn(len(mine))])
			}
		}
	}
	w.Y()
	for _, x := range mine {
		d.again(x)
	}
}

func (d *drv) q() bool {
	if !d.w.Settle() {
		d.w.Ev("stuck")
		return false
	}
	d.w.Ev("q")
	return true
}

func TestErrs(t *testing.T) {
	hx.Main(t, func(e *hx.Env, idx int, script json.RawMessage, rng *rand.Rand) (map[string]any, int, func(*hx.W)) {
		var s Script
		if script != nil {
			if err := json.Unmarshal(script, &s); err != nil {
				panic(err)
			}
		} else {
			s = random(rng, e.Free)
		}
		return map[string]any{"x": 0}, 20000, func(w *hx.W) {
			d := &drv{w: w, same: s.Same}
			for t, ops := range s.Th {
				ops, t := ops, t
				seed := w.Rng.Int63()
				w.Go(func() { d.thread(t, ops, seed) })
				switch w.Rng.Intn(4) {
				case 0:
					w.Some(w.Rng.Intn(30))
				case 1:
					if !d.q() {
						return
					}
				}
			}
			if !d.q() {
				return
			}
			w.Go(func() { d.thread(-1, []string{"ls", "fst", "app", "ls"}, 1) })
			d.q()
		}
	})
}

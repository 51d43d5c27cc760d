// Package vsched controls the interleaving of instrumented code inside a synctest bubble.
//
// Every instrumented goroutine parks at each yield point; the scheduler, which runs in the
// bubble's root goroutine, waits until all goroutines are parked here or durably blocked in
// a real operation, and then releases exactly one parked goroutine.  When none is parked,
// the program is quiescent: nothing can happen without the environment acting.
package vsched

import (
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

type waiter struct {
	ch   chan struct{}
	key  any // nil: runnable
	gid  uint64
	site int
}

// S is one scheduler; at most one is active at a time.
type S struct {
	mu     sync.Mutex
	parked []*waiter
	rng    *rand.Rand

	// Strategy.
	mode   int
	prio   map[uint64]int
	change map[int]bool
	low    int
	last   uint64
	stick  int
	run    int
	dsite  int
	delay  map[uint64]int

	root  uint64 // the controller itself is not controlled
	Steps int
	// Choices counts scheduling decisions with more than one candidate.
	Choices int
	// MaxParked is the largest number of candidates seen.
	MaxParked int
	Wait      func() // synctest.Wait
	sites     map[int]bool
}

var cur atomic.Pointer[S]
var gen atomic.Uint64

// Sites records the yield points reached in this process.
var Sites = map[int]bool{}
var siteList []int

// On reports whether a scheduler is active.
func On() bool { return cur.Load() != nil }

// Y is a yield point.
func Y(site int) {
	s := cur.Load()
	if s == nil {
		return
	}
	s.park(site, nil)
}

// Gen returns the number of wake-ups so far; see Block.
func Gen() uint64 { return gen.Load() }

// Block parks the calling goroutine until Wake(key). If there was any wake-up since g was
// obtained from Gen, it is runnable at once: the condition must be tested again.
// i counts the tries.
func Block(key any, g uint64, i int) {
	s := cur.Load()
	if s == nil {
		// The execution is over. What never gets its lock must not look busy.
		switch {
		case i < 200:
			runtime.Gosched()
		case i < 260:
			time.Sleep(time.Millisecond)
		default:
			<-make(chan struct{})
		}
		return
	}
	id := gid()
	if id == s.root {
		runtime.Gosched()
		return
	}
	s.mu.Lock()
	if gen.Load() != g {
		key = nil
	}
	w := s.enqueue(id, -1, key)
	s.mu.Unlock()
	<-w.ch
}

// Wake makes goroutines blocked on key runnable.
func Wake(key any) {
	s := cur.Load()
	if s == nil {
		return
	}
	s.mu.Lock()
	gen.Add(1)
	for _, w := range s.parked {
		if w.key == key {
			w.key = nil
		}
	}
	s.mu.Unlock()
}

func (s *S) park(site int, key any) {
	g := gid()
	if g == s.root {
		return
	}
	s.mu.Lock()
	w := s.enqueue(g, site, key)
	s.mu.Unlock()
	<-w.ch
}

// enqueue needs s.mu.
func (s *S) enqueue(g uint64, site int, key any) *waiter {
	w := &waiter{ch: make(chan struct{}), key: key, gid: g, site: site}
	s.parked = append(s.parked, w)
	if site > 0 && !Sites[site] {
		Sites[site] = true
		siteList = append(siteList, site)
	}
	return w
}

func gid() uint64 {
	var buf [40]byte
	n := runtime.Stack(buf[:], false)
	var id uint64
	for i := len("goroutine "); i < n; i++ {
		c := buf[i]
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + uint64(c-'0')
	}
	return id
}

// GID returns the id of the calling goroutine.
func GID() uint64 { return gid() }

const (
	Random = iota
	PCT
	Sticky
	SiteDelay
	Fifo
	numModes
)

// New makes a scheduler with a strategy derived from seed and activates it.
func New(seed int64, wait func()) *S {
	s := &S{root: gid(), rng: rand.New(rand.NewSource(seed)), Wait: wait,
		prio: map[uint64]int{}, change: map[int]bool{}, delay: map[uint64]int{}}
	switch r := s.rng.Intn(100); {
	case r < 25:
		s.mode = Random
	case r < 55:
		s.mode = PCT
		d := 1 + s.rng.Intn(4)
		horizon := 40 << s.rng.Intn(5)
		for i := 0; i < d; i++ {
			s.change[s.rng.Intn(horizon)] = true
		}
	case r < 75:
		s.mode = Sticky
		s.stick = 50 + s.rng.Intn(48)
	case r < 98:
		s.mode = SiteDelay
		if len(siteList) > 0 {
			s.dsite = siteList[s.rng.Intn(len(siteList))]
		}
	default:
		s.mode = Fifo
	}
	cur.Store(s)
	return s
}

// Stop deactivates s and releases everything parked.
func (s *S) Stop() {
	cur.Store(nil)
	s.mu.Lock()
	p := s.parked
	s.parked = nil
	s.mu.Unlock()
	for _, w := range p {
		close(w.ch)
	}
}

// Step lets one goroutine run to its next yield point or blocking operation. It returns
// false if the program is quiescent.
func (s *S) Step() bool {
	s.Wait()
	s.mu.Lock()
	var cand []int
	for i, w := range s.parked {
		if w.key == nil {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		s.mu.Unlock()
		return false
	}
	s.Steps++
	if len(cand) > 1 {
		s.Choices++
	}
	if len(cand) > s.MaxParked {
		s.MaxParked = len(cand)
	}
	i := s.pick(cand)
	if g := s.parked[i].gid; g == s.last && len(cand) > 1 {
		// Nobody may run forever while others could.
		if s.run++; s.run > 250 {
			s.run = 0
			i = cand[s.rng.Intn(len(cand))]
			s.low--
			s.prio[g] = s.low
		}
	} else {
		s.run = 0
	}
	w := s.parked[i]
	s.parked = append(s.parked[:i], s.parked[i+1:]...)
	s.last = w.gid
	s.mu.Unlock()
	close(w.ch)
	return true
}

// Parked returns how many goroutines are blocked on shim locks.
func (s *S) Parked() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.parked)
}

func (s *S) pick(cand []int) int {
	switch s.mode {
	case PCT:
		best, bp := -1, 0
		for _, i := range cand {
			g := s.parked[i].gid
			p, ok := s.prio[g]
			if !ok {
				p = 1000 + s.rng.Intn(1000000)
				s.prio[g] = p
			}
			if best < 0 || p > bp {
				best, bp = i, p
			}
		}
		if s.change[s.Steps] {
			s.low--
			s.prio[s.parked[best].gid] = s.low
		}
		return best
	case Sticky:
		if s.rng.Intn(100) < s.stick {
			for _, i := range cand {
				if s.parked[i].gid == s.last {
					return i
				}
			}
		}
	case SiteDelay:
		var ok []int
		for _, i := range cand {
			w := s.parked[i]
			if w.site == s.dsite {
				if _, seen := s.delay[w.gid]; !seen {
					s.delay[w.gid] = 20 + s.rng.Intn(200)
				}
			}
			if s.delay[w.gid] > 0 {
				s.delay[w.gid]--
				continue
			}
			ok = append(ok, i)
		}
		if len(ok) > 0 {
			// Otherwise mostly run the same goroutine on.
			if s.rng.Intn(100) < 70 {
				for _, i := range ok {
					if s.parked[i].gid == s.last {
						return i
					}
				}
			}
			return ok[s.rng.Intn(len(ok))]
		}
	case Fifo:
		return cand[0]
	}
	return cand[s.rng.Intn(len(cand))]
}

package hx

import (
	"context"
	"sort"
	"sync"
)

// Ctxs knows, for every call that is being executed, the context it should have and the one it was given.
type Ctxs struct {
	mu sync.Mutex
	m  map[int][2]context.Context
}

// Begin is called when call i begins.
func (c *Ctxs) Begin(i int, own, got context.Context) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.m == nil {
		c.m = map[int][2]context.Context{}
	}
	c.m[i] = [2]context.Context{own, got}
}

// End is called when call i is about to end.
func (c *Ctxs) End(i int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.m, i)
}

// Lost gives the calls of which only one of the contexts is cancelled, or only one has a deadline.
// It may only be called at quiescence: a cancellation has reached every context by then.
func (c *Ctxs) Lost() []int {
	c.mu.Lock()
	defer c.mu.Unlock()
	var r []int
	for i, x := range c.m {
		_, a := x[0].Deadline()
		_, b := x[1].Deadline()
		if (x[0].Err() != nil) != (x[1].Err() != nil) || a != b {
			r = append(r, i)
		}
	}
	sort.Ints(r)
	return r
}

package pipe

import (
	"errors"
	"strconv"

	"github.com/gostdlib/concurrency/pipelines/stagedpipe"
	"github.com/gostdlib/concurrency/zzverif/vsched"
)

// Data is the data of a request. Tok is its version.
type Data struct {
	ID  int
	Tok int
	Bag *Bag
}

// Bag is the data whoever holds the request may change.
type Bag struct {
	N   int
	Bad bool
}

func (b *Bag) touch() {
	if b != nil {
		b.N++
	}
}

// MarshalJSON is called by tracing.
func (b *Bag) MarshalJSON() ([]byte, error) {
	vsched.Y(-102)
	n := b.N
	vsched.Y(-102)
	if n != b.N {
		panic("the data of a request changed while it was recorded")
	}
	if b.Bad {
		return nil, errors.New("does not marshal")
	}
	return []byte(strconv.Itoa(n)), nil
}

type Req = stagedpipe.Request[Data]
type Stg = stagedpipe.Stage[Data]

// The state machines: every stage calls do with its number; 1 is Start.

type box struct {
	d *drv
	p int
}

func (b box) do(m int, r Req) Req { return b.d.stage(b.p, m, r) }

// Four stages on a pointer.
type ptrSM struct{ b box }

func (s *ptrSM) Start(r Req) Req   { return s.b.do(1, r) }
func (s *ptrSM) Alpha(r Req) Req   { return s.b.do(2, r) }
func (s *ptrSM) Beta(r Req) Req    { return s.b.do(3, r) }
func (s *ptrSM) Gamma(r Req) Req   { return s.b.do(4, r) }
func (s *ptrSM) Close()            { s.b.d.smClosed(s.b.p) }
func (s *ptrSM) Helper(n int) int  { return n }
func (s *ptrSM) private(r Req) Req { return r }

// Two stages on a value.
type valSM struct{ b box }

func (s valSM) Start(r Req) Req  { return s.b.do(1, r) }
func (s valSM) Second(r Req) Req { return s.b.do(2, r) }
func (s valSM) Close()           { s.b.d.smClosed(s.b.p) }

// A single stage.
type oneSM struct{ b box }

func (s *oneSM) Start(r Req) Req { return s.b.do(1, r) }
func (s *oneSM) Close()          { s.b.d.smClosed(s.b.p) }

// A generic state machine with three stages.
type genSM[T any] struct {
	b box
	v T
}

func (s *genSM[T]) Start(r Req) Req  { return s.b.do(1, r) }
func (s *genSM[T]) Second(r Req) Req { return s.b.do(2, r) }
func (s *genSM[T]) Third(r Req) Req  { return s.b.do(3, r) }
func (s *genSM[T]) Close()           { s.b.d.smClosed(s.b.p) }

// Stages from an embedded type.
type baseSM struct{ b box }

func (s *baseSM) Start(r Req) Req  { return s.b.do(1, r) }
func (s *baseSM) Second(r Req) Req { return s.b.do(2, r) }
func (s *baseSM) Close()           { s.b.d.smClosed(s.b.p) }

type embSM struct {
	*baseSM
	n int
}

func (s *embSM) Third(r Req) Req { return s.b.do(3, r) }

// Stages from an embedded value, with a Start of its own.
type overSM struct {
	valBase
}
type valBase struct{ b box }

func (s valBase) Start(r Req) Req  { return s.b.do(9, r) } // not used
func (s valBase) Second(r Req) Req { return s.b.do(2, r) }
func (s valBase) Close()           { s.b.d.smClosed(s.b.p) }
func (s *overSM) Start(r Req) Req  { return s.b.do(1, r) }

// Objects with more stages.
type subA struct {
	b box
	n int // number of the first stage
}

func (s *subA) One(r Req) Req { return s.b.do(s.n, r) }
func (s *subA) Two(r Req) Req { return s.b.do(s.n+1, r) }

type subB struct {
	b box
	n int
}

func (s subB) Only(r Req) Req { return s.b.do(s.n, r) }

// Stages with the names of other stages.
type subC struct {
	b box
	n int
}

func (s *subC) Second(r Req) Req { return s.b.do(s.n, r) }
func (s *subC) Two(r Req) Req    { return s.b.do(s.n+1, r) }

// machine makes a state machine; stages are its stages, own how many of them it has itself.
func machine(kind string, b box, subs int) (sm stagedpipe.StateMachine[Data], stages []Stg, own int, objs []any) {
	switch kind {
	case "val":
		s := valSM{b}
		sm, stages = s, []Stg{s.Start, s.Second}
	case "one":
		s := &oneSM{b}
		sm, stages = s, []Stg{s.Start}
	case "gen":
		s := &genSM[int]{b: b}
		sm, stages = s, []Stg{s.Start, s.Second, s.Third}
	case "genstr":
		s := &genSM[string]{b: b}
		sm, stages = s, []Stg{s.Start, s.Second, s.Third}
	case "emb":
		s := &embSM{baseSM: &baseSM{b}}
		sm, stages = s, []Stg{s.Start, s.Second, s.Third}
	case "over":
		s := &overSM{valBase{b}}
		sm, stages = s, []Stg{s.Start, s.Second}
	default:
		s := &ptrSM{b}
		sm, stages = s, []Stg{s.Start, s.Alpha, s.Beta, s.Gamma}
	}
	own = len(stages)
	if subs&1 != 0 {
		s := &subA{b, len(stages) + 1}
		stages = append(stages, s.One, s.Two)
		objs = append(objs, s)
	}
	if subs&2 != 0 {
		s := subB{b, len(stages) + 1}
		stages = append(stages, s.Only)
		objs = append(objs, s)
	}
	if subs&4 != 0 {
		s := &subC{b, len(stages) + 1}
		stages = append(stages, s.Second, s.Two)
		objs = append(objs, s)
	}
	return
}

var kinds = []string{"ptr", "val", "one", "gen", "genstr", "emb", "over"}

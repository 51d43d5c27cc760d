// Package vspan has a recording OpenTelemetry span for tests.
package vspan

import (
	"context"
	"sync"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/embedded"

	"github.com/gostdlib/concurrency/zzverif/vsched"
)

// site is the scheduling point of the span methods.
const site = -101

// sink reads everything it is given, as an exporter would.
func sink(kv []attribute.KeyValue) int {
	n := 0
	for _, a := range kv {
		n += len(a.Key) + len(a.Value.Emit())
	}
	return n
}

// Rec collects what was recorded.
type Rec struct {
	mu      sync.Mutex
	Started int
	Ended   int
	Events  int
	Errors  int
	Bytes   int
	// Late counts what was recorded on spans that had already ended.
	Late int
	// On is told what happens: ss i p (span i starts in span p), se i (it ends), su i (something
	// is recorded in it), sx i (an error is).
	On func(k string, kv ...any)
}

func (r *Rec) on(k string, kv ...any) {
	if r.On != nil {
		r.On(k, kv...)
	}
}

// ID returns the number of the span in ctx: 0 if there is none, 1 for the root.
func ID(ctx context.Context) int {
	if ctx == nil {
		return 0
	}
	if s, ok := trace.SpanFromContext(ctx).(*span); ok {
		return s.id
	}
	return 0
}

// Context returns a context with a recording span.
func Context(ctx context.Context) context.Context {
	c, _ := New(ctx)
	return c
}

// New returns a context with a recording span and its record.
func New(ctx context.Context) (context.Context, *Rec) {
	r := &Rec{}
	p := &provider{r: r}
	c, _ := p.Tracer("").Start(ctx, "root")
	return c, r
}

// Get returns the counts.
func (r *Rec) Get() (started, ended, events, errors, late int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.Started, r.Ended, r.Events, r.Errors, r.Late
}

type provider struct {
	embedded.TracerProvider
	r *Rec
}

func (p *provider) Tracer(string, ...trace.TracerOption) trace.Tracer { return &tracer{p: p} }

type tracer struct {
	embedded.Tracer
	p *provider
}

func (t *tracer) Start(ctx context.Context, name string, o ...trace.SpanStartOption) (context.Context, trace.Span) {
	vsched.Y(site)
	c := trace.NewSpanStartConfig(o...)
	sink(c.Attributes())
	t.p.r.mu.Lock()
	t.p.r.Started++
	id := t.p.r.Started
	if id > 1 {
		t.p.r.on("ss", "i", id, "p", ID(ctx))
	}
	t.p.r.mu.Unlock()
	s := &span{t: t, name: name, id: id}
	return trace.ContextWithSpan(ctx, s), s
}

type span struct {
	embedded.Span
	t     *tracer
	name  string
	id    int
	ended bool
}

func (s *span) note(k string, f func(r *Rec)) {
	vsched.Y(site)
	r := s.t.p.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if s.ended {
		r.Late++
	}
	r.on(k, "i", s.id)
	f(r)
}

func (s *span) End(...trace.SpanEndOption) {
	s.note("se", func(r *Rec) { s.ended = true; r.Ended++ })
}
func (s *span) AddEvent(name string, o ...trace.EventOption) {
	c := trace.NewEventConfig(o...)
	n := sink(c.Attributes())
	s.note("su", func(r *Rec) { r.Events++; r.Bytes += n + len(name) })
}
func (s *span) AddLink(trace.Link) {}
func (s *span) IsRecording() bool {
	vsched.Y(site)
	s.t.p.r.mu.Lock()
	defer s.t.p.r.mu.Unlock()
	return !s.ended
}
func (s *span) RecordError(err error, o ...trace.EventOption) {
	if err == nil {
		return
	}
	c := trace.NewEventConfig(o...)
	n := sink(c.Attributes()) + len(err.Error())
	s.note("sx", func(r *Rec) { r.Errors++; r.Bytes += n })
}
func (s *span) SpanContext() trace.SpanContext {
	var t trace.TraceID
	var i trace.SpanID
	t[0] = 1
	i[0], i[1], i[2] = byte(s.id), byte(s.id>>8), 1
	return trace.NewSpanContext(trace.SpanContextConfig{TraceID: t, SpanID: i, TraceFlags: trace.FlagsSampled})
}
func (s *span) SetStatus(c codes.Code, _ string) {
	k := "su"
	if c == codes.Error {
		k = "sx"
	}
	s.note(k, func(*Rec) {})
}
func (s *span) SetName(string) { s.note("su", func(*Rec) {}) }
func (s *span) SetAttributes(kv ...attribute.KeyValue) {
	n := sink(kv)
	s.note("su", func(r *Rec) { r.Bytes += n })
}
func (s *span) TracerProvider() trace.TracerProvider { return s.t.p }

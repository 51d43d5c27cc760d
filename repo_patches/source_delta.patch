From 5866d25b720dc3fd30de5a404e53dc9fc9fa197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 01/28] fix: limited.Pool holds its slot until the job has
 finished

---
 goroutines/limited/goroutines.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 33304df..d3b0f47 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -151,7 +151,6 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 			p.blockEvent(spanner, fcn, now)
 			p.queue <- struct{}{}
 		}
-		defer func() { <-p.queue }()
 	}
 	p.submitEvent(spanner, fcn, opts.NonBlocking, now)
 
@@ -160,6 +159,9 @@ func (p *Pool) Submit(ctx context.Context, runner goroutines.Job, options ...gor
 
 	go func() {
 		defer p.wg.Done()
+		if !opts.NonBlocking {
+			defer func() { <-p.queue }()
+		}
 		defer p.running.Add(-1)
 		runner(ctx)
 	}()
-- 
2.43.0


From bf36c34699312f78d881fb4bdca73b6206c4b827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 02/28] fix: pooled.Pool does not queue non-blocking jobs
 behind busy goroutines

---
 goroutines/pooled/goroutines.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index c9752f5..b56f3f1 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -47,7 +47,7 @@ func New(name string, size int) (*Pool, error) {
 		return nil, err
 	}
 
-	ch := make(chan submit, 1)
+	ch := make(chan submit)
 	p := &Pool{name: name, queue: ch}
 	for i := 0; i < size; i++ {
 		go p.runner()
-- 
2.43.0


From 3ece7bae4af7069d32267f4ccb2e1232557c51fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 03/28] fix: Pool.Len reports the size of the pool

---
 goroutines/limited/goroutines.go | 2 +-
 goroutines/pooled/goroutines.go  | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index d3b0f47..63b9001 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -77,7 +77,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return cap(p.queue)
 }
 
 // Running returns the number of running jobs in the pool.
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index b56f3f1..0c331ab 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -30,6 +30,7 @@ type Pool struct {
 	pool.Pool // Implements the pool.Preventer interface
 	queue     chan submit
 	name      string
+	size      int
 }
 
 // New creates a new Pool. "name" is the name of the pool which is used to get OTEL
@@ -48,7 +49,7 @@ func New(name string, size int) (*Pool, error) {
 	}
 
 	ch := make(chan submit)
-	p := &Pool{name: name, queue: ch}
+	p := &Pool{name: name, queue: ch, size: size}
 	for i := 0; i < size; i++ {
 		go p.runner()
 	}
@@ -78,7 +79,7 @@ func (p *Pool) Wait() {
 
 // Len returns the current size of the pool.
 func (p *Pool) Len() int {
-	return len(p.queue)
+	return p.size
 }
 
 // Running returns the number of running jobs in the pool.
-- 
2.43.0


From e4c4d648dd62fcfe8fd85894e8c04655d52c378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 04/28] fix: any number of pools can be created with the same
 base name

---
 goroutines/internal/register/register.go | 2 +-
 goroutines/limited/goroutines.go         | 2 +-
 goroutines/pooled/goroutines.go          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index 98d57cc..e05f045 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -60,7 +60,7 @@ func NewName(name string) string {
 		return name + "-1"
 	}
 
-	sp := strings.SplitAfter(name, "-")
+	sp := strings.Split(name, "-")
 	n, err := strconv.Atoi(sp[1])
 	if err != nil {
 		panic(fmt.Sprintf("register is broken, name %s is invalid", name))
diff --git a/goroutines/limited/goroutines.go b/goroutines/limited/goroutines.go
index 63b9001..54b48cf 100644
--- a/goroutines/limited/goroutines.go
+++ b/goroutines/limited/goroutines.go
@@ -54,7 +54,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
diff --git a/goroutines/pooled/goroutines.go b/goroutines/pooled/goroutines.go
index 0c331ab..b407b3d 100644
--- a/goroutines/pooled/goroutines.go
+++ b/goroutines/pooled/goroutines.go
@@ -56,7 +56,7 @@ func New(name string, size int) (*Pool, error) {
 
 	for {
 		if err := register.Register(p); err != nil {
-			p.name = register.NewName(name)
+			p.name = register.NewName(p.name)
 			continue
 		}
 		break
-- 
2.43.0


From 393623ab89fdbf38feff63bbbb24bf3d21336ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 05/28] fix: register.Pools closes its channel after the last
 pool

---
 goroutines/internal/register/register.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/goroutines/internal/register/register.go b/goroutines/internal/register/register.go
index e05f045..d95aa0c 100644
--- a/goroutines/internal/register/register.go
+++ b/goroutines/internal/register/register.go
@@ -74,6 +74,7 @@ func NewName(name string) string {
 func Pools() chan goroutines.Pool {
 	ch := make(chan goroutines.Pool, 1)
 	go func() {
+		defer close(ch)
 		mu.RLock()
 		defer mu.RUnlock()
 		for _, p := range registry {
-- 
2.43.0


From 1574a885e558fea6827d1d02f9cecc8378052e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 06/28] fix: goroutines.Errors can be read while errors are
 recorded

---
 goroutines/goroutines.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/goroutines/goroutines.go b/goroutines/goroutines.go
index adf37ea..ef777cf 100644
--- a/goroutines/goroutines.go
+++ b/goroutines/goroutines.go
@@ -182,6 +182,9 @@ func (e *Errors) Record(err error) {
 
 // Error returns the first error recieved.
 func (e *Errors) Error() error {
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
 	if len(e.errors) == 0 {
 		return nil
 	}
@@ -190,5 +193,8 @@ func (e *Errors) Error() error {
 
 // Errors returns all errors.
 func (e *Errors) Errors() []error {
-	return e.errors
+	e.mu.Lock()
+	defer e.mu.Unlock()
+
+	return append([]error(nil), e.errors...)
 }
-- 
2.43.0


From 4954b1a6e3d3f19baab60f6dcdd23fb1aacd67b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 07/28] fix: RWValue.LoadReplace works on a value that was
 never stored

---
 prim/atomics/atomics.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/prim/atomics/atomics.go b/prim/atomics/atomics.go
index 6aa6fb7..563f1e2 100644
--- a/prim/atomics/atomics.go
+++ b/prim/atomics/atomics.go
@@ -47,17 +47,7 @@ func (r *RWValue[T]) LoadReplace(lr LoadReplacer[T]) error {
 	r.mu.Lock()
 	defer r.mu.Unlock()
 
-	v := r.v.Load()
-	var n T
-	var err error
-	if v == nil {
-		var zero T
-		n, err = lr(zero)
-		if err != nil {
-			return err
-		}
-	}
-	n, err = lr(*v)
+	n, err := lr(r.Load())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From e196694eea1f742d6f129ce0cec4420e8ebc87ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 08/28] fix: wait.Group keeps the errors of all functions

---
 prim/wait/wait.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index 4706077..dcb25db 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -25,6 +25,7 @@ package wait
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"sync/atomic"
@@ -250,8 +251,8 @@ func applyErr(ptr *atomic.Pointer[error], err error) {
 			case context.Canceled, context.DeadlineExceeded:
 				return
 			}
-			err = fmt.Errorf("%w", err)
-			if ptr.CompareAndSwap(existing, &err) {
+			joined := errors.Join(*existing, err)
+			if ptr.CompareAndSwap(existing, &joined) {
 				return
 			}
 		}
-- 
2.43.0


From 6409606eb4b902ab54305646a58659cdd1f84000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 09/28] fix: wait.Group counts a function down before Wait can
 return

---
 prim/wait/wait.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index dcb25db..a2d1d92 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -124,8 +124,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	if w.Pool == nil {
 		w.wg.Add(1)
 		go func() {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
@@ -146,8 +146,8 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	w.Pool.Submit(
 		ctx,
 		func(ctx context.Context) {
-			defer w.count.Add(-1)
 			defer w.wg.Done()
+			defer w.count.Add(-1)
 
 			if ctx.Err() != nil {
 				applyErr(&w.errors, ctx.Err())
-- 
2.43.0


From 942576b70cf3ca59baecb3b05c59343d309c8754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 10/28] fix: WithPoolOptions uses the pool it is given

---
 prim/chans/options.go  | 1 +
 prim/slices/options.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/prim/chans/options.go b/prim/chans/options.go
index f5c54ed..05d97a0 100644
--- a/prim/chans/options.go
+++ b/prim/chans/options.go
@@ -46,6 +46,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *chanOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
diff --git a/prim/slices/options.go b/prim/slices/options.go
index 7c5baad..62ebc1a 100644
--- a/prim/slices/options.go
+++ b/prim/slices/options.go
@@ -49,6 +49,7 @@ func WithPoolOptions(pool goroutines.Pool, options ...goroutines.SubmitOption) i
 			func(a any) error {
 				switch t := a.(type) {
 				case *sliceOptions:
+					t.pool = pool
 					t.poolOptions = options
 					return nil
 				}
-- 
2.43.0


From ac98c9a0ed7678928749378a71b1a6acf28b3187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 11/28] fix: slices.Access accepts its options

---
 prim/slices/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index dcefbe9..8d9cfa9 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -45,7 +45,7 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	spanner := span.Get(ctx)
 
 	opts := &sliceOptions{}
-	if err := calloptions.ApplyOptions(&opts, options); err != nil {
+	if err := calloptions.ApplyOptions(opts, options); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 73ab09e3a695d8df59548595c618a8aad40040d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 12/28] fix: Access waits for its calls and reports their
 errors when it is cancelled

---
 prim/chans/chans.go  | 8 +++++---
 prim/slices/slice.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 92d5f07..f11f7eb 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -131,11 +131,13 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	// If we are cancelled, the calls we have already made must still finish and report their errors.
+	var ctxErr error
 	for v := range input {
 		v := v
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if ctxErr = ctx.Err(); ctxErr != nil {
+			break
 		}
 
 		wg.Go(
@@ -152,7 +154,7 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return ctxErr
 }
 
 // StreamResult is a result from a Stream operation.
diff --git a/prim/slices/slice.go b/prim/slices/slice.go
index 8d9cfa9..f540477 100644
--- a/prim/slices/slice.go
+++ b/prim/slices/slice.go
@@ -69,11 +69,13 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 	}
 	wg := wait.Group{Pool: opts.pool, PoolOptions: opts.poolOptions, CancelOnErr: cancel}
 
+	// If we are cancelled, the calls we have already made must still finish and report their errors.
+	var ctxErr error
 	for i := 0; i < len(s); i++ {
 		i := i
 
-		if ctx.Err() != nil {
-			return ctx.Err()
+		if ctxErr = ctx.Err(); ctxErr != nil {
+			break
 		}
 
 		wg.Go(
@@ -87,5 +89,5 @@ func Access[T any](ctx context.Context, s []T, access Accessor[T], options ...Sl
 		spanner.Error(err)
 		return err
 	}
-	return nil
+	return ctxErr
 }
-- 
2.43.0


From 2d3eb9f156c19b33edef6ddd4522ee216eff599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:16 +0000
Subject: [PATCH 13/28] fix: chans.Access stops on cancellation also while its
 input is idle

---
 prim/chans/chans.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index f11f7eb..962987a 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -133,8 +133,17 @@ func Access[T any](ctx context.Context, input <-chan T, access Accessor[T], opti
 
 	// If we are cancelled, the calls we have already made must still finish and report their errors.
 	var ctxErr error
-	for v := range input {
-		v := v
+loop:
+	for {
+		var v T
+		select {
+		case <-ctx.Done():
+		case x, ok := <-input:
+			if !ok {
+				break loop
+			}
+			v = x
+		}
 
 		if ctxErr = ctx.Err(); ctxErr != nil {
 			break
-- 
2.43.0


From 54fba7e8db0fa235c0dfa8f2a5a5ec3b25d925d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 14/28] fix: chans.Modify returns on cancellation also when
 nobody receives its results

---
 prim/chans/chans.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 962987a..94cf951 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -207,7 +207,11 @@ func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamR
 			}
 			return err
 		}
-		output <- StreamResult[R]{Value: r}
+		select {
+		case <-ctx.Done():
+			return ctx.Err()
+		case output <- StreamResult[R]{Value: r}:
+		}
 		return nil
 	}
 
-- 
2.43.0


From f647a0a8c9a3ede3c0c48986412f9c3bf64f26e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:48 +0000
Subject: [PATCH 15/28] fix: chans.Modify reports the errors of its calls also
 when it is cancelled

---
 prim/chans/chans.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/prim/chans/chans.go b/prim/chans/chans.go
index 94cf951..1dd18b6 100644
--- a/prim/chans/chans.go
+++ b/prim/chans/chans.go
@@ -202,7 +202,6 @@ func Modify[T, R any](ctx context.Context, input <-chan T, output chan <-StreamR
 		if err != nil {
 			select {
 			case <-ctx.Done():
-				return ctx.Err()
 			case output <- StreamResult[R]{Err: err}:
 			}
 			return err
-- 
2.43.0


From e917710b4ab6165cce948f77c497b37bb5e44b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 16/28] fix: Queue.Pop returns every value that was pushed
 before Close

---
 pipelines/stagedpipe/internal/queue/queue.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pipelines/stagedpipe/internal/queue/queue.go b/pipelines/stagedpipe/internal/queue/queue.go
index 14628b0..c8148c5 100644
--- a/pipelines/stagedpipe/internal/queue/queue.go
+++ b/pipelines/stagedpipe/internal/queue/queue.go
@@ -59,12 +59,11 @@ func (q *Queue[A]) Pop() (val A, ok bool) {
 
 	var s time.Duration
 	for {
-		a, ok := q.queue.pop()
-		if ok {
-			return a, ok
-		}
+		// This must be read before we look for a value: all values are pushed before the Close().
+		closed := q.closed.Load()
 
-		if q.closed.Load() {
+		a, ok := q.queue.pop()
+		if ok || closed {
 			return a, ok
 		}
 
-- 
2.43.0


From b9c2cbf71f6f84969e006bff62e5f193e252ef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 17/28] fix: the minimums in pipeline Stats are no longer
 always 0

---
 pipelines/stagedpipe/stats.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/pipelines/stagedpipe/stats.go b/pipelines/stagedpipe/stats.go
index 4025978..14bedda 100644
--- a/pipelines/stagedpipe/stats.go
+++ b/pipelines/stagedpipe/stats.go
@@ -1,10 +1,14 @@
 package stagedpipe
 
 import (
+	"math"
 	"sync/atomic"
 	"time"
 )
 
+// noMin is the value of a minimum before anything was recorded.
+const noMin = math.MaxInt64
+
 // Stats are the stats for the Pipeline.
 type Stats struct {
 	// Running is the number of currently running Request(s).
@@ -34,14 +38,17 @@ type stats struct {
 }
 
 func newStats() *stats {
-	return &stats{ingestStats: &ingestStats{}}
+	s := &stats{ingestStats: &ingestStats{}}
+	s.min.Store(noMin)
+	s.ingestStats.min.Store(noMin)
+	return s
 }
 
 func (s *stats) toStats() Stats {
 	stats := Stats{
 		Running:   s.running.Load(),
 		Completed: s.completed.Load(),
-		Min:       time.Duration(s.min.Load()),
+		Min:       getMin(&s.min),
 		Max:       time.Duration(s.max.Load()),
 	}
 	if stats.Completed != 0 {
@@ -69,7 +76,7 @@ type ingestStats struct {
 
 func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	stats := IngestStats{
-		Min: time.Duration(i.min.Load()),
+		Min: getMin(&i.min),
 		Max: time.Duration(i.max.Load()),
 	}
 	if completed != 0 {
@@ -78,6 +85,15 @@ func (i *ingestStats) toIngestStats(completed int64) IngestStats {
 	return stats
 }
 
+// getMin returns the minimum recorded with setMin, or 0 if there isn't one.
+func getMin(current *atomic.Int64) time.Duration {
+	v := current.Load()
+	if v == noMin {
+		return 0
+	}
+	return time.Duration(v)
+}
+
 // setMin will set current to v if v is smaller that current.
 func setMin(current *atomic.Int64, v int64) {
 	for {
-- 
2.43.0


From 26ad8354f6020e86300d9cc21dc725d1f81e12b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 18/28] fix: the average ingest time in pipeline Stats counts
 the running requests

---
 pipelines/stagedpipe/stats.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/stats.go b/pipelines/stagedpipe/stats.go
index 14bedda..4aa9871 100644
--- a/pipelines/stagedpipe/stats.go
+++ b/pipelines/stagedpipe/stats.go
@@ -54,7 +54,7 @@ func (s *stats) toStats() Stats {
 	if stats.Completed != 0 {
 		stats.Avg = time.Duration(s.avgTotal.Load() / stats.Completed)
 	}
-	stats.IngestStats = s.ingestStats.toIngestStats(stats.Completed)
+	stats.IngestStats = s.ingestStats.toIngestStats(stats.Completed + stats.Running)
 	return stats
 }
 
@@ -74,13 +74,13 @@ type ingestStats struct {
 	avgTotal atomic.Int64
 }
 
-func (i *ingestStats) toIngestStats(completed int64) IngestStats {
+func (i *ingestStats) toIngestStats(ingested int64) IngestStats {
 	stats := IngestStats{
 		Min: getMin(&i.min),
 		Max: time.Duration(i.max.Load()),
 	}
-	if completed != 0 {
-		stats.Avg = time.Duration(i.avgTotal.Load() / completed)
+	if ingested != 0 {
+		stats.Avg = time.Duration(i.avgTotal.Load() / ingested)
 	}
 	return stats
 }
-- 
2.43.0


From d8f2789df920b15c03b90d944815d39e82d1826e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 19/28] fix: Pipelines.Close closes the StateMachine when all
 requests are done

---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 7894837..8498637 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -612,6 +612,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer r.ordered.Close()
 			for req := range r.out {
 				r.wg.Done()
+				r.p.wg.Done()
 				req.otelEnd()
 				if err := r.ordered.Add(req); err != nil {
 					panic("bug: ordered demuxer returned an error")
@@ -623,6 +624,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			defer close(r.user)
 			for req := range r.out {
 				r.wg.Done()
+				r.p.wg.Done()
 				req.otelEnd()
 				r.user <- req
 			}
-- 
2.43.0


From beac3ea8d1cbaf53e8ed472a4239a8c08a926ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 20/28] fix: RequestGroups can be created while others are
 being closed

---
 pipelines/stagedpipe/stagedpipe.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 8498637..afac655 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -405,6 +405,8 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		func(r Request[T], err error) {
 			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
 		},
+		// Without a mutex, adding and removing receivers at the same time can lose a receiver.
+		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
 	)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5c9536be84865a50e22a40adef3f2ccd496b5ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 21/28] fix: a Submit that is cancelled leaves no gap in an
 ordered RequestGroup

---
 pipelines/stagedpipe/stagedpipe.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index afac655..cac932b 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -498,6 +498,9 @@ type RequestGroup[T any] struct {
 
 	// itemNum is used to track the order of the Request in the RequestGroup.
 	itemNum atomic.Uint64
+	// submitting is held while a Request is submitted to an ordered RequestGroup, so that
+	// numbers are only used up by Requests that are accepted.
+	submitting chan struct{}
 
 	// startOnce is used to do operations related to telemetry on the first Submit() call.
 	startOnce *sync.Once
@@ -542,8 +545,16 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 	})
 
 	req.groupNum = r.id
-	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
 	req.queueTime = time.Now()
+	if r.ordered != nil {
+		select {
+		case <-req.Ctx.Done():
+			return req.Ctx.Err()
+		case r.submitting <- struct{}{}:
+		}
+		defer func() { <-r.submitting }()
+	}
+	req.itemNum = r.itemNum.Add(1) - 1 // This must start at 0.
 
 	// This let's the Pipelines object know it is receiving a new Request to process.
 	r.p.wg.Add(1)
@@ -557,6 +568,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 
 	select {
 	case <-req.Ctx.Done():
+		if r.ordered != nil {
+			r.itemNum.Store(req.itemNum) // The number goes to the next Request.
+		}
 		r.p.wg.Done()
 		r.wg.Done()
 		return req.Ctx.Err()
@@ -610,6 +624,7 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 			},
 			r.user,
 		)
+		r.submitting = make(chan struct{}, 1)
 		go func() {
 			defer r.ordered.Close()
 			for req := range r.out {
-- 
2.43.0


From 515211100c6dde691c9eac836679c9cb7edd484b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 22/28] fix: Requests do not keep their DAG state when they
 leave the pipeline

---
 pipelines/stagedpipe/stagedpipe.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index cac932b..5fa2fc7 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -741,15 +741,17 @@ func (p *pipeline[T]) runner() {
 }
 
 // processReq processes a single request through the pipeline.
-func (p *pipeline[T]) processReq(r Request[T]) Request[T] {
+func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 	// Stat colllection.
 	r.ingestTime = time.Now()
 	queuedTime := time.Since(r.queueTime)
+	r.seenStages = nil
 	if p.ss {
-		r.seenStages = seenStagesPool.Get().(*seenStages).reset()
+		seen := seenStagesPool.Get().(*seenStages).reset()
+		r.seenStages = seen
 		defer func() {
-			seenStagesPool.Put(r.seenStages)
-			r.seenStages = nil
+			seenStagesPool.Put(seen)
+			out.seenStages = nil
 		}()
 	}
 
-- 
2.43.0


From fa4cec3cf71b8cb8526c73b6486a61f0126d7623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 23/28] fix: a DAG pipeline notices that a request returns to
 the start stage

---
 pipelines/stagedpipe/stagedpipe.go | 50 +++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 5fa2fc7..bffee47 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -803,7 +803,7 @@ func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
 	}
 
 	if r.seenStages != nil {
-		if r.seenStages.seen(methodName(stage)) {
+		if r.seenStages.seen(p.stageName(stage)) {
 			r.Err = Error{Type: cyclicErr, Msg: r.seenStages.callTrace()}
 			return r
 		}
@@ -839,6 +839,54 @@ func numStages[T any](sm any) int {
 	return count
 }
 
+// stageName returns the name of a stage. This is methodName(), except that the Start() method
+// of our StateMachine has the same name whether it is called through the interface or not.
+func (p *pipeline[T]) stageName(stage Stage[T]) string {
+	name := methodName(stage)
+	if name == methodName(p.sm.Start) {
+		if s := declaredName(reflect.TypeOf(p.sm), "Start"); s != "" {
+			return s
+		}
+	}
+	return name
+}
+
+// declaredName returns the name that methodName() gives for a method of an object with type t,
+// which is based on the type that declares the method and not the one that embeds it. Returns the
+// empty string if that cannot be determined.
+func declaredName(t reflect.Type, method string) string {
+	types := []reflect.Type{t}
+	for depth := 0; depth < 10 && len(types) > 0; depth++ {
+		var embedded []reflect.Type
+		for _, t := range types {
+			elem := t
+			if t.Kind() == reflect.Pointer {
+				elem = t.Elem()
+			}
+			// If the type only has wrappers for the method, it does not declare it.
+			for _, mt := range []reflect.Type{elem, reflect.PointerTo(elem)} {
+				m, ok := mt.MethodByName(method)
+				if !ok || mt.Kind() == reflect.Interface {
+					continue
+				}
+				f := runtime.FuncForPC(m.Func.Pointer())
+				if file, _ := f.FileLine(f.Entry()); file != "<autogenerated>" {
+					return strings.TrimSuffix(f.Name(), "[...]")
+				}
+			}
+			if elem.Kind() == reflect.Struct {
+				for i := 0; i < elem.NumField(); i++ {
+					if f := elem.Field(i); f.Anonymous {
+						embedded = append(embedded, f.Type)
+					}
+				}
+			}
+		}
+		types = embedded
+	}
+	return ""
+}
+
 // methodName takes a function or a method and returns its name.
 func methodName(method any) string {
 	if method == nil {
-- 
2.43.0


From ab6ee2b51b32ddbd32760c3d56906482d2a2fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:16 +0000
Subject: [PATCH 24/28] fix: stagedpipe-cli generates a program that builds for
 every package path

The names of variables and imports of main.go hid packages with the same name, and the
file with the StateMachine overwrote data.go or was left out by the Go tool for package
names such as data, my_test or my_windows. Names such as my-pipeline were not valid Go.
---
 .../tools/stagedpipe-cli/cmd/init.go          | 35 +++++++++++++++++--
 .../tools/stagedpipe-cli/cmd/main.tmpl        |  8 ++---
 2 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
index f6280b6..b0db23d 100644
--- a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
+++ b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
@@ -6,9 +6,12 @@ package cmd
 import (
 	"bytes"
 	_ "embed"
+	"go/token"
 	"os"
 	"path"
+	"strings"
 	"text/template"
+	"unicode"
 
 	"github.com/spf13/cobra"
 )
@@ -66,7 +69,7 @@ If you do not need a main.go, you can simply remove the "-m" from the command.`,
 	RunE: func(cmd *cobra.Command, args []string) error {
 		tArgs := tmplArgs{
 			PackagePath: pkg,
-			PackageName: path.Base(pkg),
+			PackageName: packageName(pkg),
 		}
 
 		dataBuff := &bytes.Buffer{}
@@ -101,13 +104,41 @@ If you do not need a main.go, you can simply remove the "-m" from the command.`,
 			return err
 		}
 
-		if err := os.WriteFile(path.Base(tArgs.PackagePath)+".go", pipeBuff.Bytes(), 0o600); err != nil {
+		if err := os.WriteFile(smFile(tArgs.PackagePath), pipeBuff.Bytes(), 0o600); err != nil {
 			return err
 		}
 		return nil
 	},
 }
 
+// packageName returns the name of the package with this path. That is the last element of the path,
+// changed as little as necessary to be a name that a package can have.
+func packageName(pkgPath string) string {
+	name := strings.Map(
+		func(r rune) rune {
+			if unicode.IsLetter(r) || unicode.IsDigit(r) {
+				return r
+			}
+			return '_'
+		},
+		path.Base(pkgPath),
+	)
+	if !token.IsIdentifier(name) || name == "main" || name == "_" {
+		return "p" + name
+	}
+	return name
+}
+
+// smFile returns the name of the file with the StateMachine. It is named like the package, unless that is the
+// name of our data file or may end in something that is special to the Go tool, such as _test or _windows.
+func smFile(pkgPath string) string {
+	base := path.Base(pkgPath)
+	if base == "data" || strings.Contains(base, "_") {
+		return "sm.go"
+	}
+	return base + ".go"
+}
+
 func init() {
 	template.Must(tmpls.New("data").Parse(dataTmpl))
 	template.Must(tmpls.New("pipeline").Parse(pipelineTmpl))
diff --git a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl
index 573f44d..7e524c9 100644
--- a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl
+++ b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/main.tmpl
@@ -8,7 +8,7 @@ import (
     "runtime"
 
     "github.com/gostdlib/concurrency/pipelines/stagedpipe"
-    "{{ .PackagePath }}"
+    sm "{{ .PackagePath }}"
 )
 
 var parallelism = runtime.NumCPU()
@@ -20,13 +20,13 @@ func main() {
 	ctx := context.Background()
     
     // Create the StateMachine implementation that will be used in our pipeline.
-    xsm, err := {{ .PackageName }}.NewSM()
+    xsm, err := sm.NewSM()
     if err != nil {
         log.Fatalf("cannot start state machine: %s", err)
     }
 
     // Create our parallel and concurrent Pipeline from our StateMachine.
-    pipeline, err := stagedpipe.New[{{ .PackageName }}.Data]("pipeline name", parallelism, xsm)
+    pipeline, err := stagedpipe.New[sm.Data]("pipeline name", parallelism, xsm)
     if err!= nil {
         log.Fatalf("cannot create a pipeline: %s", err)
     }
@@ -83,7 +83,7 @@ func main() {
         if reqCtx.Err() != nil {
             break
         }
-        req := {{ .PackageName }}.NewRequest(reqCtx, {{ .PackageName }}.Data{Item: i})
+        req := sm.NewRequest(reqCtx, sm.Data{Item: i})
         if err := rg.Submit(req); err != nil {
             log.Fatalf("problem submitting request to the pipeline: %s", err)
             break
-- 
2.43.0


From ad068bf48ad8bcd0105d2a76b62ff70c50e975d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:27 +0000
Subject: [PATCH 25/28] fix: stagedpipe-cli does not make Data.go next to
 data.go

The Go tool refuses packages with files whose names differ only in case.
---
 pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
index b0db23d..6aca400 100644
--- a/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
+++ b/pipelines/stagedpipe/tools/stagedpipe-cli/cmd/init.go
@@ -130,10 +130,10 @@ func packageName(pkgPath string) string {
 }
 
 // smFile returns the name of the file with the StateMachine. It is named like the package, unless that is the
-// name of our data file or may end in something that is special to the Go tool, such as _test or _windows.
+// name of our data file in any case or may end in something that is special to the Go tool, such as _test or _windows.
 func smFile(pkgPath string) string {
 	base := path.Base(pkgPath)
-	if base == "data" || strings.Contains(base, "_") {
+	if strings.EqualFold(base, "data") || strings.Contains(base, "_") {
 		return "sm.go"
 	}
 	return base + ".go"
-- 
2.43.0


From 81a69cdf2aaf750f31f6579bc367af97d0644ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:03 +0000
Subject: [PATCH 26/28] fix: end the span of a wait.Group in Wait and pass it
 to the functions

---
 prim/wait/wait.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prim/wait/wait.go b/prim/wait/wait.go
index a2d1d92..eb3050a 100644
--- a/prim/wait/wait.go
+++ b/prim/wait/wait.go
@@ -84,6 +84,7 @@ type Group struct {
 func (w *Group) reset() {
 	w.start = time.Time{}
 	w.otelOnce = sync.Once{}
+	w.span = span.Span{}
 	w.count.Store(0)
 	w.total.Store(0)
 	w.errors.Store(nil)
@@ -115,7 +116,7 @@ func (w *Group) Go(ctx context.Context, f FuncCall) {
 	t := time.Now().UTC()
 	if w.span.Span != nil {
 		w.span.Event("Go", "start", t)
-		trace.ContextWithSpan(ctx, w.span.Span)
+		ctx = trace.ContextWithSpan(ctx, w.span.Span)
 	}
 
 	w.count.Add(1)
@@ -188,6 +189,9 @@ func (w *Group) Wait(ctx context.Context) error {
 			"end", end.UTC(),
 			"elapsed_ns", end.Sub(now),
 		)
+		if w.span.IsRecording() {
+			w.span.End()
+		}
 	}()
 
 	w.waitOTELStart()
-- 
2.43.0


From 955f889755f9098d6b8222aa5afc81f82eaa7b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:04 +0000
Subject: [PATCH 27/28] fix: leave no goroutine behind when New refuses an
 option

---
 pipelines/stagedpipe/stagedpipe.go | 34 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index bffee47..8395b2a 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -397,21 +397,6 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 	out := make(chan Request[T], 1)
 	stats := newStats()
 
-	d, err := demux.New(
-		out,
-		func(r Request[T]) uint64 {
-			return r.groupNum
-		},
-		func(r Request[T], err error) {
-			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
-		},
-		// Without a mutex, adding and removing receivers at the same time can lose a receiver.
-		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
-	)
-	if err != nil {
-		return nil, err
-	}
-
 	p := &Pipelines[T]{
 		name:  name,
 		in:    in,
@@ -419,7 +404,6 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		wg:    &sync.WaitGroup{},
 		sm:    sm,
 		stats: stats,
-		demux: d,
 		preProcessors: []PreProcesor[T]{
 			resetNext[T],
 		},
@@ -431,6 +415,23 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		}
 	}
 
+	// This is done after the options are known to be valid, as it starts a goroutine.
+	d, err := demux.New(
+		out,
+		func(r Request[T]) uint64 {
+			return r.groupNum
+		},
+		func(r Request[T], err error) {
+			log.Fatalf("bug: received %#+v and got demux error: %s", r, err)
+		},
+		// Without a mutex, adding and removing receivers at the same time can lose a receiver.
+		demux.WithMutex[uint64, Request[T]](demux.RWMutex),
+	)
+	if err != nil {
+		return nil, err
+	}
+	p.demux = d
+
 	pipelines := make([]*pipeline[T], 0, num)
 	for i := 0; i < num; i++ {
 		args := pipelineArgs[T]{
@@ -450,6 +451,7 @@ func New[T any](name string, num int, sm StateMachine[T], options ...Option[T])
 		_, err := newPipeline(args)
 		if err != nil {
 			close(in)
+			close(out)
 			return nil, err
 		}
 	}
-- 
2.43.0


From a547c43a4815cab5fda302b1a39b1af3de35f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 28/28] fix: end the spans of pipeline stages, requests and
 request groups, and keep them apart

---
 pipelines/stagedpipe/stagedpipe.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pipelines/stagedpipe/stagedpipe.go b/pipelines/stagedpipe/stagedpipe.go
index 8395b2a..349c74b 100644
--- a/pipelines/stagedpipe/stagedpipe.go
+++ b/pipelines/stagedpipe/stagedpipe.go
@@ -87,6 +87,7 @@ import (
 	"github.com/johnsiilver/dynamics/demux"
 	"github.com/johnsiilver/dynamics/method"
 	"go.opentelemetry.io/otel/codes"
+	"go.opentelemetry.io/otel/trace"
 
 	"github.com/gostdlib/internals/otel/span"
 
@@ -575,6 +576,9 @@ func (r *RequestGroup[T]) Submit(req Request[T]) error {
 		}
 		r.p.wg.Done()
 		r.wg.Done()
+		if req.span.IsRecording() {
+			req.span.End()
+		}
 		return req.Ctx.Err()
 	case r.p.in <- req:
 	}
@@ -603,6 +607,7 @@ func (r *RequestGroup[T]) otelEnd() {
 		return
 	}
 	r.span.Event("RequestGroup finished", "elapsed_ns", time.Since(*r.started.Load()))
+	r.span.End()
 }
 
 // NewRequestGroup returns a RequestGroup that can be used to process requests
@@ -630,9 +635,9 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 		go func() {
 			defer r.ordered.Close()
 			for req := range r.out {
+				req.otelEnd()
 				r.wg.Done()
 				r.p.wg.Done()
-				req.otelEnd()
 				if err := r.ordered.Add(req); err != nil {
 					panic("bug: ordered demuxer returned an error")
 				}
@@ -642,9 +647,9 @@ func (p *Pipelines[T]) NewRequestGroup() *RequestGroup[T] {
 		go func() {
 			defer close(r.user)
 			for req := range r.out {
+				req.otelEnd()
 				r.wg.Done()
 				r.p.wg.Done()
-				req.otelEnd()
 				r.user <- req
 			}
 		}()
@@ -782,20 +787,24 @@ func (p *pipeline[T]) processReq(r Request[T]) (out Request[T]) {
 
 // execStage executes a single stage of the pipeline and all preProcessors. It also
 // creates a new span for the stage.
-func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) Request[T] {
+func (p *pipeline[T]) execStage(r Request[T], stage Stage[T]) (out Request[T]) {
 	stageName := methodName(stage)
 
-	parentCtx := r.Ctx
 	parentSpan := r.span
-	defer func() {
-		r.Ctx = parentCtx
-		r.span = parentSpan
-	}()
 	r.Ctx, r.span = span.New(r.Ctx, stageName)
+	stageSpan := r.span
 
 	r.Event(stageName, "start", time.Now())
 	defer func() {
-		r.Event(stageName, "end", time.Now())
+		if stageSpan.IsRecording() {
+			stageSpan.Event(stageName, "end", time.Now())
+			stageSpan.End()
+			// The next stage is not part of this one, but keeps what this one put in the Context.
+			if out.Ctx != nil {
+				out.Ctx = trace.ContextWithSpan(out.Ctx, parentSpan.Span)
+			}
+		}
+		out.span = parentSpan
 	}()
 
 	// If the context has been cancelled, stop processing.
-- 
2.43.0


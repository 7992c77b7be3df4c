From 6eec57aab42eabf3c64c5bae1f548b2310f50581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 01/30] fix: shutdown panics when a hold is taken while the
 previous completion is being waited for

---
 shutdown/shutdown.go | 52 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/shutdown/shutdown.go b/shutdown/shutdown.go
index 2aab1ac..25439b5 100644
--- a/shutdown/shutdown.go
+++ b/shutdown/shutdown.go
@@ -19,15 +19,21 @@ type shutter struct {
 	ch5  chan struct{}
 	once sync.Once
 	// active services holding the shutdown to complete
-	wg sync.WaitGroup
+	mu    sync.Mutex
+	holds int
+	// closed while there are no holds, replaced when the first one is taken
+	idle chan struct{}
 }
 
 var shutdowner = newShutter()
 
 func newShutter() *shutter {
+	idle := make(chan struct{})
+	close(idle)
 	return &shutter{
-		ch:  make(chan struct{}),
-		ch5: make(chan struct{}),
+		ch:   make(chan struct{}),
+		ch5:  make(chan struct{}),
+		idle: idle,
 	}
 }
 
@@ -54,25 +60,45 @@ func (this *shutter) started5Sec() <-chan struct{} {
 
 // returns a channel that will close when the shutdown has completed
 func (this *shutter) done() <-chan struct{} {
-	ch := make(chan struct{})
-	go func() {
-		this.wg.Wait()
-		close(ch)
-	}()
-	return ch
+	this.mu.Lock()
+	defer this.mu.Unlock()
+	return this.idle
 }
 
 // prevent the shutdown to complete until released
 func (this *shutter) hold() ReleaseFn {
-	this.wg.Add(1)
-	return this.wg.Done
+	this.acquire()
+	return this.release
 }
 
 // prevents the shutdown to complete until released, and also wait for the shutdown to start
 func (this *shutter) holdAndWait() ReleaseFn {
-	this.wg.Add(1)
+	this.acquire()
 	<-this.ch
-	return this.wg.Done
+	return this.release
+}
+
+// NOTE: a sync.WaitGroup can't be used here: it panics if it raises from zero again before every
+// previous Wait() has returned, and nothing prevents a Hold() while someone waits for the shutdown
+func (this *shutter) acquire() {
+	this.mu.Lock()
+	defer this.mu.Unlock()
+	if this.holds == 0 {
+		this.idle = make(chan struct{})
+	}
+	this.holds++
+}
+
+func (this *shutter) release() {
+	this.mu.Lock()
+	defer this.mu.Unlock()
+	if this.holds == 0 {
+		panic("shutdown: released more than once")
+	}
+	this.holds--
+	if this.holds == 0 {
+		close(this.idle)
+	}
 }
 
 // setup signals and wait for the shutdown to complete
-- 
2.43.0


From 9ba31f6a9d45d5403d99c5fffebc418074539d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 02/30] fix: sync.Map panics when ranging over a nil interface
 value

---
 utils/sync/map.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utils/sync/map.go b/utils/sync/map.go
index 8ec73ce..594fdc1 100644
--- a/utils/sync/map.go
+++ b/utils/sync/map.go
@@ -91,15 +91,17 @@ func (this *Map[K, V]) Store(key K, val V) {
 
 func (this *Map[K, V]) Range(f func(key K, val V) bool) {
 	this.m.Range(func(key, val any) bool {
-		return f(key.(K), val.(V))
+		k, _ := key.(K) // NOTE: a nil interface is a valid key and a valid value
+		v, _ := val.(V)
+		return f(k, v)
 	})
 }
 
 // like Range, but using errors not bools
 func (this *Map[K, V]) RangeErr(f func(key K, val V) error) error {
 	var err error
-	this.m.Range(func(key, val any) bool {
-		err = f(key.(K), val.(V))
+	this.Range(func(key K, val V) bool {
+		err = f(key, val)
 		return err == nil
 	})
 	return err
-- 
2.43.0


From 3555d21425b56a63ad7e9a0ca50c412ee70846ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 03/30] fix: LRU evicts in insertion order, a hit doesn't
 refresh the entry

---
 utils/caches/lru.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/caches/lru.go b/utils/caches/lru.go
index dd3e596..ebc4e9c 100644
--- a/utils/caches/lru.go
+++ b/utils/caches/lru.go
@@ -64,10 +64,11 @@ func (this *LRU[K, V]) Get(c ctx.C, k K) (V, HitMiss, error) {
 
 	i, exists := this.heap.index[k]
 	if exists {
-		entry := this.heap.list[i]
+		entry := &this.heap.list[i]
 		entry.last = time.Now()
+		val := entry.val // NOTE: Fix() moves the entries around
 		heap.Fix(this.heap, i)
-		return entry.val, HIT, nil
+		return val, HIT, nil
 	}
 
 	// TODO(oha): this is wrong, we shouldn't hold a lock onMiss
-- 
2.43.0


From 1666ba434fd7bc482afa7c9c44a6b11145822001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 04/30] fix: RequestCache fetches twice when a concurrent
 request overtakes the one that missed

---
 utils/caches/request.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utils/caches/request.go b/utils/caches/request.go
index 227c5c3..abea183 100644
--- a/utils/caches/request.go
+++ b/utils/caches/request.go
@@ -44,8 +44,9 @@ func (this *RequestCache[K, V]) Request(c ctx.C, key K) (V, HitMiss, error) {
 	defer e.m.Unlock()
 
 	//log.Debugf(c, "ReqCache[%v] %v expired %v ago", key, hit, time.Since(e.expire))
-	// not a miss, and not expired
-	if hit != MISS && time.Until(e.expire) >= 0 {
+	// already fetched, and not expired (NOTE: a new entry has no expire, and the one who created it
+	// might not be the first to lock it)
+	if time.Until(e.expire) >= 0 {
 		if e.err != nil {
 			return e.V, HIT, e.err
 		} else {
-- 
2.43.0


From 77e15fdd3447e091056e1d54d33676bfa7358c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 05/30] fix: prom.Counter is printed without holding its lock

---
 utils/prom/counter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/prom/counter.go b/utils/prom/counter.go
index caf75da..837fd73 100644
--- a/utils/prom/counter.go
+++ b/utils/prom/counter.go
@@ -31,6 +31,12 @@ func (this *counter) observe(val float64) {
 	this.sum += val
 }
 
+func (this *counter) value() float64 {
+	this.m.Lock()
+	defer this.m.Unlock()
+	return this.sum
+}
+
 func (this *Counter) Print(w io.Writer) error {
 	first := true
 	return this.val.RangeErr(func(l string, v *counter) error {
@@ -53,10 +59,10 @@ func (this *Counter) Print(w io.Writer) error {
 			}
 		}
 		if l == "" {
-			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.sum)
+			_, err := fmt.Fprintf(w, "%s %f\n", this.Name, v.value())
 			return err
 		} else {
-			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.sum)
+			_, err := fmt.Fprintf(w, "%s{%s} %f\n", this.Name, l, v.value())
 			return err
 		}
 	})
-- 
2.43.0


From 04e655297e81d79229bc6a706b91e5e47c7ce51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 06/30] fix: prom.Histogram panics when printed before its
 first observation, and blocks observations while printing

---
 utils/prom/histogram.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/utils/prom/histogram.go b/utils/prom/histogram.go
index e16d811..56c7271 100644
--- a/utils/prom/histogram.go
+++ b/utils/prom/histogram.go
@@ -73,48 +73,52 @@ func (this *Histogram) Print(name string, w io.Writer) (err error) {
 
 func (this *histogramTS) print(w io.Writer, le []float64, name, labels string) (err error) {
 	this.m.Lock()
-	defer this.m.Unlock()
+	buckets := make([]int, len(le)) // NOTE: there are none before the first observe()
+	copy(buckets, this.buckets)
+	sum, count := this.sum, this.count
+	this.m.Unlock() // don't block observe() while writing
+
 	if labels == "" {
 		for i, le := range le {
-			b := this.buckets[i]
+			b := buckets[i]
 			_, err = fmt.Fprintf(w, "%s_bucket{le=\"%v\"} %d\n", name, le, b)
 			if err != nil {
 				return err
 			}
 		}
 		// +Inf is reported, even tho it's dup of "_sum"...
-		_, err = fmt.Fprintf(w, "%s_bucket{le=\"+Inf\"} %d\n", name, this.count)
+		_, err = fmt.Fprintf(w, "%s_bucket{le=\"+Inf\"} %d\n", name, count)
 		if err != nil {
 			return err
 		}
 
-		_, err = fmt.Fprintf(w, "%s_sum %f\n", name, this.sum)
+		_, err = fmt.Fprintf(w, "%s_sum %f\n", name, sum)
 		if err != nil {
 			return err
 		}
-		_, err = fmt.Fprintf(w, "%s_count %d\n", name, this.count)
+		_, err = fmt.Fprintf(w, "%s_count %d\n", name, count)
 		if err != nil {
 			return err
 		}
 	} else {
 		for i, le := range le {
-			b := this.buckets[i]
+			b := buckets[i]
 			_, err = fmt.Fprintf(w, "%s_bucket{%s,le=\"%v\"} %d\n", name, labels, le, b)
 			if err != nil {
 				return err
 			}
 		}
 		// +Inf is reported, even tho it's dup of "_sum"...
-		_, err = fmt.Fprintf(w, "%s_bucket{%s,le=\"+Inf\"} %d\n", name, labels, this.count)
+		_, err = fmt.Fprintf(w, "%s_bucket{%s,le=\"+Inf\"} %d\n", name, labels, count)
 		if err != nil {
 			return err
 		}
 
-		_, err = fmt.Fprintf(w, "%s_sum{%s} %f\n", name, labels, this.sum)
+		_, err = fmt.Fprintf(w, "%s_sum{%s} %f\n", name, labels, sum)
 		if err != nil {
 			return err
 		}
-		_, err = fmt.Fprintf(w, "%s_count{%s} %d\n", name, labels, this.count)
+		_, err = fmt.Fprintf(w, "%s_count{%s} %d\n", name, labels, count)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 2c43047f7961e9630e2ea014fbb29b7c35cb71bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 07/30] fix: enc.Map prints its fields in random order, so
 filters on maps match randomly

---
 enc/map.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/enc/map.go b/enc/map.go
index 5c84ba2..db46d96 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -30,18 +31,28 @@ func (this Map) MarshalJSON() ([]byte, error) {
 	return json.Marshal(map[string]Node(this))
 }
 
+// NOTE: the string representations are compared (see storage.Filter), so they must be deterministic
+func (this Map) sortedKeys() []string {
+	keys := make([]string, 0, len(this))
+	for k := range this {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func (this Map) String() string {
 	p := []string{}
-	for k, v := range this {
-		p = append(p, fmt.Sprintf("%q:%s", k, v))
+	for _, k := range this.sortedKeys() {
+		p = append(p, fmt.Sprintf("%q:%s", k, this[k]))
 	}
 	return "{" + strings.Join(p, ", ") + "}"
 }
 
 func (this Map) GoString() string {
 	p := []string{}
-	for k, v := range this {
-		p = append(p, fmt.Sprintf("%q:%s", k, v))
+	for _, k := range this.sortedKeys() {
+		p = append(p, fmt.Sprintf("%q:%s", k, this[k]))
 	}
 	return "enc.Map{" + strings.Join(p, ", ") + "}"
 }
-- 
2.43.0


From ff26b79f9bb288015b6c97c1740e88996249982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:09 +0000
Subject: [PATCH 08/30] fix: ReadAll loses the data returned along with an
 error, and races with the reader when cancelled

---
 utils/io.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/io.go b/utils/io.go
index c822cb1..5ab827e 100644
--- a/utils/io.go
+++ b/utils/io.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"bytes"
 	"io"
+	"sync"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -12,6 +13,7 @@ import (
 // If the close function is passed, it will be called when read is exhausted.
 func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 	out := bytes.Buffer{}
+	var m sync.Mutex // protects out, because the go-routine might still be reading after we return
 	ch := make(chan error, 1)
 	if close != nil {
 		defer close() // nolint
@@ -21,17 +23,21 @@ func ReadAll(c ctx.C, r io.Reader, close func() error) ([]byte, error) {
 		buf := make([]byte, 8192)
 		for c.Err() == nil {
 			ct, err := r.Read(buf)
+			m.Lock()
+			_, _ = out.Write(buf[0:ct]) // NOTE: there might be data along with the error
+			m.Unlock()
 			if err != nil {
 				ch <- err
 				return
 			}
-			_, _ = out.Write(buf[0:ct])
 			//log.Printf("read %d bytes...", ct)
 		}
 	}()
 	select {
 	case <-c.Done():
-		return out.Bytes(), ctx.NewErrorf(c, "timeout: %w", c.Err())
+		m.Lock()
+		defer m.Unlock()
+		return bytes.Clone(out.Bytes()), ctx.NewErrorf(c, "timeout: %w", c.Err())
 	case err := <-ch:
 		if err == io.EOF {
 			return out.Bytes(), nil
-- 
2.43.0


From d0c1b20524014c542e7b9e00f38823c019d181f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:04 +0000
Subject: [PATCH 09/30] fix: sibling spans get the same tracking id, the
 counter is incremented on a copy

---
 ctx/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctx/span.go b/ctx/span.go
index 401c379..ee68440 100644
--- a/ctx/span.go
+++ b/ctx/span.go
@@ -18,7 +18,7 @@ func WithTracking(c C, suggest string) C {
 	if suggest == "" {
 		suggest = uuid.NewString()
 	}
-	return trackingCtx{
+	return &trackingCtx{
 		C:    WithTag(c, "tracking-id", suggest),
 		ID:   suggest,
 		Last: 0,
@@ -38,7 +38,7 @@ func GetTracking(c C) string {
 
 type trackingNext struct{}
 
-func (c trackingCtx) Value(k any) any {
+func (c *trackingCtx) Value(k any) any {
 	switch k.(type) {
 	case trackingNext:
 		step := atomic.AddInt32(&c.Last, 1)
-- 
2.43.0


From 43e6ede2336b1bf6c3fc18c1694a4a1cf3d89833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:32 +0000
Subject: [PATCH 10/30] fix: WithLogFunc and WithHelper change the logger of
 the parent context

---
 ctx/log/log.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index ea64de9..7f85332 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -75,9 +75,9 @@ func wrapSlogLogger(l *slog.Logger) LogFunc {
 // Returns a new context with the custom LogFunc attached,
 // but without handling of tags and Loggable arguments.
 func WithLogFunc(c ctx.C, l LogFunc) ctx.C {
-	conf := extractConfig(c)
+	conf := *extractConfig(c) // copy, the parent context must not be affected
 	conf.logFunc = l
-	return withConfig(c, conf)
+	return withConfig(c, &conf)
 }
 
 // Returns a new context with the specified helper func attached,
@@ -85,9 +85,9 @@ func WithLogFunc(c ctx.C, l LogFunc) ctx.C {
 // Useful for tests if you do logging with the t.Logf func (wrapped in a LogFunc),
 // and add the t.Helper func with this - ensuring that the relevant src line is logged.
 func WithHelper(c ctx.C, h func()) ctx.C {
-	conf := extractConfig(c)
+	conf := *extractConfig(c) // copy, the parent context must not be affected
 	conf.helper = h
-	return withConfig(c, conf)
+	return withConfig(c, &conf)
 }
 
 // Creates a slog JSON logger with a certain default configuration, with the default minimum log level of debug
-- 
2.43.0


From 71f1e7eb01349f04b1778dfb04408455758579b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:55 +0000
Subject: [PATCH 11/30] fix: logging overwrites the arguments slice of the
 caller

---
 ctx/log/log.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 7f85332..0b3c42d 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -175,6 +175,7 @@ func extractConfig(c ctx.C) *config {
 }
 
 func FormatMsg(c ctx.C, tags *Tags, f string, args ...any) string {
+	args = append([]any(nil), args...) // copy, the slice belongs to the caller
 	errs := []map[string]any{}
 	for i := 0; i < len(args); i++ {
 		switch arg := args[i].(type) {
-- 
2.43.0


From a5d257d7df2e8bdace73e68fb2235f80ab7ad72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 12/30] fix: concurrent decoding of legacy types races on the
 map of warnings given

---
 enc/handler.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index fa079a9..ce03bb9 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sync"
 	"time"
 
 	"github.com/Aize-Public/forego/ctx"
@@ -27,7 +28,7 @@ func (this Handler) Append(p any) Handler {
 	return this
 }
 
-var ineff = map[string]bool{}
+var ineff sync.Map // [string]bool
 
 func MustUnmarshal(c ctx.C, n Node, into any) {
 	err := Handler{}.Unmarshal(c, n, into)
@@ -161,8 +162,7 @@ func (this Handler) unmarshal(c ctx.C, from Node, v reflect.Value) error {
 
 func warnIneff(c ctx.C, f string, args ...any) {
 	msg := fmt.Sprintf(f, args...)
-	if !ineff[msg] {
-		ineff[msg] = true
+	if _, found := ineff.LoadOrStore(msg, true); !found {
 		log.Warnf(c, f, args...)
 	}
 }
-- 
2.43.0


From 7f746ae1976f952637a5673daafc3f82eeb14761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:22 +0000
Subject: [PATCH 13/30] fix: shutdown is done while http requests are in
 progress, and Listen hangs when called during it

---
 http/server.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/http/server.go b/http/server.go
index f5c4cc0..6897063 100644
--- a/http/server.go
+++ b/http/server.go
@@ -4,6 +4,7 @@ import (
 	"compress/gzip"
 	"context"
 	"encoding/json"
+	"errors"
 	"io"
 	"net"
 	"net/http"
@@ -117,6 +118,7 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		return nil, err
 	}
 	ch := make(chan error, 1)
+	drained := make(chan struct{})
 
 	// we start the server in a goroutine
 	go func() {
@@ -132,9 +134,16 @@ func (this Server) Listen(c ctx.C, addr string) (*net.TCPAddr, error) {
 		if err != nil {
 			log.Warnf(c, "listen(%q) %v", addr, err)
 		}
+		l.once.Do(func() { // shutdown before the first Accept()
+			ch <- err
+		})
+		if errors.Is(err, http.ErrServerClosed) {
+			<-drained // Serve() returns as soon as the shutdown starts, while requests are still in progress
+		}
 	}()
 
 	go func() {
+		defer close(drained)
 		<-shutdown.Started()
 		c, cf := ctx.WithTimeout(c, 30*time.Second)
 		defer cf()
-- 
2.43.0


From 8f546aefd340ea0a020974e119f65771d1e59861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 14/30] fix: CallHandler.MaxLength is not enforced

---
 http/call.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/http/call.go b/http/call.go
index adbc369..89a6706 100644
--- a/http/call.go
+++ b/http/call.go
@@ -24,6 +24,13 @@ func (this CallHandler) readTimeout() time.Duration {
 	return 30 * time.Second
 }
 
+func (this CallHandler) maxLength() int64 {
+	if this.MaxLength > 0 {
+		return int64(this.MaxLength)
+	}
+	return 1 << 20
+}
+
 func (this CallHandler) Register(s *Server) {
 	s.mux.HandleFunc(this.Path, func(w http.ResponseWriter, r *http.Request) {
 		c := r.Context()
@@ -36,7 +43,8 @@ func (this CallHandler) Register(s *Server) {
 			}
 			var err error
 			if r.Body != nil {
-				call.reqBody, err = utils.ReadAll(c, r.Body, r.Body.Close)
+				body := http.MaxBytesReader(w, r.Body, this.maxLength())
+				call.reqBody, err = utils.ReadAll(c, body, body.Close)
 				if err != nil {
 					return nil, NewErrorf(c, 400, "can't read body: %w", err)
 				}
-- 
2.43.0


From fee345d3d635db5304019884e7ed0db6b151cc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:54 +0000
Subject: [PATCH 15/30] fix: websocket ping and pong panic, truncated or
 fragmented messages are delivered as complete

---
 http/ws/ws.go | 109 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 65 insertions(+), 44 deletions(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 8b18d60..720b2fc 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -1,7 +1,6 @@
 package ws
 
 import (
-	"fmt"
 	"io"
 	"sync"
 
@@ -70,54 +69,76 @@ func (this *wsImpl) Read(c ctx.C) (enc.Node, error) {
 }
 
 func (this *wsImpl) read(c ctx.C) ([]byte, error) {
-	r, err := this.conn.NewFrameReader()
-	if err != nil {
-		return nil, err
-	}
-	hr := r.HeaderReader()
-	if hr != nil {
-		//d, _ := io.ReadAll(hr)
-		//log.Debugf(c, "ws head: %x (%q)", d, d)
-		_, _ = io.Copy(io.Discard, hr) // we don't care
-	}
-	if c.Err() != nil {
-		return nil, ctx.WrapError(c, c.Err())
-	}
+	var data []byte
+	partial := false // inside a fragmented message
+	for {
+		r, err := this.conn.NewFrameReader()
+		if err != nil {
+			return nil, err
+		}
+		var head []byte
+		hr := r.HeaderReader()
+		if hr != nil {
+			head, _ = io.ReadAll(hr)
+		}
+		if c.Err() != nil {
+			return nil, ctx.WrapError(c, c.Err())
+		}
+
+		switch r.PayloadType() {
+		case websocket.ContinuationFrame:
+			if !partial {
+				return nil, ctx.NewErrorf(c, "unexpected continuation")
+			}
+		case websocket.TextFrame, websocket.BinaryFrame:
+			if partial {
+				return nil, ctx.NewErrorf(c, "expected continuation")
+			}
+		case websocket.CloseFrame:
+			// TODO read message and debug?
+			return nil, ctx.WrapError(c, io.EOF)
+		case websocket.PingFrame, websocket.PongFrame:
+		default:
+			return nil, ctx.NewErrorf(c, "unexpected type %b", r.PayloadType())
+		}
 
-	switch r.PayloadType() {
-	case websocket.ContinuationFrame:
-		return nil, ctx.NewErrorf(c, "unsupported continuation")
-	case websocket.TextFrame, websocket.BinaryFrame:
-	case websocket.CloseFrame:
-		// TODO read message and debug?
-		return nil, ctx.WrapError(c, io.EOF)
-	case websocket.PingFrame, websocket.PongFrame:
-		panic("unsupported ping-pong")
-		/*
-			            // TODO implements this
-						b := make([]byte, maxControlFramePayloadLength)
-						n, err := io.ReadFull(frame, b)
-						if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
-							return nil, err
-						}
-						io.Copy(ioutil.Discard, frame)
-						if frame.PayloadType() == PingFrame {
-							if _, err := handler.WritePong(b[:n]); err != nil {
-								return nil, err
-							}
-						}
-						return nil, nil
-		*/
-	default:
-		panic(fmt.Sprintf("unexpected type %b", r.PayloadType()))
+		payload, err := io.ReadAll(r)
+		if err != nil {
+			return nil, ctx.WrapError(c, err)
+		}
+		if len(head)+len(payload) < r.Len() {
+			return nil, ctx.WrapError(c, io.ErrUnexpectedEOF)
+		}
+
+		switch r.PayloadType() {
+		case websocket.PingFrame:
+			if err := this.pong(c, payload); err != nil {
+				return nil, err
+			}
+			continue
+		case websocket.PongFrame:
+			continue
+		}
+
+		data = append(data, payload...)
+		partial = len(head) > 0 && head[0]&0x80 == 0 // FIN bit not set
+		if partial {
+			continue
+		}
+		log.Debugf(c, "ws recv: %s", data)
+		return data, nil
 	}
+}
 
-	data, err := io.ReadAll(r)
+func (this *wsImpl) pong(c ctx.C, data []byte) error {
+	this.m.Lock()
+	defer this.m.Unlock()
+	w, err := this.conn.NewFrameWriter(websocket.PongFrame)
 	if err != nil {
-		return nil, ctx.WrapError(c, err)
+		return ctx.WrapError(c, err)
 	}
-	log.Debugf(c, "ws recv: %s", data)
-	return data, nil
+	_, err = w.Write(data)
+	return ctx.WrapError(c, err)
 }
 
 func (this *wsImpl) Close(c ctx.C, status int) error {
-- 
2.43.0


From b2f6998d1275283c86b79e69de296c15a1b09a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:10 +0000
Subject: [PATCH 16/30] fix: closing a websocket corrupts a message being sent,
 and leaves it open if the close frame can't be written

---
 http/ws/ws.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/http/ws/ws.go b/http/ws/ws.go
index 720b2fc..a66779c 100644
--- a/http/ws/ws.go
+++ b/http/ws/ws.go
@@ -3,6 +3,7 @@ package ws
 import (
 	"io"
 	"sync"
+	"time"
 
 	"github.com/Aize-Public/forego/ctx"
 	"github.com/Aize-Public/forego/ctx/log"
@@ -19,6 +20,9 @@ const ( // https://www.rfc-editor.org/rfc/rfc6455#section-7.4.1
 	UNEXP_COND    int = 1011
 )
 
+// how long can a close take, if the peer is not reading
+const closeTimeout = 5 * time.Second
+
 // low level websocket implementation
 type impl interface {
 	enc.ReadWriter
@@ -142,9 +146,14 @@ func (this *wsImpl) pong(c ctx.C, data []byte) error {
 }
 
 func (this *wsImpl) Close(c ctx.C, status int) error {
+	// don't wait forever for a peer which is not reading
+	_ = this.conn.SetWriteDeadline(time.Now().Add(closeTimeout))
+	this.m.Lock()
+	defer this.m.Unlock()
 	err := this.conn.WriteClose(status)
+	cerr := this.conn.Close()
 	if err != nil {
 		return err
 	}
-	return this.conn.Close()
+	return cerr
 }
-- 
2.43.0


From 258bfda2af303e1c96fcad83ee00d084352e52c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:32 +0000
Subject: [PATCH 17/30] fix: closing an rpc channel closes all of them, and
 errors of Init are lost

---
 http/ws/handler.go | 10 +++++++++-
 http/ws/reflect.go |  6 +++---
 http/ws/rpc.go     |  3 +++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/http/ws/handler.go b/http/ws/handler.go
index 195c46d..40ddf93 100644
--- a/http/ws/handler.go
+++ b/http/ws/handler.go
@@ -125,10 +125,18 @@ func (this *RpcHandler) Register(c ctx.C, obj any) error {
 			ID:     f.Channel,
 		}
 		conn.byChan.Store(ch.ID, ch)
-		obj := b.build(C{
+		obj, err := b.build(C{
 			C:  c,
 			ch: ch,
 		}, f.Data)
+		if err != nil {
+			conn.byChan.Delete(ch.ID)
+			return conn.Send(c, Frame{
+				Channel: ch.ID,
+				Type:    "error",
+				Data:    enc.MustMarshal(c, err.Error()),
+			})
+		}
 		log.Debugf(c, "new %+v", obj)
 		return nil
 	})
diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 7f149f6..926195b 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -20,7 +20,7 @@ type builder struct {
 }
 
 // init a new object, and bind it's methods to the channel
-func (this builder) build(c C, req enc.Node) any {
+func (this builder) build(c C, req enc.Node) (any, error) {
 	v := reflect.New(this.structType)
 	for _, c := range this.fields {
 		//log.Debugf(nil, "set %v", c.value)
@@ -30,7 +30,7 @@ func (this builder) build(c C, req enc.Node) any {
 	if this.constructor.methodName != "" {
 		err := this.constructor.call(c, v, req)
 		if err != nil {
-			return err
+			return nil, err
 		}
 	}
 
@@ -58,7 +58,7 @@ func (this builder) build(c C, req enc.Node) any {
 		}
 	}
 
-	return v.Interface()
+	return v.Interface(), nil
 }
 
 type method struct {
diff --git a/http/ws/rpc.go b/http/ws/rpc.go
index 4ccb874..361e868 100644
--- a/http/ws/rpc.go
+++ b/http/ws/rpc.go
@@ -43,6 +43,9 @@ func (this *RpcConn) onFrame(c ctx.C, f Frame) error {
 	switch f.Type {
 	case "close":
 		// WAIT FOR STUFF?
+		if ch := this.byChan.Get(f.Channel); ch != nil {
+			return ch.Close(c)
+		}
 		return this.Close(c, 1000)
 	case "new", "open":
 		if fn := this.h.byPath.Get(f.Path); fn != nil {
-- 
2.43.0


From 01715944fed2847bc6f16c9bc166b3f25359a145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:35 +0000
Subject: [PATCH 18/30] fix: websocket objects with a non-zero private field
 can't be opened

---
 http/ws/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/http/ws/reflect.go b/http/ws/reflect.go
index 926195b..c171610 100644
--- a/http/ws/reflect.go
+++ b/http/ws/reflect.go
@@ -119,7 +119,7 @@ func (this *builder) inspect(c ctx.C, obj any) error {
 	for i := 0; i < origVal.Elem().NumField(); i++ {
 		i := i
 		fv := origVal.Elem().Field(i)
-		if !fv.IsZero() {
+		if this.structType.Field(i).IsExported() && !fv.IsZero() {
 			this.fields = append(this.fields, fieldInit{
 				index: i,
 				value: fv,
-- 
2.43.0


From 28b675ec48581befa0b1c17662a4e8507bd1f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:44 +0000
Subject: [PATCH 19/30] fix: http.Client leaks the connection of every response
 with an error status

---
 http/client.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/http/client.go b/http/client.go
index e242969..fa49be2 100644
--- a/http/client.go
+++ b/http/client.go
@@ -29,6 +29,7 @@ func (this Client) Get(c ctx.C, url string) ([]byte, error) {
 	}
 	res, err := this.Do(req)
 	if err != nil {
+		closeBody(res)
 		return nil, err
 	}
 	if res.Body != nil {
@@ -50,6 +51,7 @@ func (this Client) Post(c ctx.C, url string, body []byte) ([]byte, error) {
 	req.Header.Set(`Content-Type`, `application/json`)
 	res, err := this.Do(req)
 	if err != nil {
+		closeBody(res)
 		return nil, err
 	}
 	if res.Body != nil {
@@ -72,6 +74,13 @@ func (this Client) Do(r *http.Request) (*http.Response, error) {
 	}
 }
 
+// the connection can't be reused, and isn't released, until the body is closed
+func closeBody(res *http.Response) {
+	if res != nil && res.Body != nil {
+		res.Body.Close()
+	}
+}
+
 func (this Client) API(c ctx.C, obj Doable) error {
 	c = ctx.WithTag(c, "api", fmt.Sprintf("client %T", obj))
 	h, err := api.NewClient(c, obj)
@@ -104,6 +113,7 @@ func (this Client) API(c ctx.C, obj Doable) error {
 
 		log.Debugf(c, "client[%T].Send() %s", obj, j)
 		res, err := this.Do(req)
+		defer closeBody(res)
 		if err != nil {
 			return ctx.NewErrorf(c, "can't send request: %w", err)
 		}
@@ -116,7 +126,6 @@ func (this Client) API(c ctx.C, obj Doable) error {
 			if err != nil {
 				return ctx.NewErrorf(c, "can't read response: %w", err)
 			}
-			res.Body.Close()
 			log.Debugf(c, "client[%T].Recv() %s", obj, j)
 			return h.Recv(c, data, obj)
 		default:
-- 
2.43.0


From 383e0e516d44b49003d2d939befde25f4451aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:33 +0000
Subject: [PATCH 20/30] fix: http_request metric counts requests twice or with
 code 0, and informational responses hide the status

---
 http/mux.go    | 28 ++++++++++++++++++++++++----
 http/server.go | 10 +++++++---
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/http/mux.go b/http/mux.go
index cac7611..70db3ac 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -19,12 +19,17 @@ func (this *Server) HandleFunc(path string, h http.HandlerFunc) *openapi.Path {
 
 func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 	this.mux.HandleFunc(path, func(w http.ResponseWriter, r *http.Request) {
+		if w2, ok := w.(interface{ setPath(string) }); ok {
+			w2.setPath(path) // the server does the rest, once
+			h.ServeHTTP(w, r)
+			return
+		}
 		t0 := time.Now()
 		c := r.Context()
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w}
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -35,7 +40,7 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 
 		metric{
 			Method: r.Method,
-			Code:   w2.code,
+			Code:   w2.finalCode(),
 			Path:   path,
 		}.observe(time.Since(t0))
 	})
@@ -47,7 +52,19 @@ func (this *Server) Handle(path string, h http.Handler) *openapi.Path {
 
 type response struct {
 	http.ResponseWriter
-	code int
+	code     int
+	path     string // as registered, if different from the one requested
+	hijacked bool
+}
+
+func (r *response) setPath(path string) { r.path = path }
+
+// the code sent to the client: net/http sends a 200 if the handler doesn't set any
+func (r *response) finalCode() int {
+	if r.code == 0 && !r.hijacked {
+		return http.StatusOK
+	}
+	return r.code
 }
 
 type responseHijacker struct {
@@ -63,7 +80,9 @@ func (r *response) WriteHeader(code int) {
 		log.Warnf(nil, "duplicate WriteHeader() at %s", strings.Join(stack, "\n"))
 		return
 	}
-	r.code = code
+	if code < 100 || code > 199 || code == http.StatusSwitchingProtocols { // else informational, the actual one will follow
+		r.code = code
+	}
 	r.ResponseWriter.WriteHeader(code)
 }
 
@@ -75,5 +94,6 @@ func (r *response) Write(b []byte) (int, error) {
 }
 
 func (r responseHijacker) Hijack() (conn net.Conn, rw *bufio.ReadWriter, err error) {
+	r.hijacked = true
 	return r.hijacker.Hijack()
 }
diff --git a/http/server.go b/http/server.go
index 6897063..5bfb0a4 100644
--- a/http/server.go
+++ b/http/server.go
@@ -48,7 +48,7 @@ func NewServer(c ctx.C) *Server {
 		c = ctx.WithTag(c, "ua", r.UserAgent())
 		c = ctx.WithTag(c, "path", r.URL.Path)
 
-		w2 := &response{w, 0}
+		w2 := &response{ResponseWriter: w}
 		switch w := w.(type) {
 		case http.Hijacker:
 			// if there is an hijacker, we need to be a bit clever
@@ -57,10 +57,14 @@ func NewServer(c ctx.C) *Server {
 			this.mux.ServeHTTP(w2, r.WithContext(c))
 		}
 
+		path := r.URL.Path // TODO(oha) if we have templates, this won't work
+		if w2.path != "" {
+			path = w2.path
+		}
 		metric{
 			Method: r.Method,
-			Code:   w2.code,
-			Path:   r.URL.Path, // TODO(oha) if we have templates, this won't work
+			Code:   w2.finalCode(),
+			Path:   path,
 		}.observe(time.Since(t0))
 	})
 
-- 
2.43.0


From 161d96f4620888182b08d6613f8a29386d91f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:06 +0000
Subject: [PATCH 21/30] fix: handlers derived from the same one share the path,
 so errors and unhandled fields are reported at wrong ones

---
 enc/handler.go | 2 +-
 enc/map.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index ce03bb9..ea0f633 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -24,7 +24,7 @@ type Handler struct {
 }
 
 func (this Handler) Append(p any) Handler {
-	this.path = append(this.path, p)
+	this.path = append(this.path[:len(this.path):len(this.path)], p) // copy, others might be appending to the same
 	return this
 }
 
diff --git a/enc/map.go b/enc/map.go
index db46d96..1342b7e 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -118,7 +118,7 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		if handler.UnhandledFields != nil {
 			for k, v := range this {
 				if !seen[k] {
-					err := handler.UnhandledFields(c, append(handler.path, k), v)
+					err := handler.UnhandledFields(c, handler.Append(k).path, v)
 					if err != nil {
 						return ctx.WrapError(c, err)
 					}
-- 
2.43.0


From 1c37b1285a7367c6efe7f73287d77a90e88a6fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:20 +0000
Subject: [PATCH 22/30] fix: decoding a map reports a random one of its errors,
 and picks a random winner of equal keys

---
 enc/map.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/enc/map.go b/enc/map.go
index 1342b7e..1e3153f 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -64,7 +64,8 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 		intokt := t.Key()
 		intovt := t.Elem()
 		mv := reflect.MakeMap(t)
-		for k, n := range this {
+		for _, k := range this.sortedKeys() { // sorted, so the error reported, or the winner of equal keys, is always the same
+			n := this[k]
 			kv := reflect.New(intokt).Elem()
 			switch intokt.Kind() {
 			case reflect.String:
@@ -116,7 +117,8 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 			}
 		}
 		if handler.UnhandledFields != nil {
-			for k, v := range this {
+			for _, k := range this.sortedKeys() {
+				v := this[k]
 				if !seen[k] {
 					err := handler.UnhandledFields(c, handler.Append(k).path, v)
 					if err != nil {
-- 
2.43.0


From be6b943295315fdff43f11f7c1851ed3f4574fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:31 +0000
Subject: [PATCH 23/30] fix: the metrics page is unreadable when a label value,
 such as a request path, has a control character or invalid utf8

---
 utils/prom/labels.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/prom/labels.go b/utils/prom/labels.go
index 66760a0..786c310 100644
--- a/utils/prom/labels.go
+++ b/utils/prom/labels.go
@@ -2,8 +2,12 @@ package prom
 
 import (
 	"fmt"
+	"strings"
 )
 
+// the text exposition format knows only these three escapes, and wants valid utf8
+var labelEscaper = strings.NewReplacer("\\", "\\\\", "\n", "\\n", "\"", "\\\"")
+
 // returns a list of labels comma separated
 func stringify(keys []string, vals []string) string {
 	if len(keys) != len(vals) {
@@ -11,7 +15,7 @@ func stringify(keys []string, vals []string) string {
 	}
 	s := ""
 	for i := 0; i < len(keys); i++ {
-		s += fmt.Sprintf(",%s=%q", keys[i], vals[i])
+		s += fmt.Sprintf(",%s=\"%s\"", keys[i], labelEscaper.Replace(strings.ToValidUTF8(vals[i], "\uFFFD")))
 	}
 	if s == "" {
 		return ""
-- 
2.43.0


From c603bce4fe59738d61f873a867213f70d619a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:10 +0000
Subject: [PATCH 24/30] fix: enc: unsigned integers above MaxInt64 were encoded
 as negative ones

---
 enc/enc.go     | 4 ++--
 enc/handler.go | 2 +-
 enc/numeric.go | 9 +++++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/enc/enc.go b/enc/enc.go
index f422593..0612dfe 100644
--- a/enc/enc.go
+++ b/enc/enc.go
@@ -96,7 +96,7 @@ func fromNative(in any) Node {
 	case int64:
 		return Integer(in)
 	case uint:
-		return Integer(in)
+		return fromUint(uint64(in))
 	case uint8:
 		return Integer(in)
 	case uint16:
@@ -104,7 +104,7 @@ func fromNative(in any) Node {
 	case uint32:
 		return Integer(in)
 	case uint64:
-		return Integer(in)
+		return fromUint(in)
 
 	case bool:
 		return Bool(in)
diff --git a/enc/handler.go b/enc/handler.go
index ea0f633..fbb2f9f 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -212,7 +212,7 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return Integer(v.Int()), nil
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		return Integer(v.Uint()), nil
+		return fromUint(v.Uint()), nil
 	case reflect.String:
 		return String(v.String()), nil
 	case reflect.Pointer:
diff --git a/enc/numeric.go b/enc/numeric.go
index 7e7476d..bed4efb 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 	"strings"
@@ -43,6 +44,14 @@ func (this Integer) Duration(unit time.Duration) Duration {
 	return Duration(time.Duration(this) * unit)
 }
 
+// Integer is signed, what doesn't fit is kept as Digits
+func fromUint(in uint64) Node {
+	if in > math.MaxInt {
+		return Digits(strconv.FormatUint(in, 10))
+	}
+	return Integer(in)
+}
+
 type Float float64
 
 var _ Node = Float(0)
-- 
2.43.0


From c8dd21f7fd8244ad64312830c6e2165411b05068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:29 +0000
Subject: [PATCH 25/30] fix: enc: numbers which don't fit the type were
 silently truncated

---
 enc/map.go     |  6 ++++++
 enc/numeric.go | 18 ++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/enc/map.go b/enc/map.go
index 1e3153f..c5823ae 100644
--- a/enc/map.go
+++ b/enc/map.go
@@ -75,12 +75,18 @@ func (this Map) unmarshalInto(c ctx.C, handler Handler, into reflect.Value) erro
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
+				if kv.OverflowInt(i) {
+					return ctx.NewErrorf(c, "can't convert %q to %v at %v", k, intokt, handler.path.String()+"#key")
+				}
 				kv.SetInt(i)
 			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 				i, err := strconv.ParseUint(k, 10, 64)
 				if err != nil {
 					return ctx.NewErrorf(c, "can't convert %q to string at %v", k, handler.path.String()+"#key")
 				}
+				if kv.OverflowUint(i) {
+					return ctx.NewErrorf(c, "can't convert %q to %v at %v", k, intokt, handler.path.String()+"#key")
+				}
 				kv.SetUint(i)
 			default:
 				err := handler.Append("#key").unmarshal(c, String(k), kv)
diff --git a/enc/numeric.go b/enc/numeric.go
index bed4efb..eaf51d8 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -30,8 +30,13 @@ type Integer int
 var _ Node = Integer(0)
 var _ Numeric = Integer(0)
 
-func (this Integer) Int64() (int64, error)        { return int64(this), nil }
-func (this Integer) Uint64() (uint64, error)      { return uint64(this), nil }
+func (this Integer) Int64() (int64, error) { return int64(this), nil }
+func (this Integer) Uint64() (uint64, error) {
+	if this < 0 {
+		return 0, fmt.Errorf("can't convert %d to unsigned", int64(this))
+	}
+	return uint64(this), nil
+}
 func (this Integer) Float64() (float64, error)    { return float64(this), nil }
 func (this Integer) String() string               { return strconv.FormatInt(int64(this), 10) }
 func (this Integer) GoString() string             { return fmt.Sprintf("enc.Integer{%v}", int64(this)) }
@@ -139,6 +144,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowFloat(f) {
+			return ctx.NewErrorf(c, "can't unmarshal %s: %v overflows %v", handler.path, this, into.Type())
+		}
 		into.SetFloat(f)
 	case reflect.Int,
 		reflect.Int8,
@@ -149,6 +157,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowInt(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s: %v overflows %v", handler.path, this, into.Type())
+		}
 		into.SetInt(int64(i))
 	case reflect.Uint,
 		reflect.Uint8,
@@ -159,6 +170,9 @@ func unmarshalNumericInto(this numeric, c ctx.C, handler Handler, into reflect.V
 		if err != nil {
 			return err
 		}
+		if into.OverflowUint(i) {
+			return ctx.NewErrorf(c, "can't unmarshal %s: %v overflows %v", handler.path, this, into.Type())
+		}
 		into.SetUint(uint64(i))
 	case reflect.Interface:
 		v := reflect.ValueOf(this.native())
-- 
2.43.0


From 5493fa5fb04b4565657e66503bdfb3bdb6086052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:33 +0000
Subject: [PATCH 26/30] fix: enc: 1.5e3 was decoded as 1 into an integer

---
 enc/numeric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enc/numeric.go b/enc/numeric.go
index eaf51d8..a4b7006 100644
--- a/enc/numeric.go
+++ b/enc/numeric.go
@@ -91,7 +91,7 @@ func (this Digits) Uint64() (uint64, error) {
 	return i, err
 }
 func trimDecimal(s string) string {
-	if strings.Contains(string(s), ".") {
+	if strings.Contains(string(s), ".") && !strings.ContainsAny(s, "eE") { // 1.5e3 is not 1
 		return strings.Split(s, ".")[0]
 	}
 	return s
-- 
2.43.0


From 435c6d05b1c863959fc20f6c4936d69c4a785c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 27/30] fix: enc: JSON followed by something else was accepted

---
 enc/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/enc/json.go b/enc/json.go
index 10c01fa..1d4588c 100644
--- a/enc/json.go
+++ b/enc/json.go
@@ -3,6 +3,7 @@ package enc
 import (
 	"bytes"
 	"encoding/json"
+	"io"
 
 	"github.com/Aize-Public/forego/ctx"
 )
@@ -82,5 +83,8 @@ func (this JSON) Decode(c ctx.C, data []byte) (Node, error) {
 	if err != nil {
 		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "%w", err)
 	}
+	if _, err := dec.Token(); err != io.EOF {
+		return nil, ctx.NewErrorf(ctx.WithTag(c, "data", string(data)), "unexpected data after the JSON value")
+	}
 	return fromNative(obj), nil
 }
-- 
2.43.0


From 7b646241d3c4e88102d43774f74298c42d494425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:27 +0000
Subject: [PATCH 28/30] fix: ctx/log: a tag named level makes every log call
 panic, and a tag named msg is renamed

---
 ctx/log/log.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctx/log/log.go b/ctx/log/log.go
index 0b3c42d..25100e7 100644
--- a/ctx/log/log.go
+++ b/ctx/log/log.go
@@ -94,6 +94,9 @@ func WithHelper(c ctx.C, h func()) ctx.C {
 func NewDefaultSlogLogger(out io.Writer) *slog.Logger {
 	DefaultLoggerLevel.Set(slog.LevelDebug)
 	return slog.New(slog.NewJSONHandler(out, &slog.HandlerOptions{Level: DefaultLoggerLevel, ReplaceAttr: func(groups []string, a slog.Attr) slog.Attr {
+		if len(groups) > 0 { // a tag, whatever its name
+			return a
+		}
 		switch a.Key {
 		case slog.LevelKey:
 			level := a.Value.Any().(slog.Level)
-- 
2.43.0


From c72a3bdfc3fa797465b278bef28f92e3af35e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:51 +0000
Subject: [PATCH 29/30] fix: CallHandler.ReadTimeout is not enforced while the
 client stalls: the response waits for the pending read

---
 http/call.go | 8 +++++++-
 http/mux.go  | 3 +++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/http/call.go b/http/call.go
index 89a6706..569e04e 100644
--- a/http/call.go
+++ b/http/call.go
@@ -44,7 +44,13 @@ func (this CallHandler) Register(s *Server) {
 			var err error
 			if r.Body != nil {
 				body := http.MaxBytesReader(w, r.Body, this.maxLength())
-				call.reqBody, err = utils.ReadAll(c, body, body.Close)
+				call.reqBody, err = utils.ReadAll(c, body, func() error {
+					if c.Err() != nil { // Close() would wait for the pending Read(), and so would the response
+						w.Header().Set("Connection", "close")
+						_ = http.NewResponseController(w).SetReadDeadline(time.Now())
+					}
+					return body.Close()
+				})
 				if err != nil {
 					return nil, NewErrorf(c, 400, "can't read body: %w", err)
 				}
diff --git a/http/mux.go b/http/mux.go
index 70db3ac..fb710af 100644
--- a/http/mux.go
+++ b/http/mux.go
@@ -59,6 +59,9 @@ type response struct {
 
 func (r *response) setPath(path string) { r.path = path }
 
+// for http.ResponseController
+func (r *response) Unwrap() http.ResponseWriter { return r.ResponseWriter }
+
 // the code sent to the client: net/http sends a 200 if the handler doesn't set any
 func (r *response) finalCode() int {
 	if r.code == 0 && !r.hijacked {
-- 
2.43.0


From a11c45718de8c42c522abdb2a7d8e6f051a50a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:30 +0000
Subject: [PATCH 30/30] fix: enc: encoding a map reports a random one of its
 errors, and drops a random one of the keys encoded alike

---
 enc/handler.go | 62 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/enc/handler.go b/enc/handler.go
index fbb2f9f..74091d5 100644
--- a/enc/handler.go
+++ b/enc/handler.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"sort"
 	"sync"
 	"time"
 
@@ -167,6 +168,26 @@ func warnIneff(c ctx.C, f string, args ...any) {
 	}
 }
 
+func (this Handler) marshalKey(c ctx.C, kv reflect.Value) (string, error) {
+	switch k := kv.Interface().(type) {
+	case string:
+		return k, nil
+	default:
+		n, err := this.Marshal(c, k)
+		if err != nil {
+			return "", err
+		}
+		switch n := n.(type) {
+		case String:
+			return string(n), nil
+		case Integer, Float, Digits:
+			return fmt.Sprint(n), nil
+		default:
+			return "", ctx.NewErrorf(c, "can't marshal %v as map key", kv.Type())
+		}
+	}
+}
+
 // transform an object into a enc.Node
 func Marshal(c ctx.C, in any) (Node, error) {
 	return Handler{}.Marshal(c, in)
@@ -240,34 +261,29 @@ func (this Handler) Marshal(c ctx.C, in any) (Node, error) {
 		if v.IsNil() {
 			return Nil{}, nil
 		}
-		m := Map{}
+		vals := map[string]reflect.Value{}
 		for _, kv := range v.MapKeys() {
-			vv := v.MapIndex(kv)
-			n, err := this.Marshal(c, vv.Interface())
+			k, err := this.marshalKey(c, kv)
 			if err != nil {
 				return nil, err
 			}
-			switch k := kv.Interface().(type) {
-			case string:
-				m[k] = n
-			default:
-				nk, err := this.Marshal(c, k)
-				if err != nil {
-					return nil, err
-				}
-				switch nk := nk.(type) {
-				case String:
-					m[string(nk)] = n
-				case Integer:
-					m[fmt.Sprint(nk)] = n
-				case Float:
-					m[fmt.Sprint(nk)] = n
-				case Digits:
-					m[fmt.Sprint(nk)] = n
-				default:
-					return nil, ctx.NewErrorf(c, "can't marshal %v as map key", kv.Type())
-				}
+			if _, found := vals[k]; found {
+				return nil, ctx.NewErrorf(c, "can't marshal %v: more than one key is encoded as the same string", v.Type())
+			}
+			vals[k] = v.MapIndex(kv)
+		}
+		keys := make([]string, 0, len(vals))
+		for k := range vals {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys) // so the error reported is always the same
+		m := Map{}
+		for _, k := range keys {
+			n, err := this.Marshal(c, vals[k].Interface())
+			if err != nil {
+				return nil, err
 			}
+			m[k] = n
 		}
 		return m, nil
 
-- 
2.43.0


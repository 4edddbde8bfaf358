From d030aa32ba6fa4743a7dc6613e8beb5baac97d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 01/35] fix: xsync.Map.Clear must replace the read part
 atomically

Assigning a fresh atomic.Value is a plain two-word write that races with
lock-free readers and can make them observe a half-written interface.
---
 xsync/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsync/map.go b/xsync/map.go
index eedd84f..08431af 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -417,7 +417,7 @@ func (m *Map) Delete(key interface{}) {
 // Clear clears all elements.
 func (m *Map) Clear() {
 	m.mu.Lock()
-	m.read = atomic.Value{}
+	m.read.Store(readOnly{})
 	m.dirty = nil
 	m.misses = 0
 	m.mu.Unlock()
-- 
2.43.0


From 4733eecf32104b52fd7be774e5f95ce95f2ce984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 02/35] fix: xsync.Map.ComputeIfPresent must recompute after a
 lost race

After a failed compare-and-swap the value computed from the old value was
stored over the new one, losing the concurrent update.
---
 xsync/map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 08431af..33dfc54 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -364,10 +364,10 @@ func (e *entry) tryComputeIfPresent(key interface{}, computeFunc func(key, value
 	if p == nil {
 		return nil, false, true
 	}
-	i := computeFunc(key, *(*interface{})(p))
-	ic := i
-
 	for {
+		// The value must be computed from the very value that is replaced.
+		i := computeFunc(key, *(*interface{})(p))
+		ic := i
 		if atomic.CompareAndSwapPointer(&e.p, p, unsafe.Pointer(&ic)) {
 			return i, true, true
 		}
-- 
2.43.0


From 8d43b596130d9eec2af890d4708b0a2c6cd0e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 03/35] fix: xsync.Map must release its lock when a compute
 callback panics

---
 xsync/map.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsync/map.go b/xsync/map.go
index 33dfc54..f2e332d 100644
--- a/xsync/map.go
+++ b/xsync/map.go
@@ -275,6 +275,7 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		}
 	}
 	m.mu.Lock()
+	defer m.mu.Unlock()
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -295,7 +296,6 @@ func (m *Map) ComputeIfAbsent(key interface{}, computeFunc func(key interface{})
 		m.dirty[key] = newEntry(value)
 		actual, loaded = value, false
 	}
-	m.mu.Unlock()
 	return actual, loaded
 }
 
@@ -340,6 +340,7 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 		}
 	}
 	m.mu.Lock()
+	defer m.mu.Unlock()
 	read, _ = m.read.Load().(readOnly)
 	if e, ok := read.m[key]; ok {
 		if e.unexpungeLocked() {
@@ -352,7 +353,6 @@ func (m *Map) ComputeIfPresent(key interface{}, computeFunc func(key, value inte
 	} else {
 		actual, exist = nil, false
 	}
-	m.mu.Unlock()
 	return actual, exist
 }
 
-- 
2.43.0


From 921b815359e4f98dcf4de659734a064b21ad9274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:23 +0000
Subject: [PATCH 04/35] fix: NewSharedMap must refuse a negative shard count

The conversion to uint32 turned it into a huge count.
---
 xsync/shared_map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsync/shared_map.go b/xsync/shared_map.go
index 631df56..bfdf7a6 100644
--- a/xsync/shared_map.go
+++ b/xsync/shared_map.go
@@ -36,6 +36,10 @@ type (
 // WithShardBlockSize returns a configuration that sets the size of the number of segments.
 func WithShardBlockSize(shardBlockSize int) SharedMapOption {
 	return func(sharedMapOptions *sharedMapOptions) {
+		if shardBlockSize < 0 {
+			// refused by NewSharedMap, like zero.
+			shardBlockSize = 0
+		}
 		sharedMapOptions.shardBlockSize = uint32(shardBlockSize)
 	}
 }
-- 
2.43.0


From 522b38fe2abff84497d6397fd90813210ea6b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 05/35] fix: ResourceManager.Get must not crash when the
 manager is closed

A Get pending during Close, or issued after it, wrote to the nil map and
panicked with the lock held, leaking the new resource and wedging the manager.
---
 xsync/resourcemanager.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index fecea48..cba7508 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -17,12 +17,16 @@
 package xsync
 
 import (
+	"errors"
 	"github.com/chenquan/go-pkg/xerror"
 	"golang.org/x/sync/singleflight"
 	"io"
 	"sync"
 )
 
+// ErrResourceManagerClosed is returned by Get when the ResourceManager is closed.
+var ErrResourceManagerClosed = errors.New("resource manager is closed")
+
 // ResourceManager is a resource manager.
 type ResourceManager struct {
 	rw           sync.RWMutex
@@ -58,10 +62,14 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 
 		m.rw.RLock()
 		resource, ok := m.resources[key]
+		closed := m.resources == nil
 		m.rw.RUnlock()
 		if ok {
 			return resource, nil
 		}
+		if closed {
+			return nil, ErrResourceManagerClosed
+		}
 
 		resource, err := create()
 		if err != nil {
@@ -69,9 +77,20 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 		}
 
 		m.rw.Lock()
-		m.resources[key] = resource
+		closed = m.resources == nil
+		if !closed {
+			m.resources[key] = resource
+		}
 		m.rw.Unlock()
 
+		if closed {
+			// Closed while creating: nobody else will close the resource.
+			var be xerror.BatchError
+			be.Add(ErrResourceManagerClosed)
+			be.Add(resource.Close())
+			return nil, be.Err()
+		}
+
 		return resource, nil
 	})
 	if err != nil {
-- 
2.43.0


From fdefe5114c3ff61f60a144b0a904a72e40f88c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 06/35] fix: ResourceManager.Get must not join a call that is
 already over

A single-flight call can be joined after its result is visible: a Get that
started after Remove returned could receive the removed resource, and one that
started after a creation failed could receive that old failure.
---
 xsync/resourcemanager.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index cba7508..a218acc 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -63,6 +63,11 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 		m.rw.RLock()
 		resource, ok := m.resources[key]
 		closed := m.resources == nil
+		if ok {
+			// Forget this call while the resource cannot be removed, lest a
+			// request made after its removal joins it.
+			m.singleFlight.Forget(key)
+		}
 		m.rw.RUnlock()
 		if ok {
 			return resource, nil
@@ -71,6 +76,14 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 			return nil, ErrResourceManagerClosed
 		}
 
+		created := false
+		defer func() {
+			if !created {
+				// The next request must try again instead of joining this call.
+				m.singleFlight.Forget(key)
+			}
+		}()
+
 		resource, err := create()
 		if err != nil {
 			return nil, err
@@ -80,6 +93,8 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 		closed = m.resources == nil
 		if !closed {
 			m.resources[key] = resource
+			created = true
+			m.singleFlight.Forget(key)
 		}
 		m.rw.Unlock()
 
-- 
2.43.0


From 034f04047a8a960b55af3abcdbbece1f3fbd1ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 07/35] fix: xonce.Value.Write must report failure, not panic,
 on another type

A second write of a different type, and any write of nil, panicked.
---
 xonce/value.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xonce/value.go b/xonce/value.go
index d7357f1..1398d38 100644
--- a/xonce/value.go
+++ b/xonce/value.go
@@ -25,6 +25,11 @@ type Value struct {
 	v atomic.Value
 }
 
+// box gives all written values, nil included, one concrete type as atomic.Value demands.
+type box struct {
+	v interface{}
+}
+
 // NewValue returns a Value.
 func NewValue() *Value {
 	return &Value{}
@@ -32,10 +37,11 @@ func NewValue() *Value {
 
 // Write writes a v.
 func (val *Value) Write(v interface{}) (success bool) {
-	return val.v.CompareAndSwap(nil, v)
+	return val.v.CompareAndSwap(nil, box{v})
 }
 
 // Value return a v.
 func (val *Value) Value() interface{} {
-	return val.v.Load()
+	b, _ := val.v.Load().(box)
+	return b.v
 }
-- 
2.43.0


From a33942ace1434f89c6754405c79ad9dfe1ba5c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 08/35] fix: xbarrier reads and writes must stop waiting when
 the context ends

---
 xbarrier/readbarrier.go  | 8 +++++++-
 xbarrier/writebarrier.go | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/xbarrier/readbarrier.go b/xbarrier/readbarrier.go
index 3cbaa7c..d221e6b 100644
--- a/xbarrier/readbarrier.go
+++ b/xbarrier/readbarrier.go
@@ -41,6 +41,12 @@ func (r *ReadBarrier) Read() (val interface{}, success bool) {
 	case <-r.ctx.Done():
 		return nil, false
 	default:
-		return <-r.readChannel, true
+	}
+
+	select {
+	case <-r.ctx.Done():
+		return nil, false
+	case val = <-r.readChannel:
+		return val, true
 	}
 }
diff --git a/xbarrier/writebarrier.go b/xbarrier/writebarrier.go
index d5f7d0d..ea34f68 100644
--- a/xbarrier/writebarrier.go
+++ b/xbarrier/writebarrier.go
@@ -46,7 +46,12 @@ func (w *WriteBarrier) Write(v interface{}) (success bool) {
 	case <-w.ctx.Done():
 		return
 	default:
-		w.writeChannel <- v
+	}
+
+	select {
+	case <-w.ctx.Done():
+		return false
+	case w.writeChannel <- v:
 		return true
 	}
 }
-- 
2.43.0


From f6fab4a1182526f9b223eb090e4ea7b3973209df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 09/35] fix: xtask.Do must not hang when the function exits its
 goroutine

A function ending by runtime.Goexit sent neither a result nor a panic. Like a
panic, the exit now happens in the caller.
---
 xtask/do.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xtask/do.go b/xtask/do.go
index 82a0c00..dce75b0 100644
--- a/xtask/do.go
+++ b/xtask/do.go
@@ -19,6 +19,7 @@ package xtask
 import (
 	"context"
 	"fmt"
+	"runtime"
 	"runtime/debug"
 	"strings"
 	"time"
@@ -39,19 +40,30 @@ func Do(ctx context.Context, do func() error, deferFunc func()) (err error) {
 	doneChan := make(chan error, 1)
 	panicChan := make(chan interface{}, 1)
 
+	exitChan := make(chan struct{}, 1)
+
 	go func() {
+		finished := false
 		defer func() {
-			if r := recover(); r != nil {
+			if r := recover(); r == nil {
+				if !finished {
+					exitChan <- struct{}{}
+				}
+			} else {
 				panicChan <- fmt.Sprintf("%+v\n\n%s", r, strings.TrimSpace(string(debug.Stack())))
 			}
 		}()
 
-		doneChan <- do()
+		err := do()
+		finished = true
+		doneChan <- err
 	}()
 
 	select {
 	case p := <-panicChan:
 		panic(p)
+	case <-exitChan:
+		runtime.Goexit()
 	case err = <-doneChan:
 		return
 	case <-ctx.Done():
-- 
2.43.0


From 59870598b8462429ecec046d90fc26f727c54896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:50 +0000
Subject: [PATCH 10/35] fix: xtask.DoWithRetry must run the function even for a
 negative retry count

It reported success without having called the function at all.
---
 xtask/retry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xtask/retry.go b/xtask/retry.go
index c0f9430..1dc88b0 100644
--- a/xtask/retry.go
+++ b/xtask/retry.go
@@ -44,7 +44,7 @@ func DoWithRetry(fn func() error, opts ...RetryOption) error {
 	}
 
 	var batchError xerror.BatchError
-	for i := 0; i <= options.times; i++ {
+	for i := 0; i == 0 || i <= options.times; i++ {
 		if err := fn(); err != nil {
 			batchError.Add(err)
 		} else {
-- 
2.43.0


From d3bd95a5175e4464958e4c0d546969cf626c572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 11/35] fix: cancelling xmapreduce.Map must not crash writers
 nor strand the generator

After a cancellation the output was closed while mappers could still be
writing to it, and a generator with more items to send stayed blocked.
---
 xmapreduce/xmapreduce.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/xmapreduce/xmapreduce.go b/xmapreduce/xmapreduce.go
index 7cf6d5d..d378663 100644
--- a/xmapreduce/xmapreduce.go
+++ b/xmapreduce/xmapreduce.go
@@ -39,6 +39,15 @@ type (
 		workerSize int
 	}
 
+	// collectorWriter refuses writes once the collector is closed: after a
+	// cancellation the mappers may outlive it.
+	collectorWriter struct {
+		barrier   *xbarrier.WriteBarrier
+		collector chan<- interface{}
+		rw        sync.RWMutex
+		closed    bool
+	}
+
 	// Option defines the method to customize the mapreduce.
 	Option func(opts *options)
 )
@@ -76,6 +85,25 @@ func MapStream(ctx context.Context, generateFunc GenerateFunc, mapFunc MapFunc,
 	return xstream.Range(Map(ctx, generateFunc, mapFunc, opts...))
 }
 
+// Write implements xbarrier.Writer.
+func (w *collectorWriter) Write(v interface{}) (success bool) {
+	w.rw.RLock()
+	defer w.rw.RUnlock()
+
+	if w.closed {
+		return false
+	}
+	return w.barrier.Write(v)
+}
+
+func (w *collectorWriter) close() {
+	w.rw.Lock()
+	defer w.rw.Unlock()
+
+	w.closed = true
+	close(w.collector)
+}
+
 func buildSource(generateFunc GenerateFunc) chan interface{} {
 	source := make(chan interface{})
 
@@ -90,12 +118,19 @@ func buildSource(generateFunc GenerateFunc) chan interface{} {
 func doMap(ctx context.Context, mapFunc MapFunc, source <-chan interface{}, collector chan<- interface{}, option *options) {
 	waitGroup := sync.WaitGroup{}
 
+	writer := &collectorWriter{
+		barrier:   xbarrier.NewWriteBarrier(ctx, collector),
+		collector: collector,
+	}
+
 	defer func() {
 		waitGroup.Wait()
-		close(collector)
+		writer.close()
+		// After a cancellation the generator may still have items to send.
+		for range source {
+		}
 	}()
 	worker := xworker.NewWorker(option.workerSize)
-	writer := xbarrier.NewWriteBarrier(ctx, collector)
 
 	for {
 		select {
-- 
2.43.0


From 7950017697c6c8172f5a5731e341cf5455fff7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 12/35] fix: xbinary must accept readers that return fewer
 bytes than asked

A fragmenting reader, or one returning data together with io.EOF, made the
decoding fail, and ReadBool returned a stale byte after an empty read.
---
 xbinary/xbinary.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 4d6b273..d148774 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -28,6 +28,15 @@ var (
 	ErrInvalidLength = errors.New("invalid length error")
 )
 
+// readFull fills data, however the reader fragments its bytes.
+func readFull(r io.Reader, data []byte) error {
+	_, err := io.ReadFull(r, data)
+	if err == io.ErrUnexpectedEOF {
+		return ErrInvalidLength
+	}
+	return err
+}
+
 // WriteUint16 writes unit16.
 func WriteUint16(w io.Writer, i uint16) error {
 	data := xbytes.MallocSize(2)
@@ -45,13 +54,9 @@ func ReadUint16(r io.Reader) (uint16, error) {
 	data := xbytes.MallocSize(2)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	if err := readFull(r, data); err != nil {
 		return 0, err
 	}
-	if n < 2 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint16(data), nil
 }
 
@@ -76,8 +81,7 @@ func ReadBool(r io.Reader) (bool, error) {
 	b := xbytes.MallocSize(1)
 	defer xbytes.Free(b)
 
-	_, err := r.Read(b)
-	if err != nil {
+	if err := readFull(r, b); err != nil {
 		return false, err
 	}
 	return b[0] == 1, nil
@@ -90,13 +94,9 @@ func ReadUint32(r io.Reader) (uint32, error) {
 	data := xbytes.MallocSize(4)
 	defer xbytes.Free(data)
 
-	n, err := r.Read(data)
-	if err != nil {
+	if err := readFull(r, data); err != nil {
 		return 0, err
 	}
-	if n < 4 {
-		return 0, ErrInvalidLength
-	}
 	return binary.BigEndian.Uint32(data), nil
 }
 
-- 
2.43.0


From 29e0facdb16a89e5bbfcc8f2254861e701d426fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 13/35] fix: xbinary.WriteBytes must refuse what its length
 prefix cannot express

The length was truncated to 16 bits, corrupting the stream.
---
 xbinary/xbinary.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index d148774..3a03006 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -21,6 +21,7 @@ import (
 	"errors"
 	"github.com/chenquan/go-pkg/xbytes"
 	"io"
+	"math"
 )
 
 var (
@@ -119,6 +120,9 @@ func WriteUint32(w io.Writer, i uint32) error {
 
 // WriteBytes writes bytes.
 func WriteBytes(w io.Writer, s []byte) (err error) {
+	if len(s) > math.MaxUint16 {
+		return ErrInvalidLength
+	}
 	// length
 	err = WriteUint16(w, uint16(len(s)))
 	if err == nil {
-- 
2.43.0


From 6fa3f166559cff059a669d3cd44640b026e66511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 14/35] fix: xio must return buffers of the requested size that
 nobody else holds

Pooled buffers ignored the requested size, and getting a buffer for a stream
that is itself a bufio.Reader or bufio.Writer returned that very object.
---
 xio/buffer.go | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/xio/buffer.go b/xio/buffer.go
index 13a6b34..84ceaaa 100644
--- a/xio/buffer.go
+++ b/xio/buffer.go
@@ -22,6 +22,9 @@ import (
 	"sync"
 )
 
+// defaultBufSize is the buffer size used when none is given, as in package bufio.
+const defaultBufSize = 4096
+
 var (
 	bufReaderPool = &sync.Pool{}
 	bufWriterPool = &sync.Pool{}
@@ -31,20 +34,21 @@ var (
 func GetBufferReaderSize(r io.Reader, size int) *bufio.Reader {
 	if v := bufReaderPool.Get(); v != nil {
 		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
+		if br.Size() >= size {
+			br.Reset(r)
+			return br
+		}
+		bufReaderPool.Put(br)
 	}
-	return bufio.NewReaderSize(r, size)
+	// Not created from r itself: if r is a bufio.Reader that would return r.
+	br := bufio.NewReaderSize(nil, size)
+	br.Reset(r)
+	return br
 }
 
 // GetBufferReader returns a bufio.Reader.
 func GetBufferReader(r io.Reader) *bufio.Reader {
-	if v := bufReaderPool.Get(); v != nil {
-		br := v.(*bufio.Reader)
-		br.Reset(r)
-		return br
-	}
-	return bufio.NewReader(r)
+	return GetBufferReaderSize(r, defaultBufSize)
 }
 
 // PutBufferReader recycles a bufio.Reader.
@@ -59,20 +63,21 @@ func PutBufferReader(r *bufio.Reader) {
 func GetBufferWriterSize(w io.Writer, size int) *bufio.Writer {
 	if v := bufWriterPool.Get(); v != nil {
 		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
+		if bw.Size() >= size {
+			bw.Reset(w)
+			return bw
+		}
+		bufWriterPool.Put(bw)
 	}
-	return bufio.NewWriterSize(w, size)
+	// Not created from w itself: if w is a bufio.Writer that would return w.
+	bw := bufio.NewWriterSize(nil, size)
+	bw.Reset(w)
+	return bw
 }
 
 // GetBufferWriter returns a bufio.Writer.
 func GetBufferWriter(w io.Writer) *bufio.Writer {
-	if v := bufWriterPool.Get(); v != nil {
-		bw := v.(*bufio.Writer)
-		bw.Reset(w)
-		return bw
-	}
-	return bufio.NewWriter(w)
+	return GetBufferWriterSize(w, defaultBufSize)
 }
 
 // PutBufferWriter recycles a bufio.Writer.
-- 
2.43.0


From 62f9937620bc58dabce3d0e693836deec4e2915c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 15/35] fix: xstring.Joiner must not start with a delimiter
 after Grow or Reset

---
 xstring/stringjoiner.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xstring/stringjoiner.go b/xstring/stringjoiner.go
index 3b8edb0..84a6cdf 100644
--- a/xstring/stringjoiner.go
+++ b/xstring/stringjoiner.go
@@ -24,6 +24,8 @@ type (
 		b    *strings.Builder
 		opts *joinerOptions
 		n    int // n is length of prefix and suffix for
+		// wrote tells whether a piece was written since creation or the last reset.
+		wrote bool
 	}
 	// joinerOptions a option.
 	joinerOptions struct {
@@ -132,9 +134,11 @@ func (j *Joiner) String() string {
 func (j *Joiner) tryWriteStep() {
 	if j.b == nil {
 		j.b = &strings.Builder{}
-	} else {
+	}
+	if j.wrote {
 		j.b.WriteString(j.opts.step)
 	}
+	j.wrote = true
 }
 
 // Grow grows b's capacity, if necessary, to guarantee space for
@@ -164,6 +168,7 @@ func (j *Joiner) Reset() {
 	if j.b != nil {
 		j.b.Reset()
 	}
+	j.wrote = false
 }
 
 // Len returns the len of accumulated string.
-- 
2.43.0


From d67fcedf13da1480a76a778c986584ab272a542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 16/35] fix: xmath integer functions must be exact

Going through float64 changed values beyond 2^53.
---
 xmath/xmath.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xmath/xmath.go b/xmath/xmath.go
index 2174ab1..52b6086 100644
--- a/xmath/xmath.go
+++ b/xmath/xmath.go
@@ -20,22 +20,34 @@ import "math"
 
 // MaxInt returns the maximum value.
 func MaxInt(a, b int) int {
-	return int(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt returns minimum value.
 func MinInt(a, b int) int {
-	return int(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxInt64 returns the maximum value.
 func MaxInt64(a, b int64) int64 {
-	return int64(math.Max(float64(a), float64(b)))
+	if a > b {
+		return a
+	}
+	return b
 }
 
 // MinInt64 returns minimum value.
 func MinInt64(a, b int64) int64 {
-	return int64(math.Min(float64(a), float64(b)))
+	if a < b {
+		return a
+	}
+	return b
 }
 
 // MaxFloat64 returns the maximum value.
-- 
2.43.0


From 1176e7938f3f65072937a9f782aeb1f05f477a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 17/35] fix: xstring.Rotate must count characters, not bytes

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 8ead1e3..bc9faf3 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -177,7 +177,7 @@ func Rotate(s string, shift int) string {
 		return s
 	}
 
-	sLen := len(s)
+	sLen := Len(s)
 	if sLen == 0 {
 		return s
 	}
-- 
2.43.0


From 8577eeed4eb548216c15e5cfccb3100cb1e67cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 18/35] fix: xstring.Reverse must accept a legitimate U+FFFD

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index bc9faf3..8d8630e 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -286,7 +286,7 @@ func Reverse(s string) (string, error) {
 	for srcIndex > 0 {
 		r, n := utf8.DecodeLastRune(src[:srcIndex])
 
-		if r == utf8.RuneError {
+		if r == utf8.RuneError && n <= 1 {
 			return hack.BytesToString(dst), ErrDecodeChar
 		}
 
-- 
2.43.0


From e74f971cab7921fb081d1ae72bb0d27c43e636cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 19/35] fix: xstring.DeleteWhitespace must not compare a byte
 count with a character count

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 8d8630e..c076091 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -691,7 +691,7 @@ func DeleteWhitespace(str string) string {
 		return empty
 	}
 
-	strLen := Len(str)
+	strLen := len(str)
 	builder := strings.Builder{}
 	builder.Grow(strLen)
 
-- 
2.43.0


From 98162938bbd7fd0dfd65c4d7a91f7afb78967df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 20/35] fix: xstring.IsNumerical must accept only a point
 between the digits

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index c076091..cf3de37 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -493,7 +493,7 @@ func Contains(s string, searchChar string) bool {
 
 // IsNumerical returns ture if a numerical.
 func IsNumerical(s string) bool {
-	reg, _ := regexp.Compile(`^\d+.?\d*$`)
+	reg, _ := regexp.Compile(`^\d+\.?\d*$`)
 	return reg.MatchString(s)
 }
 
-- 
2.43.0


From d03d187933c476d31b0f39b70ad881572c56f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 21/35] fix: xstring.EqualsIgnoreCase must not accept a mere
 prefix

---
 xstring/xstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index cf3de37..47e7428 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -759,7 +759,7 @@ func EqualsIgnoreCase(str1, str2 string) bool {
 		return true
 	}
 
-	return RegionMatches(str1, true, 0, str2, 0, Len(str1))
+	return Len(str1) == Len(str2) && RegionMatches(str1, true, 0, str2, 0, Len(str1))
 }
 
 // EqualsAny returns ture if str exists in strings.
-- 
2.43.0


From 9e1a59e25d239e62572c2b82e36adfd840882d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 22/35] fix: xstring.Abbreviate must show the part at the
 offset, within the width

With an offset beyond the beginning it cut the wrong end of the text and could
return more characters than the maximum width.
---
 xstring/xstring.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 47e7428..972b887 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -807,12 +807,12 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 		return empty, fmt.Errorf("minimum abbreviation width with offset is %d", minAbbrevWidthOffset)
 	}
 	if offset+maxWidth-abbrevMarkerLen < strLen {
-		substr, err := Abbreviate(Sub(str, 0, offset), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
+		substr, err := Abbreviate(Right(str, offset), abbrevMarker, 0, maxWidth-abbrevMarkerLen)
 		if err == nil {
 			return abbrevMarker + substr, nil
 		}
 		return empty, err
 	}
 
-	return abbrevMarker + Sub(str, 0, strLen-(maxWidth-abbrevMarkerLen)), nil
+	return abbrevMarker + Right(str, strLen-(maxWidth-abbrevMarkerLen)), nil
 }
-- 
2.43.0


From 92acaef010dddbedff77b41d83622827de4dde41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 23/35] fix: xstream.Peek must end its stream when the callback
 panics

---
 xstream/xstream.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index dbcda1a..73f5493 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -589,11 +589,12 @@ func (s *Stream) FindLast() (result interface{}, err error) {
 func (s *Stream) Peek(f ForEachFunc) *Stream {
 	source := make(chan interface{})
 	startGoroutine(func() {
+		defer close(source)
+
 		for item := range s.source {
 			source <- item
 			f(item)
 		}
-		close(source)
 	})
 
 	return Range(source)
-- 
2.43.0


From 052a337a2ea050bc5002c5dc34307bb876c0c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 24/35] fix: xstring.Abbreviate must show the end when the
 offset asks for it

A text one character longer than the width was always cut at its end, even
when the requested offset was in the part cut away.
---
 xstring/xstring.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 972b887..6bad608 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -797,10 +797,15 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 	if offset > strLen {
 		offset = strLen
 	}
+	wanted := offset
 	if strLen-offset < maxWidth-abbrevMarkerLen {
 		offset = strLen - (maxWidth - abbrevMarkerLen)
 	}
 	if offset <= abbrevMarkerLen+1 {
+		if wanted >= maxWidth-abbrevMarkerLen && offset == strLen-(maxWidth-abbrevMarkerLen) {
+			// the end is wanted, and the beginning would not show it
+			return abbrevMarker + Right(str, offset), nil
+		}
 		return Sub(str, 0, maxWidth-abbrevMarkerLen) + abbrevMarker, nil
 	}
 	if maxWidth < minAbbrevWidthOffset {
-- 
2.43.0


From 2c2e45d52562f1262b410088140416cc60f3fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:24 +0000
Subject: [PATCH 25/35] fix: xbarrier reads from a closed channel must not
 report success

---
 xbarrier/readbarrier.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xbarrier/readbarrier.go b/xbarrier/readbarrier.go
index d221e6b..17d6325 100644
--- a/xbarrier/readbarrier.go
+++ b/xbarrier/readbarrier.go
@@ -46,7 +46,8 @@ func (r *ReadBarrier) Read() (val interface{}, success bool) {
 	select {
 	case <-r.ctx.Done():
 		return nil, false
-	case val = <-r.readChannel:
-		return val, true
+	case val, success = <-r.readChannel:
+		// A closed channel has no value to give.
+		return val, success
 	}
 }
-- 
2.43.0


From 33221934daa60f4b20ff2b31fcc8ba7e2336b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 26/35] fix: ResourceManager held its lock while closing
 resources, so one that used the manager while closing hung

---
 xsync/resourcemanager.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/xsync/resourcemanager.go b/xsync/resourcemanager.go
index a218acc..a913ba1 100644
--- a/xsync/resourcemanager.go
+++ b/xsync/resourcemanager.go
@@ -43,16 +43,17 @@ func NewResourceManager() *ResourceManager {
 // Don't use the ResourceManager after Close() called.
 func (m *ResourceManager) Close() error {
 	m.rw.Lock()
+	resources := m.resources
+	m.resources = nil
+	m.rw.Unlock()
 
+	// Closed without the lock: a resource may use the manager while closing.
 	var be xerror.BatchError
-	for _, resource := range m.resources {
+	for _, resource := range resources {
 		if err := resource.Close(); err != nil {
 			be.Add(err)
 		}
 	}
-	m.resources = nil
-
-	m.rw.Unlock()
 	return be.Err()
 }
 
@@ -93,9 +94,9 @@ func (m *ResourceManager) Get(key string, create func() (io.Closer, error)) (io.
 		closed = m.resources == nil
 		if !closed {
 			m.resources[key] = resource
-			created = true
-			m.singleFlight.Forget(key)
 		}
+		created = true
+		m.singleFlight.Forget(key)
 		m.rw.Unlock()
 
 		if closed {
-- 
2.43.0


From 154115379b3e532c00e401a62275fa42ed61728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 27/35] fix: Stream.Of read its arguments after it returned,
 racing with a caller that reuses its slice

---
 xstream/xstream.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index 73f5493..6a7471c 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -106,13 +106,12 @@ func Of(items ...interface{}) *Stream {
 		return Empty()
 	}
 
+	// There is room for all: the caller may change its slice afterwards.
 	source := make(chan interface{}, n)
-	startGoroutine(func() {
-		for _, item := range items {
-			source <- item
-		}
-		close(source)
-	})
+	for _, item := range items {
+		source <- item
+	}
+	close(source)
 	return Range(source)
 }
 
-- 
2.43.0


From 5e24dbf533aab52496afceefdf075d1b78802be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 28/35] fix: Stream.Concat read its list of streams after it
 returned, racing with a caller that reuses its slice

---
 xstream/xstream.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index 6a7471c..f0b04cc 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -364,6 +364,8 @@ func (s *Stream) ForeachOrdered(f ForEachFunc) {
 func (s *Stream) Concat(others ...*Stream) *Stream {
 	source := make(chan interface{})
 	wg := sync.WaitGroup{}
+	// The caller may change its slice afterwards.
+	others = append([]*Stream(nil), others...)
 	startGoroutine(func() {
 		for _, other := range others {
 			other := other
-- 
2.43.0


From b34f15ef8c8b345bd902e7a4bacb6d7638de0839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 29/35] fix: Stream.Tail lost everything, and SplitSteam hung,
 for counts too large to allocate in advance

---
 xstream/ring.go    | 10 ++++++++--
 xstream/xstream.go | 20 +++++++++-----------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/xstream/ring.go b/xstream/ring.go
index 9359931..a74dbaf 100644
--- a/xstream/ring.go
+++ b/xstream/ring.go
@@ -18,18 +18,24 @@ package xstream
 
 type ring struct {
 	elements []interface{}
+	n        int
 	index    int
 }
 
 // newRing returns a ring object with the given size n.
 func newRing(n uint) *ring {
-	return &ring{elements: make([]interface{}, n)}
+	return &ring{n: int(n)}
 }
 
 // add adds v into r.
 func (r *ring) add(v interface{}) {
 
-	r.elements[r.index%len(r.elements)] = v
+	if len(r.elements) < r.n {
+		// Not allocated in advance: n may be far more than there are items.
+		r.elements = append(r.elements, v)
+	} else {
+		r.elements[r.index%r.n] = v
+	}
 	r.index++
 }
 
diff --git a/xstream/xstream.go b/xstream/xstream.go
index f0b04cc..dae3d14 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -216,20 +216,18 @@ func (s *Stream) SplitSteam(n int) *Stream {
 	}
 	source := make(chan interface{})
 	startGoroutine(func() {
-		var chunkSource = make(chan interface{}, n)
+		// A chunk's channel is made when its size is known: n may be far more
+		// than there are items.
+		var chunk []interface{}
 		for item := range s.source {
-			chunkSource <- item
-			if len(chunkSource) == n {
-
-				source <- Range(chunkSource)
-				close(chunkSource)
-
-				chunkSource = make(chan interface{}, n)
+			chunk = append(chunk, item)
+			if len(chunk) == n {
+				source <- Of(chunk...)
+				chunk = nil
 			}
 		}
-		if len(chunkSource) != 0 {
-			source <- Range(chunkSource)
-			close(chunkSource)
+		if len(chunk) != 0 {
+			source <- Of(chunk...)
 		}
 		close(source)
 	})
-- 
2.43.0


From cb444cd26cae53ffc89e6fa47eb433b3666ed088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 30/35] fix: shard counts beyond 32 bits were refused or made
 an unusable SharedMap

---
 xsync/shared_map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xsync/shared_map.go b/xsync/shared_map.go
index bfdf7a6..19cc797 100644
--- a/xsync/shared_map.go
+++ b/xsync/shared_map.go
@@ -16,6 +16,9 @@
 
 package xsync
 
+// maxShardBlockSize is the largest number of segments of a SharedMap.
+const maxShardBlockSize = 1 << 20
+
 type (
 	// SharedBlockMap is an alias that describes the block map.
 	SharedBlockMap = Map
@@ -40,6 +43,10 @@ func WithShardBlockSize(shardBlockSize int) SharedMapOption {
 			// refused by NewSharedMap, like zero.
 			shardBlockSize = 0
 		}
+		if shardBlockSize > maxShardBlockSize {
+			// more segments are of no use, and may not fit in 32 bits.
+			shardBlockSize = maxShardBlockSize
+		}
 		sharedMapOptions.shardBlockSize = uint32(shardBlockSize)
 	}
 }
-- 
2.43.0


From 2c5bdf6ca9e06a37ebaa33c4aae8c192611423aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 31/35] fix: a parallel mapping with no positive worker size
 hung or panicked

---
 xmapreduce/xmapreduce.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmapreduce/xmapreduce.go b/xmapreduce/xmapreduce.go
index d378663..1003459 100644
--- a/xmapreduce/xmapreduce.go
+++ b/xmapreduce/xmapreduce.go
@@ -65,6 +65,10 @@ func loadOption(opts ...Option) *options {
 	for _, option := range opts {
 		option(opt)
 	}
+	if opt.workerSize < 1 {
+		// without a worker nothing would ever be mapped.
+		opt.workerSize = 1
+	}
 
 	return opt
 }
-- 
2.43.0


From 63ce456e3f33b7feadcc7ab4f5d55d064e2d4bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 32/35] fix: NewWorker accepted size zero, whose Run blocks for
 ever

---
 xworker/xworker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xworker/xworker.go b/xworker/xworker.go
index eefd278..42f997f 100644
--- a/xworker/xworker.go
+++ b/xworker/xworker.go
@@ -29,6 +29,9 @@ type Worker struct {
 
 // NewWorker returns a Worker.
 func NewWorker(size int) *Worker {
+	if size < 1 {
+		panic("size should be greater than 0")
+	}
 	return &Worker{c: make(chan struct{}, size)}
 }
 
-- 
2.43.0


From ce3a90637cb9a930045b691f409635bec81755c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:17 +0000
Subject: [PATCH 33/35] fix: Split and Limit drain the source when they refuse
 their argument, as the other operators do

---
 xstream/xstream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xstream/xstream.go b/xstream/xstream.go
index dae3d14..2d1bd9b 100644
--- a/xstream/xstream.go
+++ b/xstream/xstream.go
@@ -186,6 +186,9 @@ func (s *Stream) Chan() <-chan interface{} {
 // Split Returns a split Stream that contains multiple slices of chunk size n.
 func (s *Stream) Split(n int) *Stream {
 	if n < 1 {
+		startGoroutine(func() {
+			drain(s.source)
+		})
 		panic("n should be greater than 0")
 	}
 	source := make(chan interface{})
@@ -314,6 +317,9 @@ func (s *Stream) Limit(size int) *Stream {
 		return Empty()
 	}
 	if size < 0 {
+		startGoroutine(func() {
+			drain(s.source)
+		})
 		panic("size must be greater than -1")
 	}
 	source := make(chan interface{})
-- 
2.43.0


From 3371ee4bc2b122962265fd1a581e8d963c259285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:45 +0000
Subject: [PATCH 34/35] fix: xbinary reports a reader's own io.ErrUnexpectedEOF
 instead of ErrInvalidLength

---
 xbinary/xbinary.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/xbinary/xbinary.go b/xbinary/xbinary.go
index 3a03006..8f6bec6 100644
--- a/xbinary/xbinary.go
+++ b/xbinary/xbinary.go
@@ -31,11 +31,19 @@ var (
 
 // readFull fills data, however the reader fragments its bytes.
 func readFull(r io.Reader, data []byte) error {
-	_, err := io.ReadFull(r, data)
-	if err == io.ErrUnexpectedEOF {
-		return ErrInvalidLength
+	n := 0
+	for n < len(data) {
+		m, err := r.Read(data[n:])
+		n += m
+		if err != nil && n < len(data) {
+			if err == io.EOF && n > 0 {
+				return ErrInvalidLength
+			}
+			// Not io.ReadFull: the reader's own io.ErrUnexpectedEOF is not ours.
+			return err
+		}
 	}
-	return err
+	return nil
 }
 
 // WriteUint16 writes unit16.
-- 
2.43.0


From c4948f2f5a5c50449a7e21070ebfa7572fe982bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:08 +0000
Subject: [PATCH 35/35] fix: Abbreviate took the smallest negative offsets for
 the end of the text

---
 xstring/xstring.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xstring/xstring.go b/xstring/xstring.go
index 6bad608..c510900 100644
--- a/xstring/xstring.go
+++ b/xstring/xstring.go
@@ -797,6 +797,9 @@ func Abbreviate(str, abbrevMarker string, offset, maxWidth int) (string, error)
 	if offset > strLen {
 		offset = strLen
 	}
+	if offset < 0 {
+		offset = 0
+	}
 	wanted := offset
 	if strLen-offset < maxWidth-abbrevMarkerLen {
 		offset = strLen - (maxWidth - abbrevMarkerLen)
-- 
2.43.0


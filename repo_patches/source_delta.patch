From c4920a4990359a72a9a449e7c7a14f47a6afe6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 01/62] fix: make the zero value of list.List usable, as
 documented

---
 common/container/list/list.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index ca335fe..d6371bb 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -61,6 +61,13 @@ func (l *List[T]) Clear() *List[T] {
 // New returns an initialized list.
 func New[T any]() *List[T] { return new(List[T]).Clear() }
 
+// lazyInit lazily initializes a zero List value.
+func (l *List[T]) lazyInit() {
+	if l.root.next == nil {
+		l.Clear()
+	}
+}
+
 // Len returns the number of elements of list l.
 // The complexity is O(1).
 func (l *List[T]) Len() int { return l.len }
@@ -145,11 +152,13 @@ func (l *List[T]) RemoveBack() T {
 
 // PushFront inserts a new element e with value v at the front of list l and returns e.
 func (l *List[T]) PushFront(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, &l.root)
 }
 
 // PushBack inserts a new element e with value v at the back of list l and returns e.
 func (l *List[T]) PushBack(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, l.root.prev)
 }
 
@@ -220,6 +229,7 @@ func (l *List[T]) MoveAfter(e, mark *Element[T]) {
 // PushBackList inserts a copy of another list at the back of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {
 		l.insertValue(e.Value, l.root.prev)
 	}
@@ -228,6 +238,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // PushFrontList inserts a copy of another list at the front of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Back(); i > 0; i, e = i-1, e.Prev() {
 		l.insertValue(e.Value, &l.root)
 	}
-- 
2.43.0


From 57d13e477765b99d7a2210bcedf272eb533b0c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:13 +0000
Subject: [PATCH 02/62] fix: HeapN.down compares all n children, not four

---
 common/container/heap/heapn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/heap/heapn.go b/common/container/heap/heapn.go
index 33c7c6b..dd93c44 100644
--- a/common/container/heap/heapn.go
+++ b/common/container/heap/heapn.go
@@ -88,7 +88,7 @@ func (h *HeapN[T]) down(i0, n int) bool {
 			break
 		}
 		j := k // first child
-		for j1 := k + 1; j1 < k+4 && j1 < n; j1++ {
+		for j1 := k + 1; j1 < k+h.n && j1 < n; j1++ {
 			if h.less(j1, j) {
 				j = j1
 			}
-- 
2.43.0


From 2e0c8dddda4733b364b0cbf5dc98cdc771991481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 03/62] fix: round.New refuses sizes that overflow when rounded
 up

---
 common/container/ringbuffer/round/roud.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index 9512d70..ca30c23 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -19,10 +19,10 @@ func New[T any](size uint64) *Ring[T] {
 	if size == 0 {
 		panic("size must be greater than 0")
 	}
-	size = math.RoundUpPowOf2(size)
 	if size > MaxSize {
 		panic("size is too large")
 	}
+	size = math.RoundUpPowOf2(size)
 
 	return &Ring[T]{
 		size: size,
-- 
2.43.0


From 32e9dab99b83191a23cd111e7c483fb779a610cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 04/62] fix: MPopCopy on an unbounded ring without capacity
 does not divide by zero

---
 common/container/ringbuffer/unbounded/unbounded.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/container/ringbuffer/unbounded/unbounded.go b/common/container/ringbuffer/unbounded/unbounded.go
index 1a892c0..06f8592 100644
--- a/common/container/ringbuffer/unbounded/unbounded.go
+++ b/common/container/ringbuffer/unbounded/unbounded.go
@@ -90,6 +90,9 @@ func (r *Ring[T]) MPop(size uint64) []T {
 
 // 从队头读取，填充到dst里
 func (r *Ring[T]) MPopCopy(dst []T) {
+	if r.Empty() {
+		return
+	}
 	out := r.out % r.size
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
-- 
2.43.0


From f68b9699b2527622d8a7977359e1c752d1df5dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 05/62] fix: fixed-size rings publish their indexes after the
 data, atomically (SPSC use)

---
 common/container/ringbuffer/fix/fix.go    | 50 ++++++++++++---------
 common/container/ringbuffer/round/roud.go | 55 +++++++++++++----------
 2 files changed, 60 insertions(+), 45 deletions(-)

diff --git a/common/container/ringbuffer/fix/fix.go b/common/container/ringbuffer/fix/fix.go
index 16cd812..ad6f293 100644
--- a/common/container/ringbuffer/fix/fix.go
+++ b/common/container/ringbuffer/fix/fix.go
@@ -2,6 +2,7 @@ package fix
 
 import (
 	"math"
+	"sync/atomic"
 
 	mmath "github.com/ahKevinXy/go-web-tools/common/math"
 )
@@ -42,9 +43,11 @@ func (r *Ring[T]) Pop() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	out := r.out % r.size
-	r.out++
-	return r.data[out]
+	out := atomic.LoadUint64(&r.out)
+	e := r.data[out%r.size]
+	// 读完数据再移动读索引，否则生产者可能覆盖还没读的数据
+	atomic.StoreUint64(&r.out, out+1)
+	return e
 }
 
 // 队头元素
@@ -52,7 +55,7 @@ func (r *Ring[T]) Peek() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	return r.data[r.out%r.size]
+	return r.data[atomic.LoadUint64(&r.out)%r.size]
 }
 
 // 插入元素到队尾
@@ -60,51 +63,52 @@ func (r *Ring[T]) Push(e T) {
 	if r.Full() {
 		panic("ring full")
 	}
-	in := r.in % r.size
-	r.in++
-	r.data[in] = e
+	in := atomic.LoadUint64(&r.in)
+	r.data[in%r.size] = e
+	// 写完数据再移动写索引，否则消费者可能读到还没写的数据
+	atomic.StoreUint64(&r.in, in+1)
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
 	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
 		return
 	}
-	in := r.in % r.size
-	copied := copy(r.data[in:], elems)
+	in := atomic.LoadUint64(&r.in)
+	copied := copy(r.data[in%r.size:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.StoreUint64(&r.in, in+size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	if l := r.Len(); size > l {
+		size = l
 	}
 	if size == 0 {
 		return nil
 	}
-	out := r.out % r.size
+	out := atomic.LoadUint64(&r.out)
 	elems := make([]T, size)
-	copied := copy(elems, r.data[out:])
+	copied := copy(elems, r.data[out%r.size:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.StoreUint64(&r.out, out+size)
 	return elems
 }
 
 // 从队头读取，填充到dst里
 func (r *Ring[T]) MPopCopy(dst []T) {
-	out := r.out % r.size
+	out := atomic.LoadUint64(&r.out)
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
-	copied := copy(dst, r.data[out:])
+	copied := copy(dst, r.data[out%r.size:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.StoreUint64(&r.out, out+uint64(copied))
 }
 
 // 重置读写指针
@@ -121,7 +125,9 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	// 先读读索引，保证不会大于写索引
+	out := atomic.LoadUint64(&r.out)
+	return atomic.LoadUint64(&r.in) - out
 }
 
 // 可用长度
@@ -131,7 +137,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return r.Len() == 0
 }
 
 // 是否满了
diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index ca30c23..070b7f6 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -1,6 +1,10 @@
 package round
 
-import "github.com/ahKevinXy/go-web-tools/common/math"
+import (
+	"sync/atomic"
+
+	"github.com/ahKevinXy/go-web-tools/common/math"
+)
 
 // 最大长度
 const MaxSize = 1 << 62
@@ -36,9 +40,11 @@ func (r *Ring[T]) Pop() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	out := r.out & r.mask
-	r.out++
-	return r.data[out]
+	out := atomic.LoadUint64(&r.out)
+	e := r.data[out&r.mask]
+	// 读完数据再移动读索引，否则生产者可能覆盖还没读的数据
+	atomic.StoreUint64(&r.out, out+1)
+	return e
 }
 
 // 队头元素
@@ -46,7 +52,7 @@ func (r *Ring[T]) Peek() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	return r.data[r.out%r.size]
+	return r.data[atomic.LoadUint64(&r.out)&r.mask]
 }
 
 // 插入元素到队尾
@@ -54,51 +60,52 @@ func (r *Ring[T]) Push(e T) {
 	if r.Full() {
 		panic("ring full")
 	}
-	in := r.in & r.mask
-	r.in++
-	r.data[in] = e
+	in := atomic.LoadUint64(&r.in)
+	r.data[in&r.mask] = e
+	// 写完数据再移动写索引，否则消费者可能读到还没写的数据
+	atomic.StoreUint64(&r.in, in+1)
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
 	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
 		return
 	}
-	in := r.in & r.mask
-	copied := copy(r.data[in:], elems)
+	in := atomic.LoadUint64(&r.in)
+	copied := copy(r.data[in&r.mask:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.StoreUint64(&r.in, in+size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	if l := r.Len(); size > l {
+		size = l
 	}
 	if size == 0 {
 		return nil
 	}
-	out := r.out & r.mask
+	out := atomic.LoadUint64(&r.out)
 	elems := make([]T, size)
-	copied := copy(elems, r.data[out:])
+	copied := copy(elems, r.data[out&r.mask:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.StoreUint64(&r.out, out+size)
 	return elems
 }
 
 // 从队头读取，填充到dst里
 func (r *Ring[T]) MPopCopy(dst []T) {
-	out := r.out & r.mask
+	out := atomic.LoadUint64(&r.out)
 	dst = dst[:math.Min(uint64(len(dst)), r.Len())]
-	copied := copy(dst, r.data[out:])
+	copied := copy(dst, r.data[out&r.mask:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.StoreUint64(&r.out, out+uint64(copied))
 }
 
 // 重置读写指针
@@ -115,7 +122,9 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	// 先读读索引，保证不会大于写索引
+	out := atomic.LoadUint64(&r.out)
+	return atomic.LoadUint64(&r.in) - out
 }
 
 // 可用长度
@@ -125,7 +134,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return r.Len() == 0
 }
 
 // 是否满了
-- 
2.43.0


From 55a0f29e688df9c1d0c561dae24e8e927b2e2be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 06/62] fix: Split accepts 0 and does not overflow

---
 common/math/math.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/math/math.go b/common/math/math.go
index c7096b8..0880b1f 100644
--- a/common/math/math.go
+++ b/common/math/math.go
@@ -10,7 +10,13 @@ import (
 // Split 把数n分成m份
 // 返回每一份大小和最后一份的大小
 func Split(n, m uint) (uint, uint) {
-	per := (n + m - 1) / m
+	if n == 0 {
+		return 0, 0
+	}
+	per := n / m
+	if n%m != 0 {
+		per++
+	}
 	last := n % per
 	if last == 0 {
 		last = per
-- 
2.43.0


From 7a421f11251c7c01c53d477633e3a98d24c71ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 07/62] fix: bloom filter mixes hash and seed, so that
 power-of-two sizes keep the configured rate

---
 common/filter/bloom/bloom.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/filter/bloom/bloom.go b/common/filter/bloom/bloom.go
index 6f4207d..bfc75dc 100644
--- a/common/filter/bloom/bloom.go
+++ b/common/filter/bloom/bloom.go
@@ -99,7 +99,7 @@ func (f *Filter) Len() uint64 {
 // 获取对应元素下标和偏移
 func (f *Filter) pos(h, seed uint64) (uint64, uint64) {
 	// 按照位计算的偏移
-	bitsIndex := (h ^ seed) % f.bitCnt
+	bitsIndex := mix(h^seed) % f.bitCnt
 	// 因为一个元素64位，因此需要转换
 	index := bitsIndex / uint64Bits
 	// 在一个元素里面的偏移
@@ -107,6 +107,16 @@ func (f *Filter) pos(h, seed uint64) (uint64, uint64) {
 	return index, offset
 }
 
+// 打散所有位，否则bit位数是2的幂时，每个种子只会重复同样的碰撞
+func mix(x uint64) uint64 {
+	x ^= x >> 33
+	x *= 0xff51afd7ed558ccd
+	x ^= x >> 33
+	x *= 0xc4ceb9fe1a85ec53
+	x ^= x >> 33
+	return x
+}
+
 // 计算哈希值
 func (f *Filter) hash(b []byte) uint64 {
 	fnvHash := fnv.New64()
-- 
2.43.0


From 81dcda85abc38015437ea5b3c026a440d49469ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 08/62] fix: sliding log copies its strategies, so that
 limiters sharing them stay independent

---
 common/limiter/sliding_log/sliding_log.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index 671b10b..fe6705a 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -42,7 +42,12 @@ type SlidingLogLimiter struct {
 
 func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLimiterStrategy) (*SlidingLogLimiter, error) {
 	// 复制策略避免被修改
-	strategies = append(make([]*SlidingLogLimiterStrategy, 0, len(strategies)), strategies...)
+	copied := make([]*SlidingLogLimiterStrategy, len(strategies))
+	for i, strategy := range strategies {
+		c := *strategy
+		copied[i] = &c
+	}
+	strategies = copied
 
 	// 不能不设置策略
 	if len(strategies) == 0 {
-- 
2.43.0


From c316dec3b509612ce54d8ea115889fb5583dfe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 09/62] fix: a cancelled DelayQueue.Take takes back its wake-up
 request, so that a later Push does not block for ever

---
 common/timer/delayqueue/delayqueue.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index 5eae6c4..319161e 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -105,6 +105,9 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 				}
 			case <-ctx.Done():
 				timer.Stop()
+				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
+					<-q.wakeup
+				}
 				var t T
 				return t, false
 
@@ -113,6 +116,9 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			select {
 			case <-q.wakeup: //
 			case <-ctx.Done(): // 被关闭
+				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
+					<-q.wakeup
+				}
 				var t T
 				return t, false
 			}
-- 
2.43.0


From c64787398f57e88849d4bd4a7f2fe9ffa4954344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:42 +0000
Subject: [PATCH 10/62] fix: concurrent DelayQueue.Take calls wait one after
 another, so that no wake-up is lost

---
 common/timer/delayqueue/delayqueue.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index 319161e..a86d31c 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -22,6 +22,8 @@ type DelayQueue[T any] struct {
 	sleeping int32
 	// 唤醒通道
 	wakeup chan struct{}
+	// 同一时刻只有一个take 在等待，避免多个take 时丢失唤醒
+	taking chan struct{}
 }
 
 // New [T any]
@@ -33,6 +35,7 @@ func New[T any]() *DelayQueue[T] {
 			return e1.expiration.Before(e2.expiration)
 		}),
 		wakeup: make(chan struct{}),
+		taking: make(chan struct{}, 1),
 	}
 }
 
@@ -75,6 +78,13 @@ func (q *DelayQueue[T]) Push(value T, delay time.Duration) {
 //  @Author  ahKevinXy
 //  @Date2023-03-29 17:53:38
 func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
+	select {
+	case q.taking <- struct{}{}:
+		defer func() { <-q.taking }()
+	case <-ctx.Done():
+		var t T
+		return t, false
+	}
 	for {
 		var timer *time.Timer
 		q.mutex.Lock()
-- 
2.43.0


From 38e2a4d918ba4d4db9ba0d76fb4044a1af3a0b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 11/62] fix: AfterFunc runs a task that is due at once instead
 of dropping it

---
 common/timer/timingwheel/timing_wheel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 59ca0ca..73507a5 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -78,7 +78,7 @@ func (tw *TimingWheel) AfterFunc(delay time.Duration, f func()) *Timer {
 		expiration: time.Now().Add(delay).UnixMilli(),
 		task:       f,
 	}
-	tw.add(t)
+	tw.addOrRun(t)
 	return t
 }
 
-- 
2.43.0


From 10a0c0d96df6e003e3bb6658d635559ae3581593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 12/62] fix: the wheel's delay queue sleeps until the
 expiration instead of polling

---
 common/timer/timingwheel/delayqueue.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 7f72023..83a33f0 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -67,13 +67,13 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 			entry := q.h.Peek()
 			expiration := entry.getExpiration()
 			now := nowF()
-			if now > expiration {
+			if now >= expiration {
 				q.h.Pop()
 				q.mutex.Unlock()
 				return entry
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
-			t = time.NewTimer(time.Duration(now-expiration) * time.Millisecond)
+			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
 		}
 		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
 		atomic.StoreInt32(&q.sleeping, 1)
-- 
2.43.0


From 3958dee4c47ebba0f167a6d8931df853410cbfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 13/62] fix: the wheel reads a bucket's expiration atomically

---
 common/timer/timingwheel/timing_wheel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 73507a5..9c4fbb8 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -56,7 +56,7 @@ func (tw *TimingWheel) Run(ctx context.Context) {
 		select {
 		case b := <-bucketChan: // 桶到期
 			// 前进当前时间
-			tw.advance(b.expiration)
+			tw.advance(b.getExpiration())
 			// 处理桶
 			b.flush(tw.addOrRun)
 		case <-ctx.Done(): // 被关闭
-- 
2.43.0


From 1cc53a3e2a4855421894132474ed6ca2a82d0c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:08 +0000
Subject: [PATCH 14/62] fix: the wheel adds timers and handles expired buckets
 under one lock, so that a delayed caller cannot deadlock it

---
 common/timer/timingwheel/timing_wheel.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 9c4fbb8..86622d6 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -2,6 +2,7 @@ package timingwheel
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 	"time"
 	"unsafe"
@@ -21,6 +22,7 @@ type TimingWheel struct {
 	buckets       []*bucket      // 时间轮的每个桶
 	queue         *delayQueue    //桶延迟队列
 	overflowWheel unsafe.Pointer // 下一个时间轮
+	mutex         sync.Mutex     // 添加定时器和处理到期的桶互斥，只用最底层时间轮的
 }
 
 func newTimingWheel(tick, wheelSize, currentTime int64, queue *delayQueue) *TimingWheel {
@@ -56,9 +58,11 @@ func (tw *TimingWheel) Run(ctx context.Context) {
 		select {
 		case b := <-bucketChan: // 桶到期
 			// 前进当前时间
+			tw.mutex.Lock()
 			tw.advance(b.getExpiration())
 			// 处理桶
-			b.flush(tw.addOrRun)
+			b.flush(tw.addOrRunLocked)
+			tw.mutex.Unlock()
 		case <-ctx.Done(): // 被关闭
 			return
 		}
@@ -120,7 +124,8 @@ func (tw *TimingWheel) ScheduleFunc(s Scheduler, f func()) (t *Timer) {
 //  @Date2023-03-29 18:28:05
 func (tw *TimingWheel) add(t *Timer) bool {
 	currentTime := atomic.LoadInt64(&tw.currentTime)
-	if t.expiration < currentTime+tw.tick { // 已经过期了
+	// 实际时间可能已经超过时间轮的当前时间，到期的定时器不能再放到桶里
+	if t.expiration < currentTime+tw.tick || t.expiration <= time.Now().UnixMilli() { // 已经过期了
 		return false
 	} else if t.expiration < currentTime+tw.interval { // 在当前时间轮里
 		// 多少跳了
@@ -152,6 +157,13 @@ func (tw *TimingWheel) add(t *Timer) bool {
 //  @Author  ahKevinXy
 //  @Date2023-03-29 18:28:25
 func (tw *TimingWheel) addOrRun(t *Timer) {
+	tw.mutex.Lock()
+	defer tw.mutex.Unlock()
+	tw.addOrRunLocked(t)
+}
+
+// addOrRunLocked 同addOrRun，调用者持有tw.mutex
+func (tw *TimingWheel) addOrRunLocked(t *Timer) {
 	if !tw.add(t) {
 		go t.task()
 	}
-- 
2.43.0


From 0f8edf9d5cf48f6543c7d117e287cf1ae482769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:26 +0000
Subject: [PATCH 15/62] fix: Stop of a timer that is moving to a finer wheel
 waits instead of giving up

---
 common/timer/timingwheel/bucket.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/common/timer/timingwheel/bucket.go b/common/timer/timingwheel/bucket.go
index 0ef049b..87f2082 100644
--- a/common/timer/timingwheel/bucket.go
+++ b/common/timer/timingwheel/bucket.go
@@ -75,11 +75,9 @@ func (b *bucket) flush(addOrRun func(t *Timer)) {
 	for elem := b.timers.Front(); elem != nil; {
 		next := elem.Next()
 		t := elem.Value
-		if t.getBucket() == b {
-			t.setBucket(nil)
-			t.elem = nil
-		}
+		// 先重新添加再离开这个桶，这样同时进行的Stop()会等待，而不会误以为定时器已经到期
 		addOrRun(t)
+		atomic.CompareAndSwapPointer(&t.b, unsafe.Pointer(b), nil)
 		elem = next
 	}
 
-- 
2.43.0


From a95bb5539917a22b6e27bc695eb575d5d0c623cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 16/62] fix: a cancelled wheel takes back its wake-up request,
 so that AfterFunc does not block after the shutdown

---
 common/timer/timingwheel/delayqueue.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 83a33f0..9f0b9bc 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -91,12 +91,20 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 				}
 			case <-ctx.Done(): // 被关闭
 				t.Stop()
+				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
+					// 避免push()的协程被阻塞
+					<-q.wakeup
+				}
 				return nil
 			}
 		} else {
 			select {
 			case <-q.wakeup: // 新的更快到期元素
 			case <-ctx.Done(): // 被关闭
+				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
+					// 避免push()的协程被阻塞
+					<-q.wakeup
+				}
 				return nil
 			}
 		}
-- 
2.43.0


From 0785743c926ad8b3203a6fafbb2c6cf272e0123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 17/62] fix: Run returns when its bucket channel is closed
 instead of using a nil bucket

---
 common/timer/timingwheel/timing_wheel.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 86622d6..015db43 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -56,7 +56,10 @@ func (tw *TimingWheel) Run(ctx context.Context) {
 	})
 	for {
 		select {
-		case b := <-bucketChan: // 桶到期
+		case b, ok := <-bucketChan: // 桶到期
+			if !ok { // 被关闭
+				return
+			}
 			// 前进当前时间
 			tw.mutex.Lock()
 			tw.advance(b.getExpiration())
-- 
2.43.0


From d2e100ceaa63fe6141f3aa8ff543cbb8b12601eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 18/62] fix: the wheel's queue goroutine ends on shutdown even
 when more buckets expired than the channel holds

---
 common/timer/timingwheel/delayqueue.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 9f0b9bc..4d6ae90 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -129,7 +129,12 @@ func (q *delayQueue) channel(ctx context.Context, size int, nowF func() int64) <
 				close(out)
 				return
 			}
-			out <- entry
+			select {
+			case out <- entry:
+			case <-ctx.Done(): // 被关闭后不再有人接收
+				close(out)
+				return
+			}
 		}
 	}()
 	return out
-- 
2.43.0


From d744bf815b841ebc8e4dd8926b1115f7103e6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 19/62] fix: a failed chunk write closes its file

---
 help/utils/breakpoint_continue.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 816de58..2c14053 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -48,13 +48,12 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 	f, err := os.Create(path)
 	if err != nil {
 		return path, err
-	} else {
-		_, err = f.Write(content)
-		if err != nil {
-			return path, err
-		}
 	}
 	defer f.Close()
+	_, err = f.Write(content)
+	if err != nil {
+		return path, err
+	}
 	return path, nil
 }
 
-- 
2.43.0


From 092ca6467089f2c9968e0a3f250858bc74ad48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 20/62] fix: MakeFile fails when a chunk is missing or
 unreadable instead of assembling a truncated file

---
 help/utils/breakpoint_continue.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 2c14053..8b44ef5 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -6,6 +6,7 @@ import (
 	"io/ioutil"
 	"os"
 	"strconv"
+	"strings"
 )
 
 const (
@@ -68,9 +69,21 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 		return finishDir + fileName, err
 	}
 	defer fd.Close()
-	for k := range rd {
-		content, _ := ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
-		_, err = fd.Write(content)
+	// 同一个目录下可能有其他文件名的切片，只统计该文件的
+	total := 0
+	for _, entry := range rd {
+		if !strings.HasPrefix(entry.Name(), fileName+"_") {
+			continue
+		}
+		if _, err := strconv.Atoi(entry.Name()[len(fileName)+1:]); err == nil {
+			total++
+		}
+	}
+	for k := 0; k < total; k++ {
+		content, err := ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
+		if err == nil {
+			_, err = fd.Write(content)
+		}
 		if err != nil {
 			_ = os.Remove(finishDir + fileName)
 			return finishDir + fileName, err
-- 
2.43.0


From c142e3388dc1d09c9ccf57f97b7fc331d761a46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 21/62] fix: a repeated MakeFile rebuilds the file instead of
 appending to it

---
 help/utils/breakpoint_continue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 8b44ef5..5390cf1 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -64,7 +64,7 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 		return finishDir + fileName, err
 	}
 	_ = os.MkdirAll(finishDir, os.ModePerm)
-	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
+	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
 	if err != nil {
 		return finishDir + fileName, err
 	}
-- 
2.43.0


From 12e428b2bca8d7966b0bbdaa2eb396ccc3d15ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:53 +0000
Subject: [PATCH 22/62] fix: Unzip refuses entries that would be written
 outside the destination

---
 help/utils/zip.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 6ca6f48..6bf0282 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"archive/zip"
+	"fmt"
 	"io"
 	"os"
 	"path/filepath"
@@ -26,6 +27,11 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 
 	for _, f := range zipReader.File {
 		fpath := filepath.Join(destDir, f.Name)
+		// 不允许解压到目标目录之外
+		rel, err := filepath.Rel(destDir, fpath)
+		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return []string{}, fmt.Errorf("illegal file path in zip: %s", f.Name)
+		}
 		paths = append(paths, fpath)
 		if f.FileInfo().IsDir() {
 			os.MkdirAll(fpath, os.ModePerm)
-- 
2.43.0


From 0529ad155497ee0803df808b5492ef8b2a19e379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 23/62] fix: Unzip reports a directory it cannot create

---
 help/utils/zip.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 6bf0282..4cc550a 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -34,7 +34,9 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 		}
 		paths = append(paths, fpath)
 		if f.FileInfo().IsDir() {
-			os.MkdirAll(fpath, os.ModePerm)
+			if err = os.MkdirAll(fpath, os.ModePerm); err != nil {
+				return []string{}, err
+			}
 		} else {
 			if err = os.MkdirAll(filepath.Dir(fpath), os.ModePerm); err != nil {
 				return []string{}, err
-- 
2.43.0


From a6b8f7fbb6b493d40aa0cd3336efdd8bfa906130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 24/62] fix: Unzip closes each file as it goes, so that large
 archives do not run out of descriptors

---
 help/utils/zip.go | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 4cc550a..7a97aa0 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -42,20 +42,7 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 				return []string{}, err
 			}
 
-			inFile, err := f.Open()
-			if err != nil {
-				return []string{}, err
-			}
-			defer inFile.Close()
-
-			outFile, err := os.OpenFile(fpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, f.Mode())
-			if err != nil {
-				return []string{}, err
-			}
-			defer outFile.Close()
-
-			_, err = io.Copy(outFile, inFile)
-			if err != nil {
+			if err = unzipFile(f, fpath); err != nil {
 				return []string{}, err
 			}
 		}
@@ -63,6 +50,24 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 	return paths, nil
 }
 
+// unzipFile 解压单个文件，每个文件处理完立即关闭
+func unzipFile(f *zip.File, fpath string) error {
+	inFile, err := f.Open()
+	if err != nil {
+		return err
+	}
+	defer inFile.Close()
+
+	outFile, err := os.OpenFile(fpath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, f.Mode())
+	if err != nil {
+		return err
+	}
+	defer outFile.Close()
+
+	_, err = io.Copy(outFile, inFile)
+	return err
+}
+
 // ZipFiles
 //  @Description:  压缩文件
 //  @param filename
-- 
2.43.0


From 6bf4f02742e304a006b869ebca3d6a9f2ab95da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 25/62] fix: ZipFiles reports a failure to write the end of the
 archive

---
 help/utils/zip.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 7a97aa0..4e0fb9e 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -77,7 +77,7 @@ func unzipFile(f *zip.File, fpath string) error {
 //  @return error
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:46:02
-func ZipFiles(filename string, files []string, oldForm, newForm string) error {
+func ZipFiles(filename string, files []string, oldForm, newForm string) (err error) {
 	newZipFile, err := os.Create(filename)
 	if err != nil {
 		return err
@@ -88,7 +88,10 @@ func ZipFiles(filename string, files []string, oldForm, newForm string) error {
 
 	zipWriter := zip.NewWriter(newZipFile)
 	defer func() {
-		_ = zipWriter.Close()
+		// 关闭时才写入剩余数据和目录，失败则压缩包不完整
+		if closeErr := zipWriter.Close(); err == nil {
+			err = closeErr
+		}
 	}()
 
 	// 把files添加到zip中
-- 
2.43.0


From 3e285085eb6535c6da3374d5378002e4d76495e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 26/62] fix: CopyFile over a longer file does not leave its
 tail

---
 help/utils/files.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 9c0d393..edfd66e 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -208,7 +208,16 @@ func CopyFile(dstName, srcName string) (written int64, err error) {
 	}
 
 	defer dst.Close()
-	return io.Copy(dst, src)
+	written, err = io.Copy(dst, src)
+	if err != nil {
+		return
+	}
+	// 目标文件原来可能更长，去掉多余的内容
+	info, err := dst.Stat()
+	if err == nil && info.Size() > written {
+		err = dst.Truncate(written)
+	}
+	return written, err
 }
 
 // ImageFileToBase64  图片文件转 base64
-- 
2.43.0


From b0d816c38b7fb8966db742114a1687008f2e6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 27/62] fix: IsFile is false for a path that does not exist

---
 help/utils/files.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index edfd66e..935b35b 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -248,7 +248,11 @@ func IsDir(path string) bool {
 // @Author ahKevinXy
 // @Date 2022-12-01 11:47:47
 func IsFile(path string) bool {
-	return !IsDir(path)
+	s, err := os.Stat(path)
+	if err != nil {
+		return false
+	}
+	return !s.IsDir()
 }
 
 // MkDir
-- 
2.43.0


From adc5829d828c493a4e476bb913c9f2a886658d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 28/62] fix: a path below a regular file does not exist

---
 help/utils/files.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 935b35b..7051567 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -12,6 +12,7 @@ import (
 	"os"
 	"path/filepath"
 	"strings"
+	"syscall"
 )
 
 // PathExists
@@ -105,7 +106,8 @@ func FileExist(path string) bool {
 	if err == nil {
 		return !fi.IsDir()
 	}
-	return !os.IsNotExist(err)
+	// 上级路径是文件时同样不存在
+	return !os.IsNotExist(err) && !errors.Is(err, syscall.ENOTDIR)
 }
 
 // FileMd5
@@ -337,7 +339,7 @@ func IsMaliciousPath(path string) bool {
 // @Date 2023-01-11 11:46:41
 func FileIsExisted(filename string) bool {
 	existed := true
-	if _, err := os.Stat(filename); err != nil && os.IsNotExist(err) {
+	if _, err := os.Stat(filename); err != nil && (os.IsNotExist(err) || errors.Is(err, syscall.ENOTDIR)) {
 		existed = false
 	}
 	return existed
-- 
2.43.0


From 024d5cf9431537d8abeb4db7f3afbe4c05779dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 29/62] fix: AesEncrypt does not write into the caller's spare
 capacity

---
 help/utils/md5.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index dad633a..585a2a3 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -75,7 +75,10 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 func pkcs7Padding(data []byte, blockSize int) []byte {
 	padding := blockSize - len(data)%blockSize
 	padText := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(data, padText...)
+	// 不能直接append到data，否则可能改写调用者的底层数组
+	padded := make([]byte, 0, len(data)+padding)
+	padded = append(padded, data...)
+	return append(padded, padText...)
 }
 
 func pkcs7UnPadding(data []byte) ([]byte, error) {
-- 
2.43.0


From ca8b555528da37a5ddd5e99d509fc3a419261dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 30/62] fix: AesDecrypt returns an error for malformed input
 instead of panicking

---
 help/utils/md5.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index 585a2a3..b3ed64b 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -62,10 +62,13 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	if len(data)%blockSize != 0 {
+		return nil, errors.New("decrypt error: input is not full blocks")
+	}
 	blockMode := cipher.NewCBCDecrypter(block, key[:blockSize])
 	crypted := make([]byte, len(data))
 	blockMode.CryptBlocks(crypted, data)
-	crypted, err = pkcs7UnPadding(crypted)
+	crypted, err = pkcs7UnPadding(crypted, blockSize)
 	if err != nil {
 		return nil, err
 	}
@@ -81,11 +84,19 @@ func pkcs7Padding(data []byte, blockSize int) []byte {
 	return append(padded, padText...)
 }
 
-func pkcs7UnPadding(data []byte) ([]byte, error) {
+func pkcs7UnPadding(data []byte, blockSize int) ([]byte, error) {
 	length := len(data)
 	if length == 0 {
 		return nil, errors.New("encrypt error")
 	}
 	unPadding := int(data[length-1])
+	if unPadding < 1 || unPadding > blockSize || unPadding > length {
+		return nil, errors.New("decrypt error: invalid padding")
+	}
+	for _, b := range data[length-unPadding:] {
+		if int(b) != unPadding {
+			return nil, errors.New("decrypt error: invalid padding")
+		}
+	}
 	return data[:(length - unPadding)], nil
 }
-- 
2.43.0


From 3cec379c9fc6fdd828a8a095a75226132328cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 31/62] fix: WriteCsv writes the given record instead of a
 fixed one

---
 help/utils/csv.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index b46d7bf..d893ba9 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -50,8 +50,7 @@ func WriteCsv(path string, content []string) error {
 	w := csv.NewWriter(nfs)
 	w.Comma = ','
 	w.UseCRLF = true
-	row := []string{"1", "2", "3", "4", "5,6"}
-	err = w.Write(row)
+	err = w.Write(content)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 1760f9a7b87a449f70d2c3b5a42682a7f2d346fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 32/62] fix: WriteCsv reports a failed write

---
 help/utils/csv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index d893ba9..aaf0252 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -57,5 +57,5 @@ func WriteCsv(path string, content []string) error {
 	//这里必须刷新，才能将数据写入文件。
 	w.Flush()
 
-	return nil
+	return w.Error()
 }
-- 
2.43.0


From c10d7c300e7aa686caacabbc8b24df209640c890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 33/62] fix: MaskCustomerName counts characters, so that short
 multi-byte names are not shown in full

---
 help/utils/strings.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 811ef33..8e25262 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -136,11 +136,11 @@ func MaskMobile(mobile string, maskNumber int) string {
 func MaskCustomerName(name string) string {
 
 	_name := []rune(name)
-	if len(name) > 4 {
+	if len(_name) > 4 {
 		name = string(_name[:2]) + "***" + string(_name[len(_name)-2:])
 	} else if len(name) < 1 {
 		name = ""
-	} else if len(name) <= 4 {
+	} else {
 		name = string(_name[:1]) + "***"
 	}
 
-- 
2.43.0


From 9aa40a375fa34f0b4fc20ea381745cad22631d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 34/62] fix: HideStar counts characters of the mail's local
 part, so that a short one is not shown in full

---
 help/utils/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 8e25262..057cac9 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -66,7 +66,7 @@ func HideStar(str string) (result string) {
 	if strings.Contains(str, "@") {
 		// 邮箱
 		res := strings.Split(str, "@")
-		if len(res[0]) < 3 {
+		if len([]rune(res[0])) < 3 {
 			resString := "***"
 			result = resString + "@" + res[1]
 		} else {
-- 
2.43.0


From 48468285e710386d682d13ace081ef167784ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 35/62] fix: UpperFirst returns the changed string

---
 help/utils/strings.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index 057cac9..f3e2f9c 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -4,6 +4,8 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // StringToInt
@@ -48,11 +50,12 @@ func StringToInt64(s string) int64 {
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:32:18
 func UpperFirst(s string) string {
-	if len(s) > 0 {
-		strings.Replace(s, s[0:1], strings.ToUpper(s[0:1]), 1)
+	first, size := utf8.DecodeRuneInString(s)
+	if first == utf8.RuneError {
+		return s
 	}
 
-	return s
+	return string(unicode.ToUpper(first)) + s[size:]
 }
 
 // HideStar
-- 
2.43.0


From 3a687aca7dcec58df2fe263f583e283cfe541f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 36/62] fix: FormatByte formats the given size instead of a
 constant, with its unit

---
 help/utils/files.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 7051567..4a97a84 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -159,10 +159,10 @@ func GetSuffixName(str, seg string) string {
 
 //FormatByte 转换字节大小
 func FormatByte(size int) string {
-	fSize := float64(32)
+	fSize := float64(size)
 	units := [6]string{"B", "KB", "MB", "GB", "TB", "PB"}
 	var i int
-	for i := 0; fSize > 1024 && i < 5; i++ {
+	for ; fSize > 1024 && i < 5; i++ {
 		fSize /= 1024
 	}
 	num := fmt.Sprintf("%.2f", fSize)
-- 
2.43.0


From 84778b0cbed780b52366921d7246ce2c298f3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 37/62] fix: Round rounds negative numbers to the nearest too

---
 help/utils/math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/help/utils/math.go b/help/utils/math.go
index 1f12410..38d12dc 100644
--- a/help/utils/math.go
+++ b/help/utils/math.go
@@ -5,5 +5,5 @@ import "math"
 // Round 四舍五入
 func Round(f float64, n int) float64 {
 	pow10_n := math.Pow10(n)
-	return math.Trunc((f+0.5/pow10_n)*pow10_n) / pow10_n
+	return math.Trunc((f+math.Copysign(0.5/pow10_n, f))*pow10_n) / pow10_n
 }
-- 
2.43.0


From 243466513a92036c0b7fcd16275b8eea7b445ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 38/62] fix: a bulk insert stores the fields of every record,
 not only those the first one has

---
 gorm_tools/gorm.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 7e13ea2..21f750c 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -103,16 +103,22 @@ func SplitInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		return nil
 	}
 
-	// 获取record长度
-	recordMap, err := dumpStructToMapForInsert(records[0], table)
-	if err != nil {
-		return err
+	// 获取record长度: 各记录的字段可能不同(例如omitempty),以全部字段计算
+	fields := make(map[string]bool)
+	for _, item := range records {
+		recordMap, err := dumpStructToMapForInsert(item, table)
+		if err != nil {
+			return err
+		}
+		for key := range recordMap {
+			fields[key] = true
+		}
 	}
-	if len(recordMap) == 0 {
+	if len(fields) == 0 {
 		return nil
 	}
 	// 由于数据库占位符长度限制,需要动态限制
-	maxInsertLen := 65000 / len(recordMap)
+	maxInsertLen := 65000 / len(fields)
 
 	for len(records) != 0 {
 		insertLen := len(records)
@@ -148,8 +154,14 @@ func BatchInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 
 	//以一定的顺序收集字段名字
 	fieldName := make([]string, 0, len(recordMap[0]))
-	for key := range recordMap[0] {
-		fieldName = append(fieldName, key)
+	seen := make(map[string]bool, len(recordMap[0]))
+	for _, item := range recordMap {
+		for key := range item {
+			if !seen[key] {
+				seen[key] = true
+				fieldName = append(fieldName, key)
+			}
+		}
 	}
 
 	//按上面收集到的字段名字顺序，查找对应的value
-- 
2.43.0


From 5297251838140e9abc07b2984c52cc6c87fec1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 39/62] fix: a batch update with unequal fields is refused
 instead of dropping some of them

---
 gorm_tools/update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 2a9b664..331961a 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -53,6 +53,12 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 		break
 	}
 
+	for _, item := range idUpdateMap {
+		if len(item) != len(updateField) {
+			return fmt.Errorf("update field must equal")
+		}
+	}
+
 	caseSQL, beginSQL := "", "update "+tableName+" set "
 
 	args, allID := make([]interface{}, 0, len(idUpdateMap)*2), make([]int64, 0, len(idUpdateMap))
-- 
2.43.0


From bed9baf394d8483fba53e8f0b61e111ffb7f5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 40/62] fix: IsSameSiteURLPath refuses tabs and newlines, which
 browsers drop from //host links

---
 help/utils/files.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/help/utils/files.go b/help/utils/files.go
index 4a97a84..a6d93ed 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -326,6 +326,10 @@ func humanateBytes(s uint64, base float64, sizes []string) string {
 // False: //url, http://url, /\url
 // True: /url
 func IsSameSiteURLPath(url string) bool {
+	// 浏览器会忽略制表符与换行: "/\t/host" 等同于 "//host"
+	if strings.ContainsAny(url, "\t\r\n") {
+		return false
+	}
 	return len(url) >= 2 && url[0] == '/' && url[1] != '/' && url[1] != '\\'
 }
 
-- 
2.43.0


From 21c547f34369887efc323df76ec16e14a6f2d2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 41/62] fix: BuildUrl without a prefix does not make a //host
 link

---
 help/utils/url.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/url.go b/help/utils/url.go
index cadf737..3431cb2 100644
--- a/help/utils/url.go
+++ b/help/utils/url.go
@@ -18,7 +18,8 @@ func BuildUrl(prefix string, params ...interface{}) string {
 		linkUrl []string
 	)
 
-	linkUrl = append(linkUrl, "/"+strings.Trim(prefix, "/"))
+	// 空前缀不产生"//": 否则第一个参数会成为主机名
+	linkUrl = append(linkUrl, strings.TrimRight("/"+strings.Trim(prefix, "/"), "/"))
 	l = len(params)
 	if l != (l/2)*2 {
 		l = (l / 2) * 2
-- 
2.43.0


From 7fd0965e0f1b7ab6dd76861ddcbad45be041902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 42/62] fix: RandStr seeds once, so that calls at the same
 instant differ

---
 help/utils/rand.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/help/utils/rand.go b/help/utils/rand.go
index ef27ac7..f1b8172 100644
--- a/help/utils/rand.go
+++ b/help/utils/rand.go
@@ -5,6 +5,11 @@ import (
 	"time"
 )
 
+// 只播种一次: 每次调用都播种时,同一时刻的调用会得到相同的结果
+func init() {
+	rand.Seed(time.Now().UnixNano())
+}
+
 // RandStr
 //  @Description:  获取随机数
 //  @param size
@@ -18,7 +23,6 @@ func RandStr(size int, kind int) string {
 
 	isAll := kind > 2 || kind < 0
 
-	rand.Seed(time.Now().UnixNano())
 	for i := 0; i < size; i++ {
 		if isAll {
 			ikind = rand.Intn(3)
-- 
2.43.0


From 5662258b707cc9d0b797409e49e53bfec09a2aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 43/62] fix: elements of a cleared list no longer belong to it

---
 common/container/list/list.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index d6371bb..479cdb1 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -52,6 +52,12 @@ type List[T any] struct {
 
 // Clear clears list l.
 func (l *List[T]) Clear() *List[T] {
+	// the elements leave the list, so that later operations with them change nothing
+	for e := l.root.next; e != nil && e != &l.root; {
+		next := e.next
+		e.next, e.prev, e.list = nil, nil, nil
+		e = next
+	}
 	l.root.next = &l.root
 	l.root.prev = &l.root
 	l.len = 0
-- 
2.43.0


From 804eefb58dbee40cec5711e2b6731544c0f5dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 44/62] fix: leaky and token bucket do not overflow with large
 rates after idle time

---
 common/limiter/leaky_bucket/leaky_bucket_limiter.go | 10 ++++++++--
 common/limiter/token_bucket/token_bucket.go         | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/common/limiter/leaky_bucket/leaky_bucket_limiter.go b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
index 3f10122..4d3837d 100644
--- a/common/limiter/leaky_bucket/leaky_bucket_limiter.go
+++ b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
@@ -31,8 +31,14 @@ func (l *LeakyBucketLimiter) TryAcquire() bool {
 	// 距离上次放水的时间
 	interval := now.Sub(l.lastTime)
 	if interval >= time.Second {
-		// 当前水位-距离上次放水的时间(秒)*水流速度
-		l.currentLevel = maxInt(0, l.currentLevel-int(interval/time.Second)*l.currentVelocity)
+		seconds := int(interval / time.Second)
+		if l.currentVelocity > 0 && seconds > l.currentLevel/l.currentVelocity {
+			// 已经放完，避免乘法溢出
+			l.currentLevel = 0
+		} else {
+			// 当前水位-距离上次放水的时间(秒)*水流速度
+			l.currentLevel = maxInt(0, l.currentLevel-seconds*l.currentVelocity)
+		}
 		l.lastTime = now
 	}
 
diff --git a/common/limiter/token_bucket/token_bucket.go b/common/limiter/token_bucket/token_bucket.go
index fb23634..687fcf0 100644
--- a/common/limiter/token_bucket/token_bucket.go
+++ b/common/limiter/token_bucket/token_bucket.go
@@ -31,8 +31,14 @@ func (l *TokenBucketLimiter) TryAcquire() bool {
 	// 距离上次发放令牌的时间
 	interval := now.Sub(l.lastTime)
 	if interval >= time.Second {
-		// 当前令牌数量+距离上次发放令牌的时间(秒)*发放令牌速率
-		l.currentTokens = minInt(l.capacity, l.currentTokens+int(interval/time.Second)*l.rate)
+		seconds := int(interval / time.Second)
+		if l.rate > 0 && seconds > (l.capacity-l.currentTokens)/l.rate {
+			// 已经装满，避免乘法溢出
+			l.currentTokens = l.capacity
+		} else {
+			// 当前令牌数量+距离上次发放令牌的时间(秒)*发放令牌速率
+			l.currentTokens = minInt(l.capacity, l.currentTokens+seconds*l.rate)
+		}
 		l.lastTime = now
 	}
 
-- 
2.43.0


From 7d172e1b76bad1d89b1866ceb3c8e4bbf2612266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 45/62] fix: a token bucket with a negative capacity admits
 nothing instead of everything

---
 common/limiter/token_bucket/token_bucket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/limiter/token_bucket/token_bucket.go b/common/limiter/token_bucket/token_bucket.go
index 687fcf0..8d6b7e1 100644
--- a/common/limiter/token_bucket/token_bucket.go
+++ b/common/limiter/token_bucket/token_bucket.go
@@ -43,7 +43,7 @@ func (l *TokenBucketLimiter) TryAcquire() bool {
 	}
 
 	// 如果没有令牌，请求失败
-	if l.currentTokens == 0 {
+	if l.currentTokens <= 0 {
 		return false
 	}
 	// 如果有令牌，当前令牌-1，请求成功
-- 
2.43.0


From b49a5aaefdffa1dc3bf310309daf1e547aa9fdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:11 +0000
Subject: [PATCH 46/62] fix: sliding limiters refuse windows of zero or
 negative length instead of panicking or admitting everything

---
 common/limiter/sliding_log/sliding_log.go       | 9 +++++++++
 common/limiter/sliding_window/sliding_window.go | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index fe6705a..40e9f97 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -54,6 +54,11 @@ func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLi
 		return nil, errors.New("must be set strategies")
 	}
 
+	// 小窗口时间必须大于0
+	if smallWindow <= 0 {
+		return nil, errors.New("the small window must be greater than 0")
+	}
+
 	// 排序策略，窗口时间大的排前面，相同窗口上限大的排前面
 	sort.Slice(strategies, func(i, j int) bool {
 		a, b := strategies[i], strategies[j]
@@ -70,6 +75,10 @@ func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLi
 				return nil, errors.New("the smaller window should be the smaller limit")
 			}
 		}
+		// 窗口时间必须大于0
+		if strategy.window <= 0 {
+			return nil, errors.New("window must be greater than 0")
+		}
 		// 窗口时间必须能够被小窗口时间整除
 		if strategy.window%int64(smallWindow) != 0 {
 			return nil, errors.New("window cannot be split by integers")
diff --git a/common/limiter/sliding_window/sliding_window.go b/common/limiter/sliding_window/sliding_window.go
index 8896332..8309959 100644
--- a/common/limiter/sliding_window/sliding_window.go
+++ b/common/limiter/sliding_window/sliding_window.go
@@ -17,6 +17,11 @@ type SlidingWindowLimiter struct {
 }
 
 func NewSlidingWindowLimiter(limit int, window, smallWindow time.Duration) (*SlidingWindowLimiter, error) {
+	// 窗口时间和小窗口时间必须大于0
+	if window <= 0 || smallWindow <= 0 {
+		return nil, errors.New("windows must be greater than 0")
+	}
+
 	// 窗口时间必须能够被小窗口时间整除
 	if window%smallWindow != 0 {
 		return nil, errors.New("window cannot be split by integers")
-- 
2.43.0


From 69d4638d146d6d5f7f7efeaa3ff899e0e8381a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:04 +0000
Subject: [PATCH 47/62] fix: append a CSV record with one write and undo a
 partial one

---
 help/utils/csv.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index aaf0252..5a35dab 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"bytes"
 	"encoding/csv"
 	"io"
 	"os"
@@ -39,15 +40,15 @@ func ReadCsv(path string) *[][]string {
 //  @Date2023-04-04 14:52:34
 func WriteCsv(path string, content []string) error {
 
-	nfs, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)
+	nfs, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0666)
 	if err != nil {
 		return err
 	}
 	defer nfs.Close()
 
-	nfs.Seek(0, io.SeekEnd)
-
-	w := csv.NewWriter(nfs)
+	// 先在内存中生成整条记录，再一次追加写入: 同时写入的记录不会互相覆盖或混合
+	var buf bytes.Buffer
+	w := csv.NewWriter(&buf)
 	w.Comma = ','
 	w.UseCRLF = true
 	err = w.Write(content)
@@ -56,6 +57,17 @@ func WriteCsv(path string, content []string) error {
 	}
 	//这里必须刷新，才能将数据写入文件。
 	w.Flush()
+	if err = w.Error(); err != nil {
+		return err
+	}
 
-	return w.Error()
+	n, err := nfs.Write(buf.Bytes())
+	if err != nil && n > 0 {
+		// 去掉只写了一部分的记录，否则会与下一条记录连在一起
+		end, seekErr := nfs.Seek(0, io.SeekCurrent)
+		if info, statErr := nfs.Stat(); seekErr == nil && statErr == nil && info.Size() == end {
+			_ = nfs.Truncate(end - int64(n))
+		}
+	}
+	return err
 }
-- 
2.43.0


From e39d81bece16d0f5e2573cc4bacc6ba2551c4133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:51 +0000
Subject: [PATCH 48/62] fix: quote the table name in bulk inserts, it may be a
 reserved word

---
 gorm_tools/gorm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 21f750c..808104b 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -179,7 +179,7 @@ func BatchInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		fieldName[index] = "`" + field + "`"
 	}
 
-	sql := fmt.Sprintf("insert into %s(%s) values ", table, strings.Join(fieldName, ","))
+	sql := fmt.Sprintf("insert into %s(%s) values ", db.Statement.Quote(table), strings.Join(fieldName, ","))
 	for range values {
 		sql += "(?),"
 	}
-- 
2.43.0


From b7386aa40de3a89c4ad66b41b2fd3e1565cf0f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:51 +0000
Subject: [PATCH 49/62] fix: quote table and field names in batch updates, they
 may be reserved words

---
 gorm_tools/update.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 331961a..9fc893e 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -59,11 +59,12 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 		}
 	}
 
-	caseSQL, beginSQL := "", "update "+tableName+" set "
+	// 表名和字段名可能是关键字，需要加引号
+	caseSQL, beginSQL := "", "update "+db.Statement.Quote(tableName)+" set "
 
 	args, allID := make([]interface{}, 0, len(idUpdateMap)*2), make([]int64, 0, len(idUpdateMap))
 	for _, field := range updateField {
-		caseSQL += field + "= case "
+		caseSQL += db.Statement.Quote(field) + "= case "
 		for id, updateMap := range idUpdateMap {
 			value, ok := updateMap[field]
 			if !ok {
-- 
2.43.0


From 930f9cb04cc4493d739c7e339ecad86961f398fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 50/62] fix: number masks count characters, multi-byte ones
 left NULs or shifted the mask

---
 help/utils/strings.go | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/help/utils/strings.go b/help/utils/strings.go
index f3e2f9c..85abd7f 100644
--- a/help/utils/strings.go
+++ b/help/utils/strings.go
@@ -109,16 +109,18 @@ func HideStar(str string) (result string) {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:40:59
 func MaskMobile(mobile string, maskNumber int) string {
+	// 按字符而不是字节计算，多字节字符也只占一位
+	_mobile := []rune(mobile)
 	offset := 3
-	if len(mobile) > 11 {
+	if len(_mobile) > 11 {
 		offset += 2
 	}
 	maskNumber += offset
 
 	ret := mobile
-	if len(mobile) > maskNumber {
-		_cardNo := make([]rune, len(mobile))
-		for index, _c := range mobile {
+	if len(_mobile) > maskNumber {
+		_cardNo := make([]rune, len(_mobile))
+		for index, _c := range _mobile {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
@@ -155,13 +157,14 @@ func MaskCustomerName(name string) string {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:41:18
 func MaskIDCard(idcard string, maskNumber int) string {
+	_idcard := []rune(idcard)
 	offset := 4
 	maskNumber += offset
 
 	ret := idcard
-	if len(idcard) > maskNumber {
-		_cardNo := make([]rune, len(idcard))
-		for index, _c := range idcard {
+	if len(_idcard) > maskNumber {
+		_cardNo := make([]rune, len(_idcard))
+		for index, _c := range _idcard {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
@@ -180,16 +183,17 @@ func MaskIDCard(idcard string, maskNumber int) string {
 // @Author ahKevinXy
 // @Date 2022-11-09 19:41:25
 func MaskBackCard(bankcard string, maskNumber int) string {
+	_bankcard := []rune(bankcard)
 	offset := 4
 	maskNumber += offset
-	if len(bankcard) > 16 {
-		maskNumber += len(bankcard) - 16
+	if len(_bankcard) > 16 {
+		maskNumber += len(_bankcard) - 16
 	}
 
 	ret := bankcard
-	if len(bankcard) > maskNumber {
-		_cardNo := make([]rune, len(bankcard))
-		for index, _c := range bankcard {
+	if len(_bankcard) > maskNumber {
+		_cardNo := make([]rune, len(_bankcard))
+		for index, _c := range _bankcard {
 			if index >= offset && index < maskNumber {
 				_cardNo[index] = '*'
 				continue
-- 
2.43.0


From bbca83c6b71494d7cd9b1ee525b32892a3b009d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 51/62] fix: keep carriage returns, lone empty fields and
 records of different widths in CSV files

---
 help/utils/csv.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index 5a35dab..f4ce89c 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -22,6 +22,8 @@ func ReadCsv(path string) *[][]string {
 	}
 	defer fs.Close()
 	r := csv.NewReader(fs)
+	// 每条记录的字段数可以不同
+	r.FieldsPerRecord = -1
 	content, err := r.ReadAll()
 
 	if err != nil {
@@ -50,7 +52,6 @@ func WriteCsv(path string, content []string) error {
 	var buf bytes.Buffer
 	w := csv.NewWriter(&buf)
 	w.Comma = ','
-	w.UseCRLF = true
 	err = w.Write(content)
 	if err != nil {
 		return err
@@ -60,8 +61,15 @@ func WriteCsv(path string, content []string) error {
 	if err = w.Error(); err != nil {
 		return err
 	}
+	// 只有行尾使用CRLF: UseCRLF 会去掉字段内的回车
+	record := bytes.TrimSuffix(buf.Bytes(), []byte("\n"))
+	if len(content) == 1 && content[0] == "" {
+		// 只有一个空字段的记录必须加引号，否则读取时会被当作空行
+		record = []byte(`""`)
+	}
+	record = append(record, '\r', '\n')
 
-	n, err := nfs.Write(buf.Bytes())
+	n, err := nfs.Write(record)
 	if err != nil && n > 0 {
 		// 去掉只写了一部分的记录，否则会与下一条记录连在一起
 		end, seekErr := nfs.Seek(0, io.SeekCurrent)
-- 
2.43.0


From fef0812d13a1833e381da44324f89c25e3f398bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 52/62] fix: Round returned Inf, NaN or another number for
 large values or many decimals

---
 help/utils/math.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/help/utils/math.go b/help/utils/math.go
index 38d12dc..4604cf0 100644
--- a/help/utils/math.go
+++ b/help/utils/math.go
@@ -5,5 +5,9 @@ import "math"
 // Round 四舍五入
 func Round(f float64, n int) float64 {
 	pow10_n := math.Pow10(n)
+	// 没有更多小数位可舍去(相邻浮点数的间隔已不小于最后一位)，计算只会带来误差或溢出
+	if !(math.Abs(f)*pow10_n < 1<<52) {
+		return f
+	}
 	return math.Trunc((f+math.Copysign(0.5/pow10_n, f))*pow10_n) / pow10_n
 }
-- 
2.43.0


From 98f839583964ecf04058562ce064d08f6d4daa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 53/62] fix: Log2 of large integers was off by one, it went
 through float64

---
 common/math/math.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/math/math.go b/common/math/math.go
index 0880b1f..869773b 100644
--- a/common/math/math.go
+++ b/common/math/math.go
@@ -51,6 +51,11 @@ func Abs[T constraints.Float | constraints.Signed](a T) T {
 // Log2
 // 修改更加高效算法
 func Log2[T constraints.Integer | constraints.Float](a T) T {
+	var one T = 1
+	if one/2 == 0 && a > 0 {
+		// 整数直接取最高位，转换为float64会丢失精度
+		return T(bits.Len64(uint64(a)) - 1)
+	}
 	return T(math.Log2(float64(a)))
 }
 
-- 
2.43.0


From 223f6bd5b8053146ea57fd1db8e680f828840066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 54/62] fix: refuse upload names with path parts, they reached
 other uploads and files outside

---
 help/utils/breakpoint_continue.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 5390cf1..a886cf3 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -3,8 +3,10 @@ package utils
 import (
 	"crypto/md5"
 	"encoding/hex"
+	"errors"
 	"io/ioutil"
 	"os"
+	"path/filepath"
 	"strconv"
 	"strings"
 )
@@ -14,6 +16,15 @@ const (
 	finishDir     = "./fileDir/"
 )
 
+// errBreakPointName 名称中含有路径时，会访问到其他上传的切片，或目录之外的文件
+var errBreakPointName = errors.New("breakpoint: file name or md5 is not a plain name")
+
+// plainName 名称是否不含路径
+func plainName(name string) bool {
+	return name != "" && name != "." && name != ".." &&
+		!strings.ContainsRune(name, '/') && !strings.ContainsRune(name, filepath.Separator)
+}
+
 // BreakPointContinue
 //  @Description:  断点续传
 //  @param content
@@ -27,6 +38,9 @@ const (
 //  @Date2023-04-04 14:50:35
 func BreakPointContinue(content []byte, fileName string, contentNumber int, contentTotal int, fileMd5 string) (string, error) {
 	path := breakpointDir + fileMd5 + "/"
+	if !plainName(fileName) || !plainName(fileMd5) {
+		return path, errBreakPointName
+	}
 	err := os.MkdirAll(path, os.ModePerm)
 	if err != nil {
 		return path, err
@@ -59,6 +73,9 @@ func makeFileContent(content []byte, fileName string, FileDir string, contentNum
 }
 
 func MakeFile(fileName string, FileMd5 string) (string, error) {
+	if !plainName(fileName) || !plainName(FileMd5) {
+		return finishDir + fileName, errBreakPointName
+	}
 	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)
 	if err != nil {
 		return finishDir + fileName, err
@@ -93,6 +110,9 @@ func MakeFile(fileName string, FileMd5 string) (string, error) {
 }
 
 func RemoveChunk(FileMd5 string) error {
+	if !plainName(FileMd5) {
+		return errBreakPointName
+	}
 	err := os.RemoveAll(breakpointDir + FileMd5)
 	return err
 }
-- 
2.43.0


From a188f6e322f9ea6ab043f56947bb7fe171e287ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:52 +0000
Subject: [PATCH 55/62] fix: a timing wheel with one slot created overflow
 wheels without end

---
 common/timer/timingwheel/timing_wheel.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 015db43..f648ced 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -40,6 +40,10 @@ func newTimingWheel(tick, wheelSize, currentTime int64, queue *delayQueue) *Timi
 	return tw
 }
 func New(tick, wheelSize int64) *TimingWheel {
+	// 只有一个桶时上层时间轮不会更大，放不进当前一跳的任务会不断创建上层时间轮
+	if wheelSize < 2 {
+		wheelSize = 2
+	}
 
 	return newTimingWheel(tick, wheelSize, time.Now().UnixMilli(), newDelayQueue())
 }
-- 
2.43.0


From fdb9d5a399dc94e4963e86bc145eeccabbf2edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:52 +0000
Subject: [PATCH 56/62] fix: the timing wheel spun on tasks more than 292 years
 ahead, the wait overflowed

---
 common/timer/timingwheel/delayqueue.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 4d6ae90..b511dd8 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -3,11 +3,15 @@ package timingwheel
 import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
+	"math"
 	"sync"
 	"sync/atomic"
 	"time"
 )
 
+// 一次最多等待多少毫秒，更久转换为time.Duration会溢出，定时器立即到期而空转
+const maxWait = int64(math.MaxInt64 / time.Millisecond)
+
 type delayQueue struct {
 	h        *heap.Heap[*bucket]
 	mutex    sync.Mutex
@@ -73,7 +77,11 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 				return entry
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
-			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
+			wait := expiration - now
+			if wait > maxWait {
+				wait = maxWait
+			}
+			t = time.NewTimer(time.Duration(wait) * time.Millisecond)
 		}
 		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
 		atomic.StoreInt32(&q.sleeping, 1)
-- 
2.43.0


From 69f69695fb3486431b609d1bd9cff5ad6f971246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:52 +0000
Subject: [PATCH 57/62] fix: a bloom filter with capacity 0 panicked

---
 common/filter/bloom/bloom.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/filter/bloom/bloom.go b/common/filter/bloom/bloom.go
index bfc75dc..deff0a1 100644
--- a/common/filter/bloom/bloom.go
+++ b/common/filter/bloom/bloom.go
@@ -20,6 +20,10 @@ type Filter struct {
 }
 
 func New(capacity uint64, falsePositiveRate float64) *Filter {
+	// 容量0没有哈希函数数量可算，按最小的容量处理
+	if capacity == 0 {
+		capacity = 1
+	}
 	// bit数量
 	factor := -math.Log(falsePositiveRate) / (math.Ln2 * math.Ln2)
 	bitCnt := uint64(math.Ceil(float64(capacity) * factor))
-- 
2.43.0


From fffcc15c5b828527dc9080de0e77342303cc2e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:52 +0000
Subject: [PATCH 58/62] fix: ScanDir could not read the root directory

---
 help/utils/files.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index a6d93ed..93f26ff 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -174,8 +174,10 @@ func FormatByte(size int) string {
 // @Author ahKevinXy
 // @Date 2022-12-01 11:48:20
 func ScanDir(dir string) (files []string, err error) {
+	infos, err := ioutil.ReadDir(dir)
+	// 去掉末尾的"/"只用于拼接，根目录去掉后为空，无法读取
 	dir = strings.TrimSuffix(dir, "/")
-	if infos, err := ioutil.ReadDir(dir); err == nil {
+	if err == nil {
 		for _, info := range infos {
 			file := dir + "/" + info.Name()
 			if info.IsDir() {
-- 
2.43.0


From 5bcbfe2e6d0171861047dd755d9e936e2a177c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:52 +0000
Subject: [PATCH 59/62] fix: SplitUpdate exceeded the placeholder limit with
 many fields

---
 gorm_tools/update.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 9fc893e..4218ecb 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -12,6 +12,12 @@ import (
 // @Date 2023-03-29 12:01:28
 func SplitUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUpdateMap map[int64]map[string]interface{}) error {
 	maxUpdateLen := 500
+	// 由于数据库占位符长度限制,字段多时需要减少每批数量: 每个id每个字段两个占位符,条件一个
+	for _, updateMap := range idUpdateMap {
+		if n := 65000 / (2*len(updateMap) + 1); n < maxUpdateLen {
+			maxUpdateLen = n
+		}
+	}
 
 	index, totalNum := 0, 0
 	sliceUpdate := make([]map[int64]map[string]interface{}, 0, len(idUpdateMap)/maxUpdateLen+1)
-- 
2.43.0


From c3a349419fec36c2727e8b623485573ae27ce808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:36 +0000
Subject: [PATCH 60/62] fix: ShellExec appended exit to the text, which joined
 an unfinished line or here document

---
 help/utils/cmd.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/help/utils/cmd.go b/help/utils/cmd.go
index 9d840d7..9018caf 100644
--- a/help/utils/cmd.go
+++ b/help/utils/cmd.go
@@ -20,7 +20,6 @@ func ShellExec(cmd string) (*bytes.Buffer, error) {
 	command.Stderr = errOut
 	in.WriteString(cmd)
 	in.WriteString("\n")
-	in.WriteString("exit\n")
 	if err := command.Run(); err != nil {
 		return nil, errors.New(errOut.String())
 	}
-- 
2.43.0


From 7feaa67b25a76ae3474c05fa72cfdd50e68d2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:26 +0000
Subject: [PATCH 61/62] fix: BatchInsert took a "?" in a column or table name
 for a placeholder

---
 gorm_tools/gorm.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 808104b..e63b2d6 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"gorm.io/gorm"
+	"gorm.io/gorm/clause"
 	"gorm.io/plugin/soft_delete"
 	"strings"
 	"time"
@@ -175,17 +176,19 @@ func BatchInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		values = append(values, valueItem)
 	}
 
-	for index, field := range fieldName {
-		fieldName[index] = "`" + field + "`"
+	//表名和字段名作为参数，名字中的"?"不会被当作占位符
+	columns := make([]interface{}, 0, len(fieldName))
+	for _, field := range fieldName {
+		columns = append(columns, clause.Column{Name: "`" + field + "`", Raw: true})
 	}
 
-	sql := fmt.Sprintf("insert into %s(%s) values ", db.Statement.Quote(table), strings.Join(fieldName, ","))
+	sql := "insert into ? ? values "
 	for range values {
 		sql += "(?),"
 	}
 	sql = strings.TrimSuffix(sql, ",")
 
-	dbRet := db.Exec(sql, values...)
+	dbRet := db.Exec(sql, append([]interface{}{clause.Table{Name: table}, columns}, values...)...)
 	errString := fmt.Sprintf("%v", dbRet.Error)
 	if strings.Contains(errString, "Duplicate entry") {
 		return fmt.Errorf("duplicate record exists")
-- 
2.43.0


From 3f88eed5a2c5557cd548b8ca9ddc53126e754a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:26 +0000
Subject: [PATCH 62/62] fix: BatchUpdate took a "?" in a column or table name
 for a placeholder

---
 gorm_tools/update.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 4218ecb..995cfc6 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -3,6 +3,7 @@ package gorm_tools
 import (
 	"fmt"
 	"gorm.io/gorm"
+	"gorm.io/gorm/clause"
 	"strings"
 )
 
@@ -65,12 +66,14 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 		}
 	}
 
-	// 表名和字段名可能是关键字，需要加引号
-	caseSQL, beginSQL := "", "update "+db.Statement.Quote(tableName)+" set "
+	// 表名和字段名可能是关键字，作为参数由gorm加引号，名字中的"?"不会被当作占位符
+	caseSQL, beginSQL := "", "update ? set "
 
 	args, allID := make([]interface{}, 0, len(idUpdateMap)*2), make([]int64, 0, len(idUpdateMap))
+	args = append(args, clause.Table{Name: tableName})
 	for _, field := range updateField {
-		caseSQL += db.Statement.Quote(field) + "= case "
+		caseSQL += "? = case "
+		args = append(args, clause.Column{Name: field})
 		for id, updateMap := range idUpdateMap {
 			value, ok := updateMap[field]
 			if !ok {
-- 
2.43.0


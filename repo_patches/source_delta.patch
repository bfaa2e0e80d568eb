From 06e26039fe9a22812e7a8a45938d788cc69a3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:25 +0000
Subject: [PATCH 01/29] fix: delay queue waiters no longer lose wake-ups or
 block Push after a cancelled Take

The sleeping/wakeup handshake promised exactly one receiver per wake-up: a Take
that was cancelled left the promise behind and the next Push blocked for ever
while holding the mutex, and several takers shared one flag. Close and replace
the wake-up channel instead whenever the head of the queue changes.
---
 common/timer/delayqueue/delayqueue.go | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/common/timer/delayqueue/delayqueue.go b/common/timer/delayqueue/delayqueue.go
index 5eae6c4..ee7b720 100644
--- a/common/timer/delayqueue/delayqueue.go
+++ b/common/timer/delayqueue/delayqueue.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
@@ -18,9 +17,7 @@ type entry[T any] struct {
 type DelayQueue[T any] struct {
 	h     *heap.Heap[*entry[T]]
 	mutex sync.Mutex //保证并发安全
-	// 0 表示take 没在等待 1 表示在等待
-	sleeping int32
-	// 唤醒通道
+	// 唤醒通道，队头变化时关闭并更换，从而唤醒所有等待的take
 	wakeup chan struct{}
 }
 
@@ -58,10 +55,8 @@ func (q *DelayQueue[T]) Push(value T, delay time.Duration) {
 	// 唤醒等待的take
 
 	if q.h.Peek() == entry {
-		// 把sleep 从1修改成0
-		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
-		}
+		close(q.wakeup)
+		q.wakeup = make(chan struct{})
 	}
 
 }
@@ -92,17 +87,14 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			timer = time.NewTimer(entry.expiration.Sub(now))
 		}
 
-		atomic.StoreInt32(&q.sleeping, 1)
+		wakeup := q.wakeup
 		q.mutex.Unlock()
 
 		if timer != nil {
 			select {
-			case <-q.wakeup:
+			case <-wakeup:
 				timer.Stop()
 			case <-timer.C:
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					<-q.wakeup
-				}
 			case <-ctx.Done():
 				timer.Stop()
 				var t T
@@ -111,7 +103,7 @@ func (q *DelayQueue[T]) Take(ctx context.Context) (T, bool) {
 			}
 		} else {
 			select {
-			case <-q.wakeup: //
+			case <-wakeup: //
 			case <-ctx.Done(): // 被关闭
 				var t T
 				return t, false
-- 
2.43.0


From b27edd4c086557af0ed06c3f3ef82efcb252b6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 02/29] fix: leaky and token bucket no longer lose fractions of
 a second

Every refill set lastTime to now although only whole seconds had been counted,
so a caller polling every 1.9 s got little more than half the configured rate.
---
 common/limiter/leaky_bucket/leaky_bucket_limiter.go | 3 ++-
 common/limiter/token_bucket/token_bucket.go         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/limiter/leaky_bucket/leaky_bucket_limiter.go b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
index 3f10122..58acd0a 100644
--- a/common/limiter/leaky_bucket/leaky_bucket_limiter.go
+++ b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
@@ -33,7 +33,8 @@ func (l *LeakyBucketLimiter) TryAcquire() bool {
 	if interval >= time.Second {
 		// 当前水位-距离上次放水的时间(秒)*水流速度
 		l.currentLevel = maxInt(0, l.currentLevel-int(interval/time.Second)*l.currentVelocity)
-		l.lastTime = now
+		// 只推进整秒，不足一秒的时间留到下次
+		l.lastTime = l.lastTime.Add(interval.Truncate(time.Second))
 	}
 
 	// 若到达最高水位，请求失败
diff --git a/common/limiter/token_bucket/token_bucket.go b/common/limiter/token_bucket/token_bucket.go
index fb23634..2fd00f5 100644
--- a/common/limiter/token_bucket/token_bucket.go
+++ b/common/limiter/token_bucket/token_bucket.go
@@ -33,7 +33,8 @@ func (l *TokenBucketLimiter) TryAcquire() bool {
 	if interval >= time.Second {
 		// 当前令牌数量+距离上次发放令牌的时间(秒)*发放令牌速率
 		l.currentTokens = minInt(l.capacity, l.currentTokens+int(interval/time.Second)*l.rate)
-		l.lastTime = now
+		// 只推进整秒，不足一秒的时间留到下次
+		l.lastTime = l.lastTime.Add(interval.Truncate(time.Second))
 	}
 
 	// 如果没有令牌，请求失败
-- 
2.43.0


From 50cf8eb33cb562820b73585bac68ea9528a78f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 03/29] fix: sliding limiters measure elapsed time with the
 monotonic clock

A backward step of the system clock made them refuse everybody until the clock
caught up, and a forward step forgot admissions that were still in the window.
---
 common/limiter/sliding_log/sliding_log.go       | 4 +++-
 common/limiter/sliding_window/sliding_window.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index 671b10b..1d733bd 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -37,6 +37,7 @@ type SlidingLogLimiter struct {
 	strategies  []*SlidingLogLimiterStrategy // 滑动日志限流器策略列表
 	smallWindow int64                        // 小窗口时间大小
 	counters    map[int64]int                // 小窗口计数器
+	startTime   time.Time                    // 创建时间，用单调时钟避免系统时间跳变的影响
 	mutex       sync.Mutex                   // 避免并发问题
 }
 
@@ -76,6 +77,7 @@ func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLi
 		strategies:  strategies,
 		smallWindow: int64(smallWindow),
 		counters:    make(map[int64]int),
+		startTime:   time.Now(),
 	}, nil
 }
 
@@ -84,7 +86,7 @@ func (l *SlidingLogLimiter) TryAcquire() error {
 	defer l.mutex.Unlock()
 
 	// 获取当前小窗口值
-	currentSmallWindow := time.Now().UnixNano() / l.smallWindow * l.smallWindow
+	currentSmallWindow := int64(time.Since(l.startTime)) / l.smallWindow * l.smallWindow
 	// 获取每个策略的起始小窗口值
 	startSmallWindows := make([]int64, len(l.strategies))
 	for i, strategy := range l.strategies {
diff --git a/common/limiter/sliding_window/sliding_window.go b/common/limiter/sliding_window/sliding_window.go
index 8896332..90ce8b0 100644
--- a/common/limiter/sliding_window/sliding_window.go
+++ b/common/limiter/sliding_window/sliding_window.go
@@ -13,6 +13,7 @@ type SlidingWindowLimiter struct {
 	smallWindow  int64         // 小窗口时间大小
 	smallWindows int64         // 小窗口数量
 	counters     map[int64]int // 小窗口计数器
+	startTime    time.Time     // 创建时间，用单调时钟避免系统时间跳变的影响
 	mutex        sync.Mutex    // 避免并发问题
 }
 
@@ -28,6 +29,7 @@ func NewSlidingWindowLimiter(limit int, window, smallWindow time.Duration) (*Sli
 		smallWindow:  int64(smallWindow),
 		smallWindows: int64(window / smallWindow),
 		counters:     make(map[int64]int),
+		startTime:    time.Now(),
 	}, nil
 }
 
@@ -36,7 +38,7 @@ func (l *SlidingWindowLimiter) TryAcquire() bool {
 	defer l.mutex.Unlock()
 
 	// 获取当前小窗口值
-	currentSmallWindow := time.Now().UnixNano() / l.smallWindow * l.smallWindow
+	currentSmallWindow := int64(time.Since(l.startTime)) / l.smallWindow * l.smallWindow
 	// 获取起始小窗口值
 	startSmallWindow := currentSmallWindow - l.smallWindow*(l.smallWindows-1)
 
-- 
2.43.0


From ffe6ddb77f64d066561030fd94ae106bdc1d1a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:45 +0000
Subject: [PATCH 04/29] fix: sliding log limiters copy the strategies they are
 given

Only the pointers were copied, so a second limiter built from the same strategies
with another small window overwrote the first one's number of small windows.
---
 common/limiter/sliding_log/sliding_log.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/limiter/sliding_log/sliding_log.go b/common/limiter/sliding_log/sliding_log.go
index 1d733bd..686be15 100644
--- a/common/limiter/sliding_log/sliding_log.go
+++ b/common/limiter/sliding_log/sliding_log.go
@@ -44,6 +44,10 @@ type SlidingLogLimiter struct {
 func NewSlidingLogLimiter(smallWindow time.Duration, strategies ...*SlidingLogLimiterStrategy) (*SlidingLogLimiter, error) {
 	// 复制策略避免被修改
 	strategies = append(make([]*SlidingLogLimiterStrategy, 0, len(strategies)), strategies...)
+	for i, strategy := range strategies {
+		copied := *strategy
+		strategies[i] = &copied
+	}
 
 	// 不能不设置策略
 	if len(strategies) == 0 {
-- 
2.43.0


From 638153a130f347027bac69196da744d994026fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 05/29] fix: timing wheel sleeps until its next bucket is due
 instead of spinning

The timer was armed with now-expiration, which is negative while waiting, so
the queue's goroutine spun until the bucket was due; and a bucket due exactly
now was not taken.
---
 common/timer/timingwheel/delayqueue.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 7f72023..83a33f0 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -67,13 +67,13 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 			entry := q.h.Peek()
 			expiration := entry.getExpiration()
 			now := nowF()
-			if now > expiration {
+			if now >= expiration {
 				q.h.Pop()
 				q.mutex.Unlock()
 				return entry
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
-			t = time.NewTimer(time.Duration(now-expiration) * time.Millisecond)
+			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
 		}
 		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
 		atomic.StoreInt32(&q.sleeping, 1)
-- 
2.43.0


From cb5cdd369702f2bc82237422e478db6f63a1593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:06 +0000
Subject: [PATCH 06/29] fix: AfterFunc runs tasks that are due within the
 current tick

add returns false for them, and AfterFunc dropped the task.
---
 common/timer/timingwheel/timing_wheel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 59ca0ca..73507a5 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -78,7 +78,7 @@ func (tw *TimingWheel) AfterFunc(delay time.Duration, f func()) *Timer {
 		expiration: time.Now().Add(delay).UnixMilli(),
 		task:       f,
 	}
-	tw.add(t)
+	tw.addOrRun(t)
 	return t
 }
 
-- 
2.43.0


From 1583cc2f505bac9481d8316a2817c0cdf31867dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 07/29] fix: timing wheel adders no longer block after the run
 was cancelled

Same handshake as in the delay queue: a cancelled take left its promise to
receive behind and the next push blocked for ever holding the mutex.
---
 common/timer/timingwheel/delayqueue.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 83a33f0..cce7d9a 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -4,15 +4,13 @@ import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
 	"sync"
-	"sync/atomic"
 	"time"
 )
 
 type delayQueue struct {
-	h        *heap.Heap[*bucket]
-	mutex    sync.Mutex
-	sleeping int32         //
-	wakeup   chan struct{} //唤醒通道
+	h      *heap.Heap[*bucket]
+	mutex  sync.Mutex
+	wakeup chan struct{} //唤醒通道，队头变化时关闭并更换，从而唤醒等待的take
 }
 
 // newDelayQueue
@@ -43,9 +41,8 @@ func (q *delayQueue) push(b *bucket) {
 	q.h.Push(b)
 
 	if q.h.Peek() == b {
-		if atomic.CompareAndSwapInt32(&q.sleeping, 1, 0) {
-			q.wakeup <- struct{}{}
-		}
+		close(q.wakeup)
+		q.wakeup = make(chan struct{})
 	}
 }
 
@@ -75,27 +72,23 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
 			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
 		}
-		// 走到这里表示需要等待了，则需要告诉Push()在有新元素时要通知
-		atomic.StoreInt32(&q.sleeping, 1)
+		// 走到这里表示需要等待了，push()在有新的队头时会关闭这个通道
+		wakeup := q.wakeup
 		q.mutex.Unlock()
 
 		// 不为空，需要同时等待元素到期，并且除非t到期，否则都需要关闭t避免泄露
 		if t != nil {
 			select {
-			case <-q.wakeup: // 新的更快到期元素
+			case <-wakeup: // 新的更快到期元素
 				t.Stop()
 			case <-t.C: // 首元素到期
-				if atomic.SwapInt32(&q.sleeping, 0) == 0 {
-					// 避免Push()的协程被阻塞
-					<-q.wakeup
-				}
 			case <-ctx.Done(): // 被关闭
 				t.Stop()
 				return nil
 			}
 		} else {
 			select {
-			case <-q.wakeup: // 新的更快到期元素
+			case <-wakeup: // 新的更快到期元素
 			case <-ctx.Done(): // 被关闭
 				return nil
 			}
-- 
2.43.0


From b14cdca34893d281094c1a3aec1590f39e3d2ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:41 +0000
Subject: [PATCH 08/29] fix: timing wheel handles buckets in order and never
 reuses a pending one

Buckets popped ahead of time sat in a channel: they were lost when the run was
cancelled, a nil bucket was used when the channel closed, and an adder that
was overtaken by the wheel could put a bucket with a later expiration behind
them, which was then flushed a whole turn early or deadlocked on its own mutex.
Take one bucket at a time and keep adding and advancing apart.
---
 common/timer/timingwheel/bucket.go       |  6 ++--
 common/timer/timingwheel/delayqueue.go   | 32 ++++++-----------
 common/timer/timingwheel/timing_wheel.go | 45 ++++++++++++++++--------
 3 files changed, 46 insertions(+), 37 deletions(-)

diff --git a/common/timer/timingwheel/bucket.go b/common/timer/timingwheel/bucket.go
index 0ef049b..4aa7dfc 100644
--- a/common/timer/timingwheel/bucket.go
+++ b/common/timer/timingwheel/bucket.go
@@ -68,7 +68,7 @@ func newBucket() *bucket {
 }
 
 // 添加到上一级定时器或执行任务
-func (b *bucket) flush(addOrRun func(t *Timer)) {
+func (b *bucket) flush(add func(t *Timer) bool) {
 	b.mutex.Lock()
 	defer b.mutex.Unlock()
 
@@ -79,7 +79,9 @@ func (b *bucket) flush(addOrRun func(t *Timer)) {
 			t.setBucket(nil)
 			t.elem = nil
 		}
-		addOrRun(t)
+		if !add(t) {
+			go t.task()
+		}
 		elem = next
 	}
 
diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index cce7d9a..756a83f 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -96,26 +96,16 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 	}
 }
 
-// channel
-//  @Description:  返回一个通道，输出到期元素
+// poll
+//  @Description:  取出不晚于expiration到期的首元素，没有则返回nil
 //  @receiver q
-//  @param ctx
-//  @param size
-//  @param nowF
-//  @return <-chan
-//  @Author  ahKevinXy
-//  @Date2023-03-29 18:24:27
-func (q *delayQueue) channel(ctx context.Context, size int, nowF func() int64) <-chan *bucket {
-	out := make(chan *bucket, size)
-	go func() {
-		for {
-			entry := q.take(ctx, nowF)
-			if entry == nil {
-				close(out)
-				return
-			}
-			out <- entry
-		}
-	}()
-	return out
+//  @param expiration
+//  @return *bucket
+func (q *delayQueue) poll(expiration int64) *bucket {
+	q.mutex.Lock()
+	defer q.mutex.Unlock()
+	if q.h.Empty() || q.h.Peek().getExpiration() > expiration {
+		return nil
+	}
+	return q.h.Pop()
 }
diff --git a/common/timer/timingwheel/timing_wheel.go b/common/timer/timingwheel/timing_wheel.go
index 73507a5..9180107 100644
--- a/common/timer/timingwheel/timing_wheel.go
+++ b/common/timer/timingwheel/timing_wheel.go
@@ -2,13 +2,12 @@ package timingwheel
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 	"time"
 	"unsafe"
 )
 
-const delayQueueBufferSize = 10 // 延迟队列缓冲区大小
-
 // TimingWheel
 //  @Description:   基于https://github.com/RussellLuo/timingwheel的实现
 //  @Author  ahKevinXy
@@ -21,6 +20,7 @@ type TimingWheel struct {
 	buckets       []*bucket      // 时间轮的每个桶
 	queue         *delayQueue    //桶延迟队列
 	overflowWheel unsafe.Pointer // 下一个时间轮
+	mutex         sync.RWMutex   // 添加定时器（读锁）与前进时间（写锁）互斥，只用最底层时间轮的
 }
 
 func newTimingWheel(tick, wheelSize, currentTime int64, queue *delayQueue) *TimingWheel {
@@ -49,20 +49,34 @@ func New(tick, wheelSize int64) *TimingWheel {
 //  @Author  ahKevinXy
 //  @Date2023-03-29 18:27:09
 func (tw *TimingWheel) Run(ctx context.Context) {
-	bucketChan := tw.queue.channel(ctx, delayQueueBufferSize, func() int64 {
-		return time.Now().UnixMilli()
-	})
-	for {
-		select {
-		case b := <-bucketChan: // 桶到期
-			// 前进当前时间
-			tw.advance(b.expiration)
-			// 处理桶
-			b.flush(tw.addOrRun)
-		case <-ctx.Done(): // 被关闭
+	for ctx.Err() == nil {
+		b := tw.queue.take(ctx, func() int64 {
+			return time.Now().UnixMilli()
+		})
+		if b == nil { // 被关闭
 			return
 		}
+		tw.expire(b)
+	}
+}
+
+// expire
+//  @Description:  处理到期的桶
+//  @receiver tw
+//  @param b
+func (tw *TimingWheel) expire(b *bucket) {
+	tw.mutex.Lock()
+	defer tw.mutex.Unlock()
+	// 取出b之后可能又加入了更早到期的桶，时间只能按顺序前进
+	expiration := b.getExpiration()
+	for e := tw.queue.poll(expiration); e != nil; e = tw.queue.poll(expiration) {
+		tw.advance(e.getExpiration())
+		e.flush(tw.add)
 	}
+	// 前进当前时间
+	tw.advance(expiration)
+	// 处理桶
+	b.flush(tw.add)
 }
 
 // AfterFunc
@@ -152,7 +166,10 @@ func (tw *TimingWheel) add(t *Timer) bool {
 //  @Author  ahKevinXy
 //  @Date2023-03-29 18:28:25
 func (tw *TimingWheel) addOrRun(t *Timer) {
-	if !tw.add(t) {
+	tw.mutex.RLock()
+	added := tw.add(t)
+	tw.mutex.RUnlock()
+	if !added {
 		go t.task()
 	}
 }
-- 
2.43.0


From 7b87df07a1bc8eb06389f32af7e8506ef98a6233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:51 +0000
Subject: [PATCH 09/29] fix: stopping a timing wheel timer while it moves
 between levels

A flush left the timer without a bucket until it was in its next one; a Stop in
between returned false although the task was still to run.
---
 common/timer/timingwheel/bucket.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/timer/timingwheel/bucket.go b/common/timer/timingwheel/bucket.go
index 4aa7dfc..7736564 100644
--- a/common/timer/timingwheel/bucket.go
+++ b/common/timer/timingwheel/bucket.go
@@ -75,11 +75,10 @@ func (b *bucket) flush(add func(t *Timer) bool) {
 	for elem := b.timers.Front(); elem != nil; {
 		next := elem.Next()
 		t := elem.Value
-		if t.getBucket() == b {
+		// 加入到上一级之前一直属于这个桶，Stop()会等到它有了新的桶
+		if !add(t) {
 			t.setBucket(nil)
 			t.elem = nil
-		}
-		if !add(t) {
 			go t.task()
 		}
 		elem = next
-- 
2.43.0


From 8f35f5fd92ed88b6124b87a31386a5473f5da7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:45 +0000
Subject: [PATCH 10/29] fix: ring buffers are safe for one producer and one
 consumer

Push published the index before the element was written, the indexes were read
and written without synchronisation, and bulk operations read the length or
space twice, so that they could take more than was asked for or panic.
---
 common/container/ringbuffer/fix/fix.go    | 31 +++++++++----------
 common/container/ringbuffer/round/roud.go | 36 +++++++++++++----------
 2 files changed, 36 insertions(+), 31 deletions(-)

diff --git a/common/container/ringbuffer/fix/fix.go b/common/container/ringbuffer/fix/fix.go
index 16cd812..19c6473 100644
--- a/common/container/ringbuffer/fix/fix.go
+++ b/common/container/ringbuffer/fix/fix.go
@@ -2,6 +2,7 @@ package fix
 
 import (
 	"math"
+	"sync/atomic"
 
 	mmath "github.com/ahKevinXy/go-web-tools/common/math"
 )
@@ -42,9 +43,9 @@ func (r *Ring[T]) Pop() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	out := r.out % r.size
-	r.out++
-	return r.data[out]
+	e := r.data[r.out%r.size]
+	atomic.AddUint64(&r.out, 1)
+	return e
 }
 
 // 队头元素
@@ -60,17 +61,17 @@ func (r *Ring[T]) Push(e T) {
 	if r.Full() {
 		panic("ring full")
 	}
-	in := r.in % r.size
-	r.in++
-	r.data[in] = e
+	// 先写数据再更新索引，消费者看到索引时数据已经写好
+	r.data[r.in%r.size] = e
+	atomic.AddUint64(&r.in, 1)
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
 	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
@@ -79,13 +80,13 @@ func (r *Ring[T]) MPush(elems ...T) {
 	in := r.in % r.size
 	copied := copy(r.data[in:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.AddUint64(&r.in, size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	if length := r.Len(); size > length {
+		size = length
 	}
 	if size == 0 {
 		return nil
@@ -94,7 +95,7 @@ func (r *Ring[T]) MPop(size uint64) []T {
 	elems := make([]T, size)
 	copied := copy(elems, r.data[out:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.AddUint64(&r.out, size)
 	return elems
 }
 
@@ -104,7 +105,7 @@ func (r *Ring[T]) MPopCopy(dst []T) {
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.AddUint64(&r.out, uint64(copied))
 }
 
 // 重置读写指针
@@ -121,7 +122,7 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	return atomic.LoadUint64(&r.in) - atomic.LoadUint64(&r.out)
 }
 
 // 可用长度
@@ -131,7 +132,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return atomic.LoadUint64(&r.in) == atomic.LoadUint64(&r.out)
 }
 
 // 是否满了
diff --git a/common/container/ringbuffer/round/roud.go b/common/container/ringbuffer/round/roud.go
index 9512d70..c227416 100644
--- a/common/container/ringbuffer/round/roud.go
+++ b/common/container/ringbuffer/round/roud.go
@@ -1,6 +1,10 @@
 package round
 
-import "github.com/ahKevinXy/go-web-tools/common/math"
+import (
+	"sync/atomic"
+
+	"github.com/ahKevinXy/go-web-tools/common/math"
+)
 
 // 最大长度
 const MaxSize = 1 << 62
@@ -36,9 +40,9 @@ func (r *Ring[T]) Pop() T {
 	if r.Empty() {
 		panic("ring emtpy")
 	}
-	out := r.out & r.mask
-	r.out++
-	return r.data[out]
+	e := r.data[r.out&r.mask]
+	atomic.AddUint64(&r.out, 1)
+	return e
 }
 
 // 队头元素
@@ -54,17 +58,17 @@ func (r *Ring[T]) Push(e T) {
 	if r.Full() {
 		panic("ring full")
 	}
-	in := r.in & r.mask
-	r.in++
-	r.data[in] = e
+	// 先写数据再更新索引，消费者看到索引时数据已经写好
+	r.data[r.in&r.mask] = e
+	atomic.AddUint64(&r.in, 1)
 }
 
 // 写入队尾
 func (r *Ring[T]) MPush(elems ...T) {
 	size := uint64(len(elems))
 	// 不能大于剩余长度
-	if size > r.Avail() {
-		size = r.Avail()
+	if avail := r.Avail(); size > avail {
+		size = avail
 		elems = elems[:size]
 	}
 	if size == 0 {
@@ -73,13 +77,13 @@ func (r *Ring[T]) MPush(elems ...T) {
 	in := r.in & r.mask
 	copied := copy(r.data[in:], elems)
 	copy(r.data, elems[copied:])
-	r.in += size
+	atomic.AddUint64(&r.in, size)
 }
 
 // 从队头读取
 func (r *Ring[T]) MPop(size uint64) []T {
-	if size > r.Len() {
-		size = r.Len()
+	if length := r.Len(); size > length {
+		size = length
 	}
 	if size == 0 {
 		return nil
@@ -88,7 +92,7 @@ func (r *Ring[T]) MPop(size uint64) []T {
 	elems := make([]T, size)
 	copied := copy(elems, r.data[out:])
 	copy(elems[copied:], r.data)
-	r.out += size
+	atomic.AddUint64(&r.out, size)
 	return elems
 }
 
@@ -98,7 +102,7 @@ func (r *Ring[T]) MPopCopy(dst []T) {
 	dst = dst[:math.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
 	copied += copy(dst[copied:], r.data)
-	r.out += uint64(copied)
+	atomic.AddUint64(&r.out, uint64(copied))
 }
 
 // 重置读写指针
@@ -115,7 +119,7 @@ func (r *Ring[T]) Cap() uint64 {
 
 // 使用长度
 func (r *Ring[T]) Len() uint64 {
-	return r.in - r.out
+	return atomic.LoadUint64(&r.in) - atomic.LoadUint64(&r.out)
 }
 
 // 可用长度
@@ -125,7 +129,7 @@ func (r *Ring[T]) Avail() uint64 {
 
 // 是否为空
 func (r *Ring[T]) Empty() bool {
-	return r.in == r.out
+	return atomic.LoadUint64(&r.in) == atomic.LoadUint64(&r.out)
 }
 
 // 是否满了
-- 
2.43.0


From 541a6548925e17aa8a2ea98993074a5284fa096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:12 +0000
Subject: [PATCH 11/29] fix: resumable upload keeps whole chunks and merges
 exactly them

A chunk or a merged file is written aside and renamed, so a failed write or a
crash leaves nothing partial; merging reports a missing or unreadable chunk and
replaces what an earlier merge left instead of appending to it.
---
 help/utils/breakpoint_continue.go | 73 +++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 23 deletions(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 816de58..827510e 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -3,9 +3,10 @@ package utils
 import (
 	"crypto/md5"
 	"encoding/hex"
-	"io/ioutil"
 	"os"
+	"path/filepath"
 	"strconv"
+	"strings"
 )
 
 const (
@@ -45,39 +46,65 @@ func CheckMd5(content []byte, chunkMd5 string) (CanUpload bool) {
 
 func makeFileContent(content []byte, fileName string, FileDir string, contentNumber int) (string, error) {
 	path := FileDir + fileName + "_" + strconv.Itoa(contentNumber)
-	f, err := os.Create(path)
+	return path, replaceFile(path, func(f *os.File) error {
+		_, err := f.Write(content)
+		return err
+	})
+}
+
+// replaceFile
+//  @Description:  先写入临时文件再改名，失败或崩溃时path不会只有部分内容
+//  @param path
+//  @param write
+//  @return error
+func replaceFile(path string, write func(f *os.File) error) error {
+	f, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+".tmp*")
 	if err != nil {
-		return path, err
-	} else {
-		_, err = f.Write(content)
-		if err != nil {
-			return path, err
-		}
+		return err
+	}
+	err = write(f)
+	if err == nil {
+		err = f.Chmod(0o644)
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
 	}
-	defer f.Close()
-	return path, nil
+	if err == nil {
+		err = os.Rename(f.Name(), path)
+	}
+	if err != nil {
+		_ = os.Remove(f.Name())
+	}
+	return err
 }
 
 func MakeFile(fileName string, FileMd5 string) (string, error) {
-	rd, err := ioutil.ReadDir(breakpointDir + FileMd5)
+	rd, err := os.ReadDir(breakpointDir + FileMd5)
 	if err != nil {
 		return finishDir + fileName, err
 	}
 	_ = os.MkdirAll(finishDir, os.ModePerm)
-	fd, err := os.OpenFile(finishDir+fileName, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
-	if err != nil {
-		return finishDir + fileName, err
-	}
-	defer fd.Close()
-	for k := range rd {
-		content, _ := ioutil.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
-		_, err = fd.Write(content)
-		if err != nil {
-			_ = os.Remove(finishDir + fileName)
-			return finishDir + fileName, err
+	// 目录里可能还有其他文件，只看这个文件的切片，缺少切片时读取会失败
+	total := 0
+	for _, entry := range rd {
+		number := strings.TrimPrefix(entry.Name(), fileName+"_")
+		if k, err := strconv.Atoi(number); err == nil && k >= total && entry.Name() == fileName+"_"+strconv.Itoa(k) {
+			total = k + 1
 		}
 	}
-	return finishDir + fileName, nil
+	err = replaceFile(finishDir+fileName, func(fd *os.File) error {
+		for k := 0; k < total; k++ {
+			content, err := os.ReadFile(breakpointDir + FileMd5 + "/" + fileName + "_" + strconv.Itoa(k))
+			if err != nil {
+				return err
+			}
+			if _, err = fd.Write(content); err != nil {
+				return err
+			}
+		}
+		return nil
+	})
+	return finishDir + fileName, err
 }
 
 func RemoveChunk(FileMd5 string) error {
-- 
2.43.0


From f5b7f42855d94d4963e90cf8ea1296d689d2b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 12/29] fix: CopyFile cuts off the rest of a longer destination
 and reports a failing close

---
 help/utils/files.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/help/utils/files.go b/help/utils/files.go
index 9c0d393..35f9649 100644
--- a/help/utils/files.go
+++ b/help/utils/files.go
@@ -207,8 +207,21 @@ func CopyFile(dstName, srcName string) (written int64, err error) {
 		return
 	}
 
-	defer dst.Close()
-	return io.Copy(dst, src)
+	defer func() {
+		if closeErr := dst.Close(); err == nil {
+			err = closeErr
+		}
+	}()
+	written, err = io.Copy(dst, src)
+	if err != nil {
+		return
+	}
+	// 目标文件原来更长时去掉多余的内容
+	info, err := dst.Stat()
+	if err == nil && info.Size() > written {
+		err = dst.Truncate(written)
+	}
+	return
 }
 
 // ImageFileToBase64  图片文件转 base64
-- 
2.43.0


From c28143a4e98a53b54454d7d220bbaa9299e27de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:23 +0000
Subject: [PATCH 13/29] fix: Unzip refuses entries that lead out of the
 destination directory

---
 help/utils/zip.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index 6ca6f48..ef1896d 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -2,6 +2,7 @@ package utils
 
 import (
 	"archive/zip"
+	"errors"
 	"io"
 	"os"
 	"path/filepath"
@@ -26,6 +27,11 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 
 	for _, f := range zipReader.File {
 		fpath := filepath.Join(destDir, f.Name)
+		// 不允许解压到目标目录之外
+		rel, err := filepath.Rel(destDir, fpath)
+		if err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return []string{}, errors.New("illegal file path: " + f.Name)
+		}
 		paths = append(paths, fpath)
 		if f.FileInfo().IsDir() {
 			os.MkdirAll(fpath, os.ModePerm)
-- 
2.43.0


From 4dc1c9098beb9f4db100609fd756531e911a0346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:27 +0000
Subject: [PATCH 14/29] fix: zip and unzip report failures to create a
 directory or to close a file

---
 help/utils/zip.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/help/utils/zip.go b/help/utils/zip.go
index ef1896d..648ca34 100644
--- a/help/utils/zip.go
+++ b/help/utils/zip.go
@@ -34,7 +34,9 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 		}
 		paths = append(paths, fpath)
 		if f.FileInfo().IsDir() {
-			os.MkdirAll(fpath, os.ModePerm)
+			if err = os.MkdirAll(fpath, os.ModePerm); err != nil {
+				return []string{}, err
+			}
 		} else {
 			if err = os.MkdirAll(filepath.Dir(fpath), os.ModePerm); err != nil {
 				return []string{}, err
@@ -50,9 +52,11 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 			if err != nil {
 				return []string{}, err
 			}
-			defer outFile.Close()
 
 			_, err = io.Copy(outFile, inFile)
+			if closeErr := outFile.Close(); err == nil {
+				err = closeErr
+			}
 			if err != nil {
 				return []string{}, err
 			}
@@ -70,18 +74,22 @@ func Unzip(zipFile string, destDir string) ([]string, error) {
 //  @return error
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:46:02
-func ZipFiles(filename string, files []string, oldForm, newForm string) error {
+func ZipFiles(filename string, files []string, oldForm, newForm string) (err error) {
 	newZipFile, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
 	defer func() {
-		_ = newZipFile.Close()
+		if closeErr := newZipFile.Close(); err == nil {
+			err = closeErr
+		}
 	}()
 
 	zipWriter := zip.NewWriter(newZipFile)
 	defer func() {
-		_ = zipWriter.Close()
+		if closeErr := zipWriter.Close(); err == nil {
+			err = closeErr
+		}
 	}()
 
 	// 把files添加到zip中
-- 
2.43.0


From 8b8a62ffa045dc67b497044240974426938d882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 15/29] fix: WriteCsv writes the given row, whole or not at all

It wrote a constant row, ignored failing writes and closes, left parts of a row
that could not be written for the next one to be glued to, and rows written at
the same time overwrote each other.
---
 help/utils/csv.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/help/utils/csv.go b/help/utils/csv.go
index b46d7bf..298470c 100644
--- a/help/utils/csv.go
+++ b/help/utils/csv.go
@@ -1,11 +1,15 @@
 package utils
 
 import (
+	"bytes"
 	"encoding/csv"
 	"io"
 	"os"
+	"sync"
 )
 
+var csvMutex sync.Mutex
+
 // ReadCsv
 //  @Description:   读取CSV文件
 //  @param path
@@ -37,26 +41,39 @@ func ReadCsv(path string) *[][]string {
 //  @return error
 //  @Author  ahKevinXy
 //  @Date2023-04-04 14:52:34
-func WriteCsv(path string, content []string) error {
+func WriteCsv(path string, content []string) (err error) {
+	// 依次追加，写入失败时可以恢复原来的长度
+	csvMutex.Lock()
+	defer csvMutex.Unlock()
 
 	nfs, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)
 	if err != nil {
 		return err
 	}
-	defer nfs.Close()
+	defer func() {
+		if closeErr := nfs.Close(); err == nil {
+			err = closeErr
+		}
+	}()
 
-	nfs.Seek(0, io.SeekEnd)
+	size, err := nfs.Seek(0, io.SeekEnd)
+	if err != nil {
+		return err
+	}
 
-	w := csv.NewWriter(nfs)
+	var buf bytes.Buffer
+	w := csv.NewWriter(&buf)
 	w.Comma = ','
 	w.UseCRLF = true
-	row := []string{"1", "2", "3", "4", "5,6"}
-	err = w.Write(row)
+	err = w.Write(content)
 	if err != nil {
 		return err
 	}
 	//这里必须刷新，才能将数据写入文件。
 	w.Flush()
-
-	return nil
+	_, err = nfs.Write(buf.Bytes())
+	if err != nil {
+		_ = nfs.Truncate(size)
+	}
+	return err
 }
-- 
2.43.0


From 2b88be5015898f1509a7317ffbd97d9ff831a286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:19 +0000
Subject: [PATCH 16/29] fix: ComputeFileMD5 gives no digest when the stream
 breaks off

---
 help/utils/md5.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index dad633a..9c0e539 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -28,7 +28,9 @@ func Md5Crypt(str string) string {
 // @Date 2022-12-01 11:50:26
 func ComputeFileMD5(file io.Reader) string {
 	md5h := md5.New()
-	io.Copy(md5h, file)
+	if _, err := io.Copy(md5h, file); err != nil {
+		return ""
+	}
 	return fmt.Sprintf("%x", md5h.Sum(nil))
 }
 
-- 
2.43.0


From d47f5df0628c95ab1cf9ecf67ec88ef8f7f6d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:51 +0000
Subject: [PATCH 17/29] fix: batch insert stores every field of every record

The column list came from the first record alone: fields that only later
records have were dropped without an error, and the number of records per
statement was computed from the first record's width.
---
 gorm_tools/gorm.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/gorm_tools/gorm.go b/gorm_tools/gorm.go
index 7e13ea2..5044830 100644
--- a/gorm_tools/gorm.go
+++ b/gorm_tools/gorm.go
@@ -103,16 +103,22 @@ func SplitInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 		return nil
 	}
 
-	// 获取record长度
-	recordMap, err := dumpStructToMapForInsert(records[0], table)
-	if err != nil {
-		return err
+	// 获取record长度, 各记录的字段可能不同, 取全部字段
+	fields := make(map[string]struct{})
+	for _, record := range records {
+		recordMap, err := dumpStructToMapForInsert(record, table)
+		if err != nil {
+			return err
+		}
+		for key := range recordMap {
+			fields[key] = struct{}{}
+		}
 	}
-	if len(recordMap) == 0 {
+	if len(fields) == 0 {
 		return nil
 	}
 	// 由于数据库占位符长度限制,需要动态限制
-	maxInsertLen := 65000 / len(recordMap)
+	maxInsertLen := 65000 / len(fields)
 
 	for len(records) != 0 {
 		insertLen := len(records)
@@ -148,8 +154,14 @@ func BatchInsertTableRecords(db *gorm.DB, table string, records ...interface{})
 
 	//以一定的顺序收集字段名字
 	fieldName := make([]string, 0, len(recordMap[0]))
-	for key := range recordMap[0] {
-		fieldName = append(fieldName, key)
+	exist := make(map[string]struct{}, len(recordMap[0]))
+	for _, item := range recordMap {
+		for key := range item {
+			if _, ok := exist[key]; !ok {
+				exist[key] = struct{}{}
+				fieldName = append(fieldName, key)
+			}
+		}
 	}
 
 	//按上面收集到的字段名字顺序，查找对应的value
-- 
2.43.0


From 2d32a6aae946a9fe899cf83116f934e893ae66fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:20 +0000
Subject: [PATCH 18/29] fix: batch update refuses rows with additional fields

Whether a field that not every row names was refused or silently dropped
depended on which row the map iteration visited first.
---
 gorm_tools/update.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorm_tools/update.go b/gorm_tools/update.go
index 2a9b664..271da74 100644
--- a/gorm_tools/update.go
+++ b/gorm_tools/update.go
@@ -60,7 +60,7 @@ func BatchUpdateTableFieldWithoutVersionByID(db *gorm.DB, tableName string, idUp
 		caseSQL += field + "= case "
 		for id, updateMap := range idUpdateMap {
 			value, ok := updateMap[field]
-			if !ok {
+			if !ok || len(updateMap) != len(updateField) {
 				return fmt.Errorf("update field must equal")
 			}
 			caseSQL += "when id = ? then ? "
-- 
2.43.0


From f57715cc9fa96777d6e9628dfc8cd54fb859b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 19/29] fix: RandStr seeds the generator once

Seeding it with the clock on every call made calls that read the same
time, or that overlapped, return the same string.
---
 help/utils/rand.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/help/utils/rand.go b/help/utils/rand.go
index ef27ac7..0c35a00 100644
--- a/help/utils/rand.go
+++ b/help/utils/rand.go
@@ -2,9 +2,13 @@ package utils
 
 import (
 	"math/rand"
+	"sync"
 	"time"
 )
 
+// seedOnce 只设置一次随机种子, 每次调用都设置会在时钟读数相同时得到相同的字符串
+var seedOnce sync.Once
+
 // RandStr
 //  @Description:  获取随机数
 //  @param size
@@ -18,7 +22,9 @@ func RandStr(size int, kind int) string {
 
 	isAll := kind > 2 || kind < 0
 
-	rand.Seed(time.Now().UnixNano())
+	seedOnce.Do(func() {
+		rand.Seed(time.Now().UnixNano())
+	})
 	for i := 0; i < size; i++ {
 		if isAll {
 			ikind = rand.Intn(3)
-- 
2.43.0


From 7f9657aa0b0358ba6bcd2124c3e03da8bffe008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 20/29] fix: AesEncrypt does not write behind the caller's
 slice

The padding was appended in place when the slice had spare capacity.
---
 help/utils/md5.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index 9c0e539..1cab155 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -77,7 +77,8 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 func pkcs7Padding(data []byte, blockSize int) []byte {
 	padding := blockSize - len(data)%blockSize
 	padText := bytes.Repeat([]byte{byte(padding)}, padding)
-	return append(data, padText...)
+	// 限制容量, 避免写入调用方 data 之后的内存
+	return append(data[:len(data):len(data)], padText...)
 }
 
 func pkcs7UnPadding(data []byte) ([]byte, error) {
-- 
2.43.0


From 00b9e80e4a7e82495a5b11ed09156c8e2dac76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 21/29] fix: MD5V does not write behind the caller's slice

---
 help/utils/breakpoint_continue.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/help/utils/breakpoint_continue.go b/help/utils/breakpoint_continue.go
index 827510e..67f8787 100644
--- a/help/utils/breakpoint_continue.go
+++ b/help/utils/breakpoint_continue.go
@@ -119,5 +119,6 @@ func RemoveChunk(FileMd5 string) error {
 func MD5V(str []byte, b ...byte) string {
 	h := md5.New()
 	h.Write(str)
-	return hex.EncodeToString(h.Sum(b))
+	// 限制容量, 避免写入调用方 b 之后的内存
+	return hex.EncodeToString(h.Sum(b[:len(b):len(b)]))
 }
-- 
2.43.0


From 135b92086f323f374234ae5e09948d476e7000fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 22/29] fix: the zero List is ready to use

---
 common/container/list/list.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/common/container/list/list.go b/common/container/list/list.go
index ca335fe..128fab8 100644
--- a/common/container/list/list.go
+++ b/common/container/list/list.go
@@ -58,6 +58,13 @@ func (l *List[T]) Clear() *List[T] {
 	return l
 }
 
+// lazyInit lazily initializes a zero List value.
+func (l *List[T]) lazyInit() {
+	if l.root.next == nil {
+		l.Clear()
+	}
+}
+
 // New returns an initialized list.
 func New[T any]() *List[T] { return new(List[T]).Clear() }
 
@@ -145,11 +152,13 @@ func (l *List[T]) RemoveBack() T {
 
 // PushFront inserts a new element e with value v at the front of list l and returns e.
 func (l *List[T]) PushFront(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, &l.root)
 }
 
 // PushBack inserts a new element e with value v at the back of list l and returns e.
 func (l *List[T]) PushBack(v T) *Element[T] {
+	l.lazyInit()
 	return l.insertValue(v, l.root.prev)
 }
 
@@ -220,6 +229,7 @@ func (l *List[T]) MoveAfter(e, mark *Element[T]) {
 // PushBackList inserts a copy of another list at the back of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushBackList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Front(); i > 0; i, e = i-1, e.Next() {
 		l.insertValue(e.Value, l.root.prev)
 	}
@@ -228,6 +238,7 @@ func (l *List[T]) PushBackList(other *List[T]) {
 // PushFrontList inserts a copy of another list at the front of list l.
 // The lists l and other may be the same. They must not be nil.
 func (l *List[T]) PushFrontList(other *List[T]) {
+	l.lazyInit()
 	for i, e := other.Len(), other.Back(); i > 0; i, e = i-1, e.Prev() {
 		l.insertValue(e.Value, &l.root)
 	}
-- 
2.43.0


From 8d3dc7947a6c690dddbcfd1a342466e3bf3fdca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 23/29] fix: HeapN looks at all n children

---
 common/container/heap/heapn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/container/heap/heapn.go b/common/container/heap/heapn.go
index 33c7c6b..dd93c44 100644
--- a/common/container/heap/heapn.go
+++ b/common/container/heap/heapn.go
@@ -88,7 +88,7 @@ func (h *HeapN[T]) down(i0, n int) bool {
 			break
 		}
 		j := k // first child
-		for j1 := k + 1; j1 < k+4 && j1 < n; j1++ {
+		for j1 := k + 1; j1 < k+h.n && j1 < n; j1++ {
 			if h.less(j1, j) {
 				j = j1
 			}
-- 
2.43.0


From 72ba961e6e29471ce9adafd32464e2b5b3ca69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:54 +0000
Subject: [PATCH 24/29] fix: Ring.MPopCopy on a ring without capacity

---
 common/container/ringbuffer/unbounded/unbounded.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/container/ringbuffer/unbounded/unbounded.go b/common/container/ringbuffer/unbounded/unbounded.go
index 1a892c0..06f8592 100644
--- a/common/container/ringbuffer/unbounded/unbounded.go
+++ b/common/container/ringbuffer/unbounded/unbounded.go
@@ -90,6 +90,9 @@ func (r *Ring[T]) MPop(size uint64) []T {
 
 // 从队头读取，填充到dst里
 func (r *Ring[T]) MPopCopy(dst []T) {
+	if r.Empty() {
+		return
+	}
 	out := r.out % r.size
 	dst = dst[:mmath.Min(uint64(len(dst)), r.Len())]
 	copied := copy(dst, r.data[out:])
-- 
2.43.0


From c288f990248058e3f8d8facecd9c07cd1aec7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 25/29] fix: AesDecrypt refuses damaged data instead of
 panicking

---
 help/utils/md5.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/help/utils/md5.go b/help/utils/md5.go
index 1cab155..e678bcb 100644
--- a/help/utils/md5.go
+++ b/help/utils/md5.go
@@ -64,10 +64,14 @@ func AesDecrypt(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	blockSize := block.BlockSize()
+	// 长度不是块大小的整数倍, 说明密文不完整
+	if len(data)%blockSize != 0 {
+		return nil, errors.New("encrypt error")
+	}
 	blockMode := cipher.NewCBCDecrypter(block, key[:blockSize])
 	crypted := make([]byte, len(data))
 	blockMode.CryptBlocks(crypted, data)
-	crypted, err = pkcs7UnPadding(crypted)
+	crypted, err = pkcs7UnPadding(crypted, blockSize)
 	if err != nil {
 		return nil, err
 	}
@@ -81,11 +85,15 @@ func pkcs7Padding(data []byte, blockSize int) []byte {
 	return append(data[:len(data):len(data)], padText...)
 }
 
-func pkcs7UnPadding(data []byte) ([]byte, error) {
+func pkcs7UnPadding(data []byte, blockSize int) ([]byte, error) {
 	length := len(data)
 	if length == 0 {
 		return nil, errors.New("encrypt error")
 	}
 	unPadding := int(data[length-1])
+	// 填充长度只可能在 1 到块大小之间
+	if unPadding < 1 || unPadding > blockSize {
+		return nil, errors.New("encrypt error")
+	}
 	return data[:(length - unPadding)], nil
 }
-- 
2.43.0


From 55e9f38cf138d31c6ea569e0a0f11603260863be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 26/29] fix: the Bloom filter keeps its false positive rate

---
 common/filter/bloom/bloom.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/common/filter/bloom/bloom.go b/common/filter/bloom/bloom.go
index 6f4207d..ccba299 100644
--- a/common/filter/bloom/bloom.go
+++ b/common/filter/bloom/bloom.go
@@ -99,7 +99,7 @@ func (f *Filter) Len() uint64 {
 // 获取对应元素下标和偏移
 func (f *Filter) pos(h, seed uint64) (uint64, uint64) {
 	// 按照位计算的偏移
-	bitsIndex := (h ^ seed) % f.bitCnt
+	bitsIndex := mix(h^seed) % f.bitCnt
 	// 因为一个元素64位，因此需要转换
 	index := bitsIndex / uint64Bits
 	// 在一个元素里面的偏移
@@ -107,6 +107,17 @@ func (f *Filter) pos(h, seed uint64) (uint64, uint64) {
 	return index, offset
 }
 
+// 打散所有位(murmur3 finalizer)
+// 直接取模时，不同种子得到的位置是相关的(bitCnt是2的幂时尤其明显)，误判率会远高于预期
+func mix(x uint64) uint64 {
+	x ^= x >> 33
+	x *= 0xff51afd7ed558ccd
+	x ^= x >> 33
+	x *= 0xc4ceb9fe1a85ec53
+	x ^= x >> 33
+	return x
+}
+
 // 计算哈希值
 func (f *Filter) hash(b []byte) uint64 {
 	fnvHash := fnv.New64()
-- 
2.43.0


From 9d598a493127c722bd6d312a5ea6b15aba0e21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 27/29] fix: the leaky bucket drains at any velocity

---
 common/limiter/leaky_bucket/leaky_bucket_limiter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/limiter/leaky_bucket/leaky_bucket_limiter.go b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
index 58acd0a..1ae27e9 100644
--- a/common/limiter/leaky_bucket/leaky_bucket_limiter.go
+++ b/common/limiter/leaky_bucket/leaky_bucket_limiter.go
@@ -32,7 +32,13 @@ func (l *LeakyBucketLimiter) TryAcquire() bool {
 	interval := now.Sub(l.lastTime)
 	if interval >= time.Second {
 		// 当前水位-距离上次放水的时间(秒)*水流速度
-		l.currentLevel = maxInt(0, l.currentLevel-int(interval/time.Second)*l.currentVelocity)
+		seconds := int(interval / time.Second)
+		if l.currentVelocity > 0 && seconds > l.currentLevel/l.currentVelocity {
+			// 已经流完，避免乘法溢出
+			l.currentLevel = 0
+		} else {
+			l.currentLevel = maxInt(0, l.currentLevel-seconds*l.currentVelocity)
+		}
 		// 只推进整秒，不足一秒的时间留到下次
 		l.lastTime = l.lastTime.Add(interval.Truncate(time.Second))
 	}
-- 
2.43.0


From efa30eeb91b32b7cdc18a42673820c3772eb094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:17 +0000
Subject: [PATCH 28/29] fix: the token bucket fills at any rate

---
 common/limiter/token_bucket/token_bucket.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/limiter/token_bucket/token_bucket.go b/common/limiter/token_bucket/token_bucket.go
index 2fd00f5..6aa934d 100644
--- a/common/limiter/token_bucket/token_bucket.go
+++ b/common/limiter/token_bucket/token_bucket.go
@@ -32,7 +32,13 @@ func (l *TokenBucketLimiter) TryAcquire() bool {
 	interval := now.Sub(l.lastTime)
 	if interval >= time.Second {
 		// 当前令牌数量+距离上次发放令牌的时间(秒)*发放令牌速率
-		l.currentTokens = minInt(l.capacity, l.currentTokens+int(interval/time.Second)*l.rate)
+		seconds := int(interval / time.Second)
+		if l.rate > 0 && seconds > (l.capacity-l.currentTokens)/l.rate {
+			// 已经装满，避免乘法溢出
+			l.currentTokens = l.capacity
+		} else {
+			l.currentTokens = minInt(l.capacity, l.currentTokens+seconds*l.rate)
+		}
 		// 只推进整秒，不足一秒的时间留到下次
 		l.lastTime = l.lastTime.Add(interval.Truncate(time.Second))
 	}
-- 
2.43.0


From 09925f624a4737dd5ed06d3debb125425e00a770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 29/29] fix: the timing wheel sleeps when the next time is
 centuries away

---
 common/timer/timingwheel/delayqueue.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/common/timer/timingwheel/delayqueue.go b/common/timer/timingwheel/delayqueue.go
index 756a83f..96ab98b 100644
--- a/common/timer/timingwheel/delayqueue.go
+++ b/common/timer/timingwheel/delayqueue.go
@@ -3,10 +3,14 @@ package timingwheel
 import (
 	"context"
 	"github.com/ahKevinXy/go-web-tools/common/container/heap"
+	"math"
 	"sync"
 	"time"
 )
 
+// 一次等待的最大毫秒数，再大会超出time.Duration的范围
+const maxWait = int64(math.MaxInt64 / time.Millisecond)
+
 type delayQueue struct {
 	h      *heap.Heap[*bucket]
 	mutex  sync.Mutex
@@ -70,7 +74,11 @@ func (q *delayQueue) take(ctx context.Context, nowF func() int64) *bucket {
 				return entry
 			}
 			// 到期时间，使用time.NewTimer()才能够调用Stop()，从而释放定时器
-			t = time.NewTimer(time.Duration(expiration-now) * time.Millisecond)
+			wait := expiration - now
+			if wait > maxWait { // 醒来后会继续等待
+				wait = maxWait
+			}
+			t = time.NewTimer(time.Duration(wait) * time.Millisecond)
 		}
 		// 走到这里表示需要等待了，push()在有新的队头时会关闭这个通道
 		wakeup := q.wakeup
-- 
2.43.0


From 3b70da502769e6b1c940b54c04a6b7c8ac53d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:58 +0000
Subject: [PATCH 01/30] fix: HashSet.Add of a present key must not queue it for
 eviction again

A repeated Add put the key into the age list a second time, so a later
eviction removed an absent key and the set grew beyond its maximum.
---
 collections/hash_set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/collections/hash_set.go b/collections/hash_set.go
index c8377c6..9ce29fd 100644
--- a/collections/hash_set.go
+++ b/collections/hash_set.go
@@ -27,6 +27,9 @@ func (s *HashSet[K]) Add(key K) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
 
+	if _, ok := s.m[key]; ok {
+		return
+	}
 	s.m[key] = true
 	s.ml = append(s.ml, key)
 	if s.maxCount > 0 && len(s.m) > s.maxCount {
-- 
2.43.0


From 3859f38bc70c8c0bcbbaa3c3279c885c08d8e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 02/30] fix: TwoKeyMap must not leave stale links or touch zero
 keys

Put with a reused key left the old link behind, and removing an absent key
deleted whatever was stored under the zero value of the other key type.
---
 collections/two_key_map.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/collections/two_key_map.go b/collections/two_key_map.go
index 1b73024..9b66681 100644
--- a/collections/two_key_map.go
+++ b/collections/two_key_map.go
@@ -28,6 +28,13 @@ func NewTwoKeyMap[K1, K2 comparable, V any]() *TwoKeyMap[K1, K2, V] {
 func (m *TwoKeyMap[K1, K2, V]) Put(k1 K1, k2 K2, v V) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	if oldK2, ok := m.k1Tok2[k1]; ok && oldK2 != k2 {
+		delete(m.k2Tok1, oldK2)
+	}
+	if oldK1, ok := m.k2Tok1[k2]; ok && oldK1 != k1 {
+		delete(m.data, oldK1)
+		delete(m.k1Tok2, oldK1)
+	}
 	m.data[k1] = v
 	m.k1Tok2[k1] = k2
 	m.k2Tok1[k2] = k1
@@ -55,16 +62,24 @@ func (m *TwoKeyMap[K1, K2, V]) GetByK2(k2 K2) (v V, ok bool) {
 func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	k2, ok := m.k1Tok2[k1]
+	if !ok {
+		return
+	}
 	delete(m.data, k1)
-	delete(m.k2Tok1, m.k1Tok2[k1])
+	delete(m.k2Tok1, k2)
 	delete(m.k1Tok2, k1)
 }
 
 func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	delete(m.data, m.k2Tok1[k2])
-	delete(m.k1Tok2, m.k2Tok1[k2])
+	k1, ok := m.k2Tok1[k2]
+	if !ok {
+		return
+	}
+	delete(m.data, k1)
+	delete(m.k1Tok2, k1)
 	delete(m.k2Tok1, k2)
 }
 
-- 
2.43.0


From ca0f2b9b0c9f7cd5f1f87116df96a6af71f28efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 03/30] fix: StructUniqSet cleanup must not panic on an empty
 set

The cleaner indexed the first element unconditionally, so a set that was still
empty at the first check interval crashed the process.
---
 collections/struct_uniq_set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 2ce3ff9..4041047 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -77,6 +77,10 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 				return
 			case <-time.After(res.checkInterval):
 				res.elementsMu.RLock()
+				if len(res.ttlElements) == 0 {
+					res.elementsMu.RUnlock()
+					continue
+				}
 				first := res.ttlElements[0]
 				res.elementsMu.RUnlock()
 				if time.Since(first.createdAt) < res.ttl {
-- 
2.43.0


From 1ca0f626f3e552938853141156f032e248ef5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:41 +0000
Subject: [PATCH 04/30] fix: StructUniqSet must not expire a re-added element
 early

Expired elements stayed in the age list when all of them had expired, and
removed elements always did, so the cleaner later deleted a younger element
with the same hash.
---
 collections/struct_uniq_set.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index 4041047..f941dfb 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -87,13 +87,17 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 					continue
 				}
 				res.elementsMu.Lock()
+				expired := len(res.ttlElements)
 				for i, el := range res.ttlElements {
 					if time.Since(el.createdAt) < res.ttl {
-						res.ttlElements = res.ttlElements[i:]
+						expired = i
 						break
 					}
-					delete(res.elements, el.hash)
+					if res.elements[el.hash] == el {
+						delete(res.elements, el.hash)
+					}
 				}
+				res.ttlElements = res.ttlElements[expired:]
 				res.elementsMu.Unlock()
 			}
 		}
-- 
2.43.0


From f67b18f66089ea95ed924fda53921e67e91141c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 05/30] fix: StructUniqSet must use the configured build
 function

WithBuildFunc was stored but never called: every operation hashed with gob.
---
 collections/struct_uniq_set.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/collections/struct_uniq_set.go b/collections/struct_uniq_set.go
index f941dfb..dcc622e 100644
--- a/collections/struct_uniq_set.go
+++ b/collections/struct_uniq_set.go
@@ -106,14 +106,7 @@ func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
 }
 
 func (s *StructUniqSet[V]) getHashCode(v V) ([16]byte, error) {
-	var buffer bytes.Buffer
-	enc := gob.NewEncoder(&buffer)
-	err := enc.Encode(v)
-	if err != nil {
-		return [16]byte{}, err
-	}
-	md5.Sum(buffer.Bytes())
-	return md5.Sum(buffer.Bytes()), nil
+	return s.build(v)
 }
 
 func (s *StructUniqSet[V]) Count() int {
-- 
2.43.0


From 18fa5e3df65580e2aac9db3204586acc625397ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 06/30] fix: RequestMap must forget expired results when all of
 them expired

The age list was kept if every result in it had expired, so it grew without
bound and the next cleanup deleted fresh results of the same keys.
---
 collections/request_map.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/collections/request_map.go b/collections/request_map.go
index e882ea6..9e9768a 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -71,6 +71,7 @@ func (rm *RequestMap[K, V]) rmWorker() {
 			}
 			delete(rm.response, r.key)
 		}
+		rm.resultSlice = nil
 	}
 
 	for {
-- 
2.43.0


From 5004adb501bd134c685b0b190e9fd8f1eabfadd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 07/30] fix: RequestMap must expire preloaded results

Results given to NewRequestMap were never put into the age list and so never
expired.
---
 collections/request_map.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collections/request_map.go b/collections/request_map.go
index 9e9768a..65ffdb6 100644
--- a/collections/request_map.go
+++ b/collections/request_map.go
@@ -41,7 +41,11 @@ func NewRequestMap[K comparable, V any](ctx context.Context, ttl time.Duration,
 	}
 	if len(init) > 0 {
 		for _, i := range init {
-			res.response[i.Key] = resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
+			r := resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
+			if _, ok := res.response[i.Key]; !ok {
+				res.resultSlice = append(res.resultSlice, r)
+			}
+			res.response[i.Key] = r
 		}
 	}
 	go res.rmWorker()
-- 
2.43.0


From c2db9a91d48727091af42d9807ab22ebc5bed2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:43 +0000
Subject: [PATCH 08/30] fix: WaitMap request timeout must only answer the
 waiters it was armed for

The timeout of waiters already served stored a zero value for the key once the
response had expired, hiding the next real value, or cut short a later wait.
---
 collections/wait_map.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collections/wait_map.go b/collections/wait_map.go
index aaaf10f..eb7c6b5 100644
--- a/collections/wait_map.go
+++ b/collections/wait_map.go
@@ -64,8 +64,12 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 				}
 				wm.mu.Unlock()
 			case <-time.After(wm.requestTimeout): // TIMEOUT
-				var v V
-				wm.Set(key, v)
+				wm.mu.Lock()
+				defer wm.mu.Unlock()
+				if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == ch {
+					var v V
+					wm.set(key, v)
+				}
 			}
 		}()
 	}
@@ -79,7 +83,11 @@ func (wm *WaitMap[K, V]) Wait(key K) V {
 func (wm *WaitMap[K, V]) Set(key K, value V) {
 	wm.mu.Lock()
 	defer wm.mu.Unlock()
+	wm.set(key, value)
+}
 
+// set must be called with mu held
+func (wm *WaitMap[K, V]) set(key K, value V) {
 	if _, ok := wm.dataHolder[key]; ok {
 		return
 	}
-- 
2.43.0


From e1b6b49d378185d2b0e450707f9f3948a9d46342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:43 +0000
Subject: [PATCH 09/30] fix: ResponseMap must not lose waiters, panic or block
 in Set

A Set racing with cleanup sent on a closed channel and panicked, repeated Sets
blocked with the entry locked, waiters registering around a timeout or cleanup
were dropped without being woken, entry goroutines outlived the map's context,
and the listeners and table were read without their locks.
---
 collections/response_map.go | 53 +++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/collections/response_map.go b/collections/response_map.go
index ccf1803..92b22fb 100644
--- a/collections/response_map.go
+++ b/collections/response_map.go
@@ -47,6 +47,7 @@ func (b *ResponseMapBuilder[K, V]) WithClearTimeout(timeout time.Duration) *Resp
 
 func (b *ResponseMapBuilder[K, V]) Build() *ResponseMap[K, V] {
 	rm := &ResponseMap[K, V]{
+		ctx:             b.ctx,
 		logger:          b.logger,
 		responseTimeout: b.responseTimeout,
 		clearTimeout:    b.clearTimeout,
@@ -58,6 +59,7 @@ func (b *ResponseMapBuilder[K, V]) Build() *ResponseMap[K, V] {
 }
 
 type ResponseMap[K comparable, V any] struct {
+	ctx             context.Context
 	logger          zerolog.Logger
 	responseTimeout time.Duration
 	clearTimeout    time.Duration
@@ -73,46 +75,40 @@ type chansHolder[K comparable, V any] struct {
 	createdAt time.Time
 	mu        sync.RWMutex
 	isExist   bool
+	isClosed  bool
 	data      V
-	dataCh    chan V
 	listeners []chan V
 }
 
-func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHolder[K, V] {
-	ctx, cancel := context.WithCancel(context.Background())
+func newChansHolder[K comparable, V any](parent context.Context, trx K, timeout time.Duration) *chansHolder[K, V] {
+	ctx, cancel := context.WithCancel(parent)
 	h := &chansHolder[K, V]{
 		ctx:       ctx,
 		cancelCtx: cancel,
 		trx:       trx,
 		t:         time.NewTimer(timeout),
 		createdAt: time.Now(),
-		dataCh:    make(chan V, 1),
 	}
 	go func() {
 		defer h.t.Stop()
 		for {
 			select {
 			case <-h.ctx.Done():
-				close(h.dataCh)
+				h.mu.Lock()
 				for _, ch := range h.listeners {
 					close(ch)
 				}
+				h.listeners = nil
+				h.isClosed = true
+				h.mu.Unlock()
 				return
 			case <-h.t.C:
+				h.mu.Lock()
 				for _, ch := range h.listeners {
 					close(ch)
 				}
-				h.mu.Lock()
 				h.listeners = nil
 				h.mu.Unlock()
-			case d := <-h.dataCh:
-				h.mu.Lock()
-				h.data = d
-				h.isExist = true
-				for _, ch := range h.listeners {
-					ch <- d
-				}
-				h.mu.Unlock()
 			}
 		}
 	}()
@@ -120,27 +116,31 @@ func newChansHolder[K comparable, V any](trx K, timeout time.Duration) *chansHol
 }
 
 func (h *chansHolder[K, V]) set(data V) {
-	h.mu.RLock()
-	exist := h.isExist
-	h.mu.RUnlock()
-	if exist {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.isExist || h.isClosed {
 		return
 	}
-	h.dataCh <- data
+	h.data = data
+	h.isExist = true
+	for _, ch := range h.listeners {
+		ch <- data
+	}
+	h.listeners = nil
 }
 
 func (h *chansHolder[K, V]) wait() V {
 	h.mu.RLock()
-	e := h.isExist
+	e, data := h.isExist, h.data
 	h.mu.RUnlock()
 	if e {
-		return h.data
+		return data
 	}
 	h.mu.Lock()
-	e = h.isExist
+	e, data = h.isExist || h.isClosed, h.data
 	if e {
 		h.mu.Unlock()
-		return h.data
+		return data
 	}
 	ch := make(chan V, 1)
 	h.listeners = append(h.listeners, ch)
@@ -171,7 +171,7 @@ func (r *ResponseMap[K, V]) getHolder(key K) *chansHolder[K, V] {
 	if ok {
 		return holder
 	}
-	holder = newChansHolder[K, V](key, r.responseTimeout)
+	holder = newChansHolder[K, V](r.ctx, key, r.responseTimeout)
 	r.m[key] = holder
 	return holder
 }
@@ -184,9 +184,9 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 		case <-ctx.Done():
 			return
 		case <-t.C:
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			var remove []*chansHolder[K, V]
 			r.mu.RLock()
+			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
 			for _, holder := range r.m {
 				if time.Now().After(holder.createdAt.Add(r.clearTimeout)) {
 					remove = append(remove, holder)
@@ -199,8 +199,9 @@ func (r *ResponseMap[K, V]) clear(ctx context.Context) {
 				holder.cancelCtx()
 				delete(r.m, holder.trx)
 			}
+			count := len(r.m)
 			r.mu.Unlock()
-			r.logger.Debug().Int("holders count", len(r.m)).Msg("successfully cleaned expired holders")
+			r.logger.Debug().Int("holders count", count).Msg("successfully cleaned expired holders")
 		}
 	}
 }
-- 
2.43.0


From 5fffac4367aad09b5eb4920ee2eb082bcf12bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 10/30] fix: HolderMap.Wait must not miss a verdict given while
 it registers

The released flag was read without the entry's lock, so a waiter could be added
after the verdict had been handed out and wait forever; Get read the object and
error without the lock as well.
---
 collections/holder_map.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index e0b1935..7102c8d 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -29,6 +29,8 @@ func (c *HolderMap[K, V]) Get(trx K) (V, error) {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
+		h.mu.Lock()
+		defer h.mu.Unlock()
 		return h.Object, h.Err
 	}
 	var defaultV V
@@ -41,34 +43,30 @@ func (c *HolderMap[K, V]) Count() int {
 	return len(c.m)
 }
 
+func (h *holderMapHolder[V]) wait() error {
+	h.mu.Lock()
+	if h.released {
+		defer h.mu.Unlock()
+		return h.Err
+	}
+	waitChan := make(chan error, 1)
+	h.releaseChanList = append(h.releaseChanList, waitChan)
+	h.mu.Unlock()
+	return <-waitChan
+}
+
 func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 	c.mu.RLock()
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok { // Has holder
-		if h.released {
-			return h.Err
-		} else {
-			waitChan := make(chan error, 1)
-			h.mu.Lock()
-			h.releaseChanList = append(h.releaseChanList, waitChan)
-			h.mu.Unlock()
-			return <-waitChan
-		}
+		return h.wait()
 	} else {
 		c.mu.Lock()
 		h, ok = c.m[trx]
 		if ok {
 			c.mu.Unlock()
-			if h.released {
-				return h.Err
-			} else {
-				waitChan := make(chan error, 1)
-				h.mu.Lock()
-				h.releaseChanList = append(h.releaseChanList, waitChan)
-				h.mu.Unlock()
-				return <-waitChan
-			}
+			return h.wait()
 		} else {
 			waitChan := make(chan error, 1)
 			h = &holderMapHolder[V]{
-- 
2.43.0


From 139535acb0aa99ce013febbefea20b1f3d857171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 11/30] fix: HolderMap.Wait must return when the context ends

On cancellation the verdict goroutine returned without waking the waiters, which
then waited forever, and the entry was never removed.
---
 collections/holder_map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 7102c8d..8dba3ac 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -83,7 +83,9 @@ func (c *HolderMap[K, V]) Wait(trx K, target V) error {
 					h.released = true
 					h.Err = errors.New("timeout")
 				case <-c.ctx.Done():
-					return
+					h.mu.Lock()
+					h.released = true
+					h.Err = c.ctx.Err()
 				case errInChan := <-h.inChan:
 					h.mu.Lock()
 					h.released = true
-- 
2.43.0


From 06511577b1cea89566ac2e89140abab36b331cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 12/30] fix: HolderMap.Release and Error must not block on a
 settled key

The third verdict for a key (or the second after its timeout) blocked forever on
the channel nobody read any more.
---
 collections/holder_map.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/collections/holder_map.go b/collections/holder_map.go
index 8dba3ac..75d9cfc 100644
--- a/collections/holder_map.go
+++ b/collections/holder_map.go
@@ -123,12 +123,20 @@ func (c *HolderMap[K, V]) Update(trx K, target V) error {
 	}
 }
 
+// verdict hands over the first verdict, later ones have no effect
+func (h *holderMapHolder[V]) verdict(err error) {
+	select {
+	case h.inChan <- err:
+	default:
+	}
+}
+
 func (c *HolderMap[K, V]) Release(trx K) error {
 	c.mu.RLock()
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- nil
+		h.verdict(nil)
 		return nil
 	} else {
 		return errors.New("not found")
@@ -140,7 +148,7 @@ func (c *HolderMap[K, V]) Error(trx K, err error) error {
 	h, ok := c.m[trx]
 	c.mu.RUnlock()
 	if ok {
-		h.inChan <- err
+		h.verdict(err)
 		return nil
 	} else {
 		return errors.New("not found")
-- 
2.43.0


From e7f0ce58ed1150d92150f25d679d3c8dc61c5769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 13/30] fix: GuavaMap.Delete of an absent key must not panic

With an unload function configured it dereferenced the missing entry.
---
 collections/guava_map.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 4f2257e..f06e12e 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -117,15 +117,15 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 }
 
 func (m *GuavaMap[K, V]) safeDelete(key K) {
+	v, ok := m.stored[key]
+	if !ok {
+		return
+	}
 	if m.unloadFunc != nil {
-		v := m.stored[key].v
-		go m.unloadFunc(key, v)
+		go m.unloadFunc(key, v.v)
 	}
-	if m.readTimeout > 0 || m.writeTimeout > 0 {
-		v := m.stored[key]
-		if v != nil && v.cancelFn != nil {
-			v.cancelFn()
-		}
+	if v.cancelFn != nil {
+		v.cancelFn()
 	}
 
 	delete(m.stored, key)
-- 
2.43.0


From d5992dbfb0cdc4f542a5324d021f8c911aea7062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 14/30] fix: GuavaMap expiry must only remove the entry it was
 armed for

A timer firing while its entry was replaced removed the new entry, and Clear
without an unload function left the old timers running to do the same.
---
 collections/guava_map.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index f06e12e..58507ef 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -74,7 +74,9 @@ func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 				return
 			case <-res.timer.C:
 				m.mu.Lock()
-				m.safeDelete(key)
+				if m.stored[key] == res {
+					m.safeDelete(key)
+				}
 				m.mu.Unlock()
 
 			}
@@ -194,9 +196,11 @@ func (m *GuavaMap[K, V]) Clear() {
 	if m.unloadFunc != nil {
 		for k, v := range m.stored {
 			go m.unloadFunc(k, v.v)
-			if v.cancelFn != nil {
-				v.cancelFn()
-			}
+		}
+	}
+	for _, v := range m.stored {
+		if v.cancelFn != nil {
+			v.cancelFn()
 		}
 	}
 	m.stored = make(map[K]*guavaHolder[V])
-- 
2.43.0


From a33d3d871a8b4a74f44455e6e75d5187bd75e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 15/30] fix: GuavaMap.HasOrCreate must not grow the eviction
 list of an unbounded map

Without a maximum nothing ever removes keys from that list.
---
 collections/guava_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 58507ef..2ff1402 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -108,8 +108,8 @@ func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
 			if len(m.storedSlice) >= m.maxCount {
 				m.safeDelete(m.storedSlice[0])
 			}
+			m.storedSlice = append(m.storedSlice, key)
 		}
-		m.storedSlice = append(m.storedSlice, key)
 	} else {
 		if m.stored[key].timer != nil && m.readTimeout > 0 {
 			m.stored[key].timer.Reset(m.readTimeout)
-- 
2.43.0


From 440a610ec86589f699e894dd5272bb85356586da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 16/30] fix: GuavaMap must read stored values under its lock

Get read the value of an entry, and GetStored the size of the table, after or
before holding the lock, racing with Set.
---
 collections/guava_map.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 2ff1402..264e536 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -223,13 +223,15 @@ func (m *GuavaMap[K, V]) Size() int {
 func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	m.mu.RLock()
 	val, ok := m.stored[key]
-	m.mu.RUnlock()
 	if ok {
 		if val.timer != nil && m.readTimeout > 0 {
 			val.timer.Reset(m.readTimeout)
 		}
-		return val.v, nil
+		v := val.v
+		m.mu.RUnlock()
+		return v, nil
 	}
+	m.mu.RUnlock()
 	if m.loadFunc == nil {
 		var v V
 		return v, nil
@@ -271,8 +273,8 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 }
 
 func (m *GuavaMap[K, V]) GetStored() map[K]V {
-	resStored := make(map[K]V, len(m.stored))
 	m.mu.RLock()
+	resStored := make(map[K]V, len(m.stored))
 	for k, v := range m.stored {
 		resStored[k] = v.v
 	}
-- 
2.43.0


From 4e85ee19c9adc384353185a18c03a075e12249ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 17/30] fix: GuavaMap with load locking must load a missing key
 once

The load lock was released before the value was stored, so a second Get could
load again, and a value removed in between was replaced by a zero value.
---
 collections/guava_map.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 264e536..63ad6c1 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -240,14 +240,22 @@ func (m *GuavaMap[K, V]) Get(key K) (V, error) {
 	var loadedVal V
 
 	if m.lockLoad != nil {
+		// held until the loaded value is stored
 		m.lockLoad.Lock(key)
-		if !m.Has(key) {
-			loadedVal, err = m.loadFunc(key)
+		defer m.lockLoad.Unlock(key)
+		m.mu.RLock()
+		val, ok = m.stored[key]
+		if ok {
+			if val.timer != nil && m.readTimeout > 0 {
+				val.timer.Reset(m.readTimeout)
+			}
+			v := val.v
+			m.mu.RUnlock()
+			return v, nil
 		}
-		m.lockLoad.Unlock(key)
-	} else {
-		loadedVal, err = m.loadFunc(key)
+		m.mu.RUnlock()
 	}
+	loadedVal, err = m.loadFunc(key)
 
 	if err != nil {
 		var v V
-- 
2.43.0


From 05a70c28f75460c9f0b1effe14440ff34b0c1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 18/30] fix: GuavaMap.LockForUpdate must keep serialising
 updates across removals

Deleting, expiring or clearing a key dropped its update lock while an update was
running, so a second update of the key ran concurrently; the lock table was also
read without its mutex.
---
 collections/guava_map.go | 62 ++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 38 deletions(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 63ad6c1..9f6e77f 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -31,7 +31,7 @@ type guavaHolder[V any] struct {
 type GuavaMap[K comparable, V any] struct {
 	stored             map[K]*guavaHolder[V]
 	storedSlice        []K
-	updateLockMap      map[K]*sync.Mutex
+	updateLockMap      map[K]*updateLock
 	updateLockMapMu    sync.RWMutex
 	mu                 sync.RWMutex
 	maxCount           int
@@ -44,17 +44,36 @@ type GuavaMap[K comparable, V any] struct {
 	ctx                context.Context
 }
 
-func (m *GuavaMap[K, V]) getKeyLock(key K) *sync.Mutex {
+// updateLock serialises the updates of one key, refs counts the calls using it
+type updateLock struct {
+	sync.Mutex
+	refs int
+}
+
+func (m *GuavaMap[K, V]) getKeyLock(key K) *updateLock {
 	m.updateLockMapMu.Lock()
 	defer m.updateLockMapMu.Unlock()
+	if m.updateLockMap == nil {
+		m.updateLockMap = make(map[K]*updateLock)
+	}
 	lock, ok := m.updateLockMap[key]
 	if !ok {
-		lock = &sync.Mutex{}
+		lock = &updateLock{}
 		m.updateLockMap[key] = lock
 	}
+	lock.refs++
 	return lock
 }
 
+func (m *GuavaMap[K, V]) releaseKeyLock(key K, lock *updateLock) {
+	m.updateLockMapMu.Lock()
+	defer m.updateLockMapMu.Unlock()
+	lock.refs--
+	if lock.refs == 0 {
+		delete(m.updateLockMap, key)
+	}
+}
+
 func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
 	res := &guavaHolder[V]{
 		v: value,
@@ -142,39 +161,11 @@ func (m *GuavaMap[K, V]) safeDelete(key K) {
 			}
 		}
 	}
-
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.RLock()
-		_, ok := m.updateLockMap[key]
-		m.updateLockMapMu.RUnlock()
-		if ok {
-			m.updateLockMapMu.Lock()
-			delete(m.updateLockMap, key)
-			m.updateLockMapMu.Unlock()
-		}
-	}
 }
 
 func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
-	if m.updateLockMap == nil {
-		m.updateLockMapMu.Lock()
-		if m.updateLockMap == nil {
-			m.updateLockMap = make(map[K]*sync.Mutex)
-		}
-		m.updateLockMapMu.Unlock()
-	}
-	m.updateLockMapMu.RLock()
-	lock, ok := m.updateLockMap[key]
-	m.updateLockMapMu.RUnlock()
-	if !ok {
-		m.updateLockMapMu.Lock()
-		lock, ok = m.updateLockMap[key]
-		if !ok {
-			lock = &sync.Mutex{}
-			m.updateLockMap[key] = lock
-		}
-		m.updateLockMapMu.Unlock()
-	}
+	lock := m.getKeyLock(key)
+	defer m.releaseKeyLock(key, lock)
 	lock.Lock()
 	defer lock.Unlock()
 	res := update()
@@ -207,11 +198,6 @@ func (m *GuavaMap[K, V]) Clear() {
 	if m.maxCount > 0 {
 		m.storedSlice = make([]K, 0, m.maxCount)
 	}
-	if m.updateLockMap != nil {
-		m.updateLockMapMu.Lock()
-		defer m.updateLockMapMu.Unlock()
-		m.updateLockMap = make(map[K]*sync.Mutex)
-	}
 }
 
 func (m *GuavaMap[K, V]) Size() int {
-- 
2.43.0


From 0fa64398d21b350b9006ff941f4d876255e2baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 19/30] fix: GuavaMap.LockForUpdate must respect the maximum
 and the entry's timer

It stored entries outside the eviction order, so the map exceeded its maximum,
and replaced entries without stopping the old timer.
---
 collections/guava_map.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/collections/guava_map.go b/collections/guava_map.go
index 9f6e77f..bfb6304 100644
--- a/collections/guava_map.go
+++ b/collections/guava_map.go
@@ -171,7 +171,7 @@ func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) V {
 	res := update()
 	m.mu.Lock()
 	defer m.mu.Unlock()
-	m.stored[key] = m.createHolder(key, res)
+	m.safeSet(key, res)
 	return res
 }
 
@@ -279,6 +279,10 @@ func (m *GuavaMap[K, V]) GetStored() map[K]V {
 func (m *GuavaMap[K, V]) Set(key K, val V) {
 	m.mu.Lock()
 	defer m.mu.Unlock()
+	m.safeSet(key, val)
+}
+
+func (m *GuavaMap[K, V]) safeSet(key K, val V) {
 	v, ok := m.stored[key]
 	if !ok {
 		m.stored[key] = m.createHolder(key, val)
-- 
2.43.0


From 822126d00d7f6d1ed2bbf5f1c93e4f1e5f1223ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 20/30] fix: AES.Decrypt must report input shorter than a nonce
 instead of panicking

---
 crypto/aes.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto/aes.go b/crypto/aes.go
index a848755..d061be4 100644
--- a/crypto/aes.go
+++ b/crypto/aes.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"errors"
 )
 
 type AES struct {
@@ -54,6 +55,9 @@ func (a *AES) Decrypt(cipherData []byte) ([]byte, error) {
 	// Since we know the ciphertext is actually nonce+ciphertext
 	// And len(nonce) == NonceSize(). We can separate the two.
 	nonceSize := gcm.NonceSize()
+	if len(cipherData) < nonceSize {
+		return nil, errors.New("cipher data too short")
+	}
 	nonce, ciphertext := cipherData[:nonceSize], cipherData[nonceSize:]
 
 	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)
-- 
2.43.0


From 5065be3c86ffeeb1d9766e52c5aa96856d581f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 21/30] fix: CryptoFSBuilder.AddFolder must not crash on an
 unreadable path

---
 crypto_fs/crypto_fs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 570e972..3214ab9 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -49,6 +49,9 @@ func (b *CryptoFSBuilder) AddFile(path string) *CryptoFSBuilder {
 func (b *CryptoFSBuilder) AddFolder(folderPath string) *CryptoFSBuilder {
 	folderPath = path.Join(b.rootDir, folderPath)
 	err := filepath.Walk(folderPath, func(root string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			entries, err := os.ReadDir(root)
 			if err != nil {
-- 
2.43.0


From 9d1d04e91d9eea77446a68130c2f7dce3172b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 22/30] fix: CryptoFSBuilder.Save must report a failed close

---
 crypto_fs/crypto_fs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 3214ab9..718b72c 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -126,12 +126,12 @@ func (b *CryptoFSBuilder) Save() error {
 	if err != nil {
 		return err
 	}
-	defer target.Close()
 	_, err = target.Write(data)
 	if err != nil {
+		target.Close()
 		return err
 	}
-	return nil
+	return target.Close()
 }
 
 type CryptoFS interface {
-- 
2.43.0


From bbc6238651057a99f689ba2e18c3504e66c9d25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 23/30] fix: files opened from a CryptoFS must advance as they
 are read

---
 crypto_fs/crypto_fs.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index 718b72c..bf22834 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -173,9 +173,21 @@ func (c *cryptoFS) Open(path string) (fs.File, error) {
 	if !ok {
 		return nil, fs.ErrNotExist
 	}
-	return f, nil
+	return &openFile{file: f, reader: bytes.NewReader(f.Data)}, nil
+}
+
+// openFile is one open handle of a stored file, with its own read position.
+type openFile struct {
+	file
+	reader *bytes.Reader
+}
+
+func (f *openFile) Read(i []byte) (int, error) {
+	return f.reader.Read(i)
 }
 
+func (f *openFile) Close() error { return nil }
+
 func (c *cryptoFS) ReadDir(name string) ([]fs.DirEntry, error) {
 	f, ok := c.files[name]
 	if !ok {
@@ -234,10 +246,3 @@ func (f file) Sys() any {
 func (f file) Stat() (fs.FileInfo, error) {
 	return f, nil
 }
-
-func (f file) Read(i []byte) (int, error) {
-	buf := bytes.NewBuffer(f.Data)
-	return buf.Read(i)
-}
-
-func (f file) Close() error { return nil }
-- 
2.43.0


From 5216765d9924a6977f8878152f6846e95b2edad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 24/30] fix: CryptoFS directories must report the directory
 mode bit

---
 crypto_fs/crypto_fs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto_fs/crypto_fs.go b/crypto_fs/crypto_fs.go
index bf22834..b933f8a 100644
--- a/crypto_fs/crypto_fs.go
+++ b/crypto_fs/crypto_fs.go
@@ -212,7 +212,7 @@ type file struct {
 }
 
 func (f file) Type() fs.FileMode {
-	return fs.FileMode(0755)
+	return f.Mode().Type()
 }
 
 func (f file) Info() (fs.FileInfo, error) {
@@ -228,6 +228,9 @@ func (f file) Size() int64 {
 }
 
 func (f file) Mode() fs.FileMode {
+	if f.IsDirFlag {
+		return fs.ModeDir
+	}
 	return fs.FileMode(0)
 }
 
-- 
2.43.0


From b3c88573637c126d0df6e1914f0d2065c0d3e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 25/30] fix: Runner.Run must not block after the context is
 cancelled

---
 workers/runner.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/workers/runner.go b/workers/runner.go
index 4b20cc0..5ab7731 100644
--- a/workers/runner.go
+++ b/workers/runner.go
@@ -20,11 +20,17 @@ type Runner struct {
 }
 
 func (r *Runner) Run(fn RunnerFn) {
-	r.runners <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runners <- fn:
+	}
 }
 
 func (r *Runner) RunWithContext(fn RunnerContextFn) {
-	r.runnersCtx <- fn
+	select {
+	case <-r.ctx.Done():
+	case r.runnersCtx <- fn:
+	}
 }
 
 type RunnerBuilder struct {
-- 
2.43.0


From 4affac0665f4435b8c1716af318e3d414e46a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 26/30] fix: ReadNBytesWithTimeout must not leave its deadline
 on the connection

---
 net/read.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/read.go b/net/read.go
index 1586108..77469ae 100644
--- a/net/read.go
+++ b/net/read.go
@@ -33,6 +33,7 @@ func ReadNBytesWithTimeout(conn net.Conn, n int, timeout time.Duration) ([]byte,
 	if err != nil {
 		return nil, err
 	}
+	defer conn.SetReadDeadline(time.Time{})
 	buff := make([]byte, n)
 	nRead, err := io.ReadFull(conn, buff)
 	if err != nil {
-- 
2.43.0


From 89b7be5e1f22161b87b9875054b69481054a9bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 27/30] fix: ShardChan must route items with a negative shard
 key

---
 chans/shard_chan.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index a967941..2145ccd 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -132,6 +132,9 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				return
 			case msg := <-res.incomingChan:
 				key := res.shardFunc(msg) % res.shardCount
+				if key < 0 {
+					key += res.shardCount
+				}
 				res.outgoingChans[key] <- msg
 			}
 		}
-- 
2.43.0


From a372d5214aa3ac46263212ae77f705bfdfc95124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:44 +0000
Subject: [PATCH 28/30] fix: channel goroutines and producers must not stay
 blocked after cancellation

---
 chans/chunk_chan.go | 17 ++++++++++++++---
 chans/shard_chan.go |  6 +++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index 689a321..ff6d71c 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -16,7 +16,10 @@ type ChunkChan[T any] struct {
 }
 
 func (c *ChunkChan[T]) Add(item T) {
-	c.incomingChan <- item
+	select {
+	case <-c.ctx.Done():
+	case c.incomingChan <- item:
+	}
 }
 
 func (c *ChunkChan[T]) Incoming() chan T {
@@ -41,13 +44,21 @@ func (c *ChunkChan[T]) run() {
 			return
 		case <-t.C:
 			if len(chunk) > 0 {
-				c.outgoingChan <- chunk
+				select {
+				case <-c.ctx.Done():
+					return
+				case c.outgoingChan <- chunk:
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		case item := <-c.incomingChan:
 			chunk = append(chunk, item)
 			if len(chunk) >= c.chunkSize {
-				c.outgoingChan <- chunk
+				select {
+				case <-c.ctx.Done():
+					return
+				case c.outgoingChan <- chunk:
+				}
 				chunk = make([]T, 0, c.chunkSize)
 			}
 		}
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 2145ccd..967afe2 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -135,7 +135,11 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 				if key < 0 {
 					key += res.shardCount
 				}
-				res.outgoingChans[key] <- msg
+				select {
+				case <-res.ctx.Done():
+					return
+				case res.outgoingChans[key] <- msg:
+				}
 			}
 		}
 	}()
-- 
2.43.0


From fee4835bf6fe996a9c29ca1bcb0e4cbe0a00c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 29/30] fix: a built channel object no longer shares its
 builder

Build stored the incoming channel it made in the builder, so a second
Build connected both objects to one channel, and the goroutines it started
read the context and functions of later option calls.
---
 chans/chunk_chan.go       | 13 +++++++------
 chans/shard_chan.go       | 11 ++++++-----
 chans/shard_chunk_chan.go | 15 ++++++++-------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/chans/chunk_chan.go b/chans/chunk_chan.go
index ff6d71c..773d6bc 100644
--- a/chans/chunk_chan.go
+++ b/chans/chunk_chan.go
@@ -121,26 +121,27 @@ func (b *ChunkChanBuilder[T]) WithIncomingChan(incomingChan chan T) *ChunkChanBu
 }
 
 func (b *ChunkChanBuilder[T]) Build() *ChunkChan[T] {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan, chunkFunc := b.incomingChan, b.chunkFunc
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
 	res := &ChunkChan[T]{
 		ctx:          b.ctx,
 		chunkSize:    b.chunkSize,
 		chunkTimeout: b.chunkTimeout,
-		incomingChan: b.incomingChan,
+		incomingChan: incomingChan,
 		outgoingChan: make(chan []T, b.outgoingBufferSize),
 	}
 
 	go res.run()
-	if b.chunkFunc != nil {
+	if chunkFunc != nil {
 		go func() {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-res.ctx.Done():
 					return
 				case chunk := <-res.outgoingChan:
-					b.chunkFunc(chunk)
+					chunkFunc(chunk)
 				}
 			}
 		}()
diff --git a/chans/shard_chan.go b/chans/shard_chan.go
index 967afe2..5ce3a01 100644
--- a/chans/shard_chan.go
+++ b/chans/shard_chan.go
@@ -112,13 +112,14 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 	if b.shardFunc == nil {
 		return nil, ErrShardFuncIsNil
 	}
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	incomingChan, workerFunc := b.incomingChan, b.workerFunc
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
 	res := &ShardChan[T]{
 		ctx:           b.ctx,
 		shardFunc:     b.shardFunc,
-		incomingChan:  b.incomingChan,
+		incomingChan:  incomingChan,
 		shardCount:    b.shardCount,
 		outgoingChans: make(map[int]chan T, b.shardCount),
 	}
@@ -143,7 +144,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 			}
 		}
 	}()
-	if b.workerFunc != nil {
+	if workerFunc != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
@@ -151,7 +152,7 @@ func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
 					case <-res.ctx.Done():
 						return
 					case msg := <-res.outgoingChans[k]:
-						b.workerFunc(k, msg)
+						workerFunc(k, msg)
 					}
 				}
 			}(i)
diff --git a/chans/shard_chunk_chan.go b/chans/shard_chunk_chan.go
index 95f2f53..d47baf6 100644
--- a/chans/shard_chunk_chan.go
+++ b/chans/shard_chunk_chan.go
@@ -112,10 +112,11 @@ func (b *ShardChunkBuilder[T]) WithIncomingChan(incomingChan chan T) *ShardChunk
 }
 
 func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
-	if b.incomingChan == nil {
-		b.incomingChan = make(chan T, b.incomingBufferSize)
+	ctx, incomingChan, shardWorker := b.ctx, b.incomingChan, b.shardWorker
+	if incomingChan == nil {
+		incomingChan = make(chan T, b.incomingBufferSize)
 	}
-	sharder, err := NewShardChan[T]().WithContext(b.ctx).WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).WithShardCount(b.shardCount).WithShardFunc(b.shardFunc).WithIncomingChan(b.incomingChan).Build()
+	sharder, err := NewShardChan[T]().WithContext(b.ctx).WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).WithShardCount(b.shardCount).WithShardFunc(b.shardFunc).WithIncomingChan(incomingChan).Build()
 	if err != nil {
 		return nil, err
 	}
@@ -125,7 +126,7 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 		go func(k int) {
 			for {
 				select {
-				case <-b.ctx.Done():
+				case <-ctx.Done():
 					return
 				case m := <-sharder.C(k):
 					chunkers[k].Add(m)
@@ -133,15 +134,15 @@ func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
 			}
 		}(i)
 	}
-	if b.shardWorker != nil {
+	if shardWorker != nil {
 		for i := 0; i < b.shardCount; i++ {
 			go func(k int) {
 				for {
 					select {
-					case <-b.ctx.Done():
+					case <-ctx.Done():
 						return
 					case batch := <-chunkers[k].C():
-						b.shardWorker(k, batch)
+						shardWorker(k, batch)
 					}
 				}
 			}(i)
-- 
2.43.0


From cff8d10ff39789e1f0db6bf7774f9354b32d7668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:29 +0000
Subject: [PATCH 30/30] fix: a built processor no longer follows its builder

---
 flow/processor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flow/processor.go b/flow/processor.go
index 88eb7fa..fa1be95 100644
--- a/flow/processor.go
+++ b/flow/processor.go
@@ -66,8 +66,9 @@ func (fb *ProcessorBuilder[E, S]) RouteOn(cond func(event E) bool, do ...func(ev
 }
 
 func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
+	routes := fb.routes
 	return func(event E, state S) error {
-		for _, route := range fb.routes {
+		for _, route := range routes {
 			for _, fn := range route.chain {
 				if err := fn(event, state); err != nil {
 					return err
-- 
2.43.0


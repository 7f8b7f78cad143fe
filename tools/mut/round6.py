"""Fifth battery of rewrites: loops over positions, split helpers and reordered statements."""
from round2 import F
CC="chans/chunk_chan.go"; SC="chans/shard_chan.go"; SK="chans/shard_chunk_chan.go"
G="collections/guava_map.go"; HS="collections/hash_set.go"; HO="collections/holder_map.go"; RQ="collections/request_map.go"
RS="collections/response_map.go"; SU="collections/struct_uniq_set.go"; TK="collections/two_key_map.go"; SM="collections/shard_map.go"
WM="collections/wait_map.go"; LM="collections/lock_map.go"; RU="workers/runner.go"; FP="flow/processor.go"
GV="(m *GuavaMap[K, V])"
M=[
# ---- sharded channels
("s-route-method","",[(SC,"""	go func() {
		for {
			select {
			case <-res.ctx.Done():
				return
			case msg := <-res.incomingChan:
				key := res.shardFunc(msg) % res.shardCount
				if key < 0 {
					key += res.shardCount
				}
				select {
				case <-res.ctx.Done():
					return
				case res.outgoingChans[key] <- msg:
				}
			}
		}
	}()
""","	go res.dispatch()\n"),(SC,"type ShardChanBuilder[T any] struct {","""func (s *ShardChan[T]) shardOf(msg T) int {
	n := s.shardCount
	return (s.shardFunc(msg)%n + n) % n
}

func (s *ShardChan[T]) deliver(msg T) bool {
	out := s.outgoingChans[s.shardOf(msg)]
	select {
	case out <- msg:
		return true
	case <-s.ctx.Done():
		return false
	}
}

func (s *ShardChan[T]) dispatch() {
	done := s.ctx.Done()
	for {
		select {
		case <-done:
			return
		case msg := <-s.incomingChan:
			if !s.deliver(msg) {
				return
			}
		}
	}
}

type ShardChanBuilder[T any] struct {""")]),
("s-sizes-append","",[F(SC,"func (s *ShardChan[T]) Sizes()",'''
func (s *ShardChan[T]) Sizes() []int {
	sizes := make([]int, 0, s.shardCount)
	for i := 0; i < s.shardCount; i++ {
		sizes = append(sizes, len(s.outgoingChans[i]))
	}
	return sizes
}
''')]),
("s-sizes-range-slice","",[F(SC,"func (s *ShardChan[T]) Sizes()",'''
func (s *ShardChan[T]) Sizes() []int {
	sizes := make([]int, s.shardCount)
	for i := range sizes {
		sizes[i] = len(s.outgoingChans[i])
	}
	return sizes
}
''')]),
("s-sizes-range-map","",[F(SC,"func (s *ShardChan[T]) Sizes()",'''
func (s *ShardChan[T]) Sizes() []int {
	sizes := make([]int, s.shardCount)
	for i, ch := range s.outgoingChans {
		sizes[i] = len(ch)
	}
	return sizes
}
''')]),
("s-sizes-down","",[F(SC,"func (s *ShardChan[T]) Sizes()",'''
func (s *ShardChan[T]) Sizes() []int {
	sizes := make([]int, s.shardCount)
	for i := s.shardCount - 1; i >= 0; i-- {
		sizes[i] = len(s.outgoingChans[i])
	}
	return sizes
}
''')]),
("s-c-inverted","",[F(SC,"func (s *ShardChan[T]) C(",'''
func (s *ShardChan[T]) C(key int) chan T {
	if 0 <= key && key < s.shardCount {
		return s.outgoingChans[key]
	}
	return nil
}
'''),F(SK,"func (s *ShardChunk[T]) C(",'''
func (s *ShardChunk[T]) C(key int) chan []T {
	valid := key >= 0 && key < len(s.chunkers)
	if !valid {
		return nil
	}
	chunker := s.chunkers[key]
	return chunker.C()
}
''')]),
("s-c-lookup","",[F(SC,"func (s *ShardChan[T]) C(",'''
func (s *ShardChan[T]) C(key int) chan T {
	if ch, ok := s.outgoingChans[key]; ok {
		return ch
	}
	return nil
}
''')]),
("sk-sizes-range","",[F(SK,"func (s *ShardChunk[T]) Sizes()",'''
func (s *ShardChunk[T]) Sizes() (shards []int, in, out int) {
	for _, chunker := range s.chunkers {
		queued, ready := chunker.Sizes()
		in, out = in+queued, out+ready
	}
	return s.sharder.Sizes(), in, out
}
''')]),
("sk-build-append","",[F(SK,"func (b *ShardChunkBuilder[T]) Build()",'''
func (b *ShardChunkBuilder[T]) newChunker() *ChunkChan[T] {
	return NewChunkChan[T]().
		WithContext(b.ctx).
		WithChunkSize(b.chunkSize).
		WithChunkTimeout(b.chunkTimeout).
		WithOutgoingBufferSize(b.outgoingBufferSize).
		Build()
}

func (s *ShardChunk[T]) feed(ctx context.Context, k int) {
	in, chunker := s.sharder.C(k), s.chunkers[k]
	for {
		select {
		case <-ctx.Done():
			return
		case m := <-in:
			chunker.Add(m)
		}
	}
}

func (s *ShardChunk[T]) work(ctx context.Context, k int, worker ShardChunkFunc[T]) {
	for {
		select {
		case <-ctx.Done():
			return
		case batch := <-s.chunkers[k].C():
			worker(k, batch)
		}
	}
}

func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
	in := b.incomingChan
	if in == nil {
		in = make(chan T, b.incomingBufferSize)
	}
	sharder, err := NewShardChan[T]().
		WithContext(b.ctx).
		WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).
		WithShardCount(b.shardCount).
		WithShardFunc(b.shardFunc).
		WithIncomingChan(in).
		Build()
	if err != nil {
		return nil, err
	}
	res := &ShardChunk[T]{sharder: sharder}
	for i := 0; i < b.shardCount; i++ {
		res.chunkers = append(res.chunkers, b.newChunker())
	}
	for i := range res.chunkers {
		go res.feed(b.ctx, i)
		if b.shardWorker != nil {
			go res.work(b.ctx, i, b.shardWorker)
		}
	}
	return res, nil
}
''')]),
("cc-run-local","",[F(CC,"func (c *ChunkChan[T]) run()",'''
func (c *ChunkChan[T]) emit(chunk []T) bool {
	select {
	case c.outgoingChan <- chunk:
		return true
	case <-c.ctx.Done():
		return false
	}
}

func (c *ChunkChan[T]) run() {
	ticker := time.NewTicker(c.chunkTimeout)
	defer ticker.Stop()
	chunk := make([]T, 0, c.chunkSize)
	for {
		limit := 1
		select {
		case <-c.ctx.Done():
			return
		case <-ticker.C:
		case item := <-c.incomingChan:
			chunk = append(chunk, item)
			limit = c.chunkSize
		}
		if len(chunk) == 0 || len(chunk) < limit {
			continue
		}
		if !c.emit(chunk) {
			return
		}
		chunk = make([]T, 0, c.chunkSize)
	}
}
''')]),
("cc-build-consume","",[(CC,"""	go res.run()
	if chunkFunc != nil {
		go func() {
			for {
				select {
				case <-res.ctx.Done():
					return
				case chunk := <-res.outgoingChan:
					chunkFunc(chunk)
				}
			}
		}()
	}
	return res
""","""	go res.run()
	if chunkFunc == nil {
		return res
	}
	consume := func() {
		for {
			select {
			case <-res.ctx.Done():
				return
			case chunk := <-res.outgoingChan:
				chunkFunc(chunk)
			}
		}
	}
	go consume()
	return res
""")]),
# ---- guava map
("g-forget-index","",[(G,"""	if m.maxCount > 0 {
		for i, k := range m.storedSlice {
			if k == key {
				m.storedSlice = append(m.storedSlice[:i], m.storedSlice[i+1:]...)
				break
			}
		}
	}
}
""","""	if m.maxCount > 0 {
		m.forget(key)
	}
}

func (m *GuavaMap[K, V]) position(key K) int {
	for i := range m.storedSlice {
		if m.storedSlice[i] == key {
			return i
		}
	}
	return -1
}

func (m *GuavaMap[K, V]) forget(key K) {
	at := m.position(key)
	if at < 0 {
		return
	}
	copy(m.storedSlice[at:], m.storedSlice[at+1:])
	m.storedSlice = m.storedSlice[:len(m.storedSlice)-1]
}
""")]),
("g-forget-filter","",[(G,"""		for i, k := range m.storedSlice {
			if k == key {
				m.storedSlice = append(m.storedSlice[:i], m.storedSlice[i+1:]...)
				break
			}
		}
""","""		kept := make([]K, 0, m.maxCount)
		for _, k := range m.storedSlice {
			if k != key {
				kept = append(kept, k)
			}
		}
		m.storedSlice = kept
""")]),
("g-remember-helper","",[(G,"func (m *GuavaMap[K, V]) safeDelete(key K) {","""func (m *GuavaMap[K, V]) remember(key K) {
	if m.maxCount <= 0 {
		return
	}
	if full := len(m.storedSlice) >= m.maxCount; full {
		oldest := m.storedSlice[0]
		m.safeDelete(oldest)
	}
	m.storedSlice = append(m.storedSlice, key)
}

func (m *GuavaMap[K, V]) insert(key K, value V) {
	m.remember(key)
	m.stored[key] = m.createHolder(key, value)
}

func (m *GuavaMap[K, V]) safeDelete(key K) {"""),F(G,"func (m *GuavaMap[K, V]) safeSet(",'''
func (m *GuavaMap[K, V]) safeSet(key K, val V) {
	v, ok := m.stored[key]
	if !ok {
		m.insert(key, val)
		return
	}
	if v.timer != nil {
		timeout := m.writeTimeout
		if timeout <= 0 {
			timeout = m.readTimeout
		}
		v.timer.Reset(timeout)
	}
	v.v = val
}
'''),F(G,"func (m *GuavaMap[K, V]) HasOrCreate(",'''
func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.stored[key]
	if !ok {
		m.insert(key, value)
		return false
	}
	if v.timer != nil && m.readTimeout > 0 {
		v.timer.Reset(m.readTimeout)
	}
	return true
}
'''),(G,"""	if m.maxCount > 0 {
		if len(m.storedSlice) >= m.maxCount {
			m.safeDelete(m.storedSlice[0])
		}
		m.storedSlice = append(m.storedSlice, key)
	}
	m.stored[key] = m.createHolder(key, loadedVal)
	return loadedVal, nil
""","""	m.insert(key, loadedVal)
	return loadedVal, nil
""")]),
("g-touch-method","",[(G,"type GuavaMap[K comparable, V any] struct {","""func (h *guavaHolder[V]) touch(timeout time.Duration) {
	if h.timer == nil || timeout <= 0 {
		return
	}
	h.timer.Reset(timeout)
}

type GuavaMap[K comparable, V any] struct {"""),F(G,"func (m *GuavaMap[K, V]) Has(",'''
func (m *GuavaMap[K, V]) Has(key K) bool {
	m.mu.RLock()
	defer m.mu.RUnlock()
	_, ok := m.peek(key)
	return ok
}

func (m *GuavaMap[K, V]) peek(key K) (v V, ok bool) {
	h, ok := m.stored[key]
	if !ok {
		return v, false
	}
	h.touch(m.readTimeout)
	return h.v, true
}

func (m *GuavaMap[K, V]) sharedPeek(key K) (V, bool) {
	m.mu.RLock()
	defer m.mu.RUnlock()
	return m.peek(key)
}
'''),F(G,"func (m *GuavaMap[K, V]) Get(",'''
func (m *GuavaMap[K, V]) Get(key K) (V, error) {
	v, ok := m.sharedPeek(key)
	if ok || m.loadFunc == nil {
		return v, nil
	}
	if m.lockLoad != nil {
		m.lockLoad.Lock(key)
		defer m.lockLoad.Unlock(key)
		if v, ok := m.sharedPeek(key); ok {
			return v, nil
		}
	}
	loaded, err := m.loadFunc(key)
	if err != nil {
		var none V
		return none, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.peek(key); ok {
		return v, nil
	}
	if m.maxCount > 0 {
		if len(m.storedSlice) >= m.maxCount {
			m.safeDelete(m.storedSlice[0])
		}
		m.storedSlice = append(m.storedSlice, key)
	}
	m.stored[key] = m.createHolder(key, loaded)
	return loaded, nil
}
''')]),
("g-expire-method","",[F(G,"func (m *GuavaMap[K, V]) createHolder(",'''
func (m *GuavaMap[K, V]) lifetime() time.Duration {
	if m.writeTimeout > 0 {
		return m.writeTimeout
	}
	return m.readTimeout
}

func (m *GuavaMap[K, V]) expire(ctx context.Context, key K, h *guavaHolder[V]) {
	defer h.timer.Stop()
	select {
	case <-ctx.Done():
	case <-h.timer.C:
		m.mu.Lock()
		defer m.mu.Unlock()
		if current, ok := m.stored[key]; !ok || current != h {
			return
		}
		m.safeDelete(key)
	}
}

func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
	res := &guavaHolder[V]{v: value}
	d := m.lifetime()
	if d <= 0 {
		return res
	}
	var ctx context.Context
	ctx, res.cancelFn = context.WithCancel(m.ctx)
	res.timer = time.NewTimer(d)
	go m.expire(ctx, key, res)
	return res
}
''')]),
("g-clear-swap-out","",[F(G,"func (m *GuavaMap[K, V]) Clear(",'''
func (m *GuavaMap[K, V]) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k, v := range m.stored {
		if v.cancelFn != nil {
			v.cancelFn()
		}
		if m.unloadFunc == nil {
			continue
		}
		go m.unloadFunc(k, v.v)
	}
	m.stored = map[K]*guavaHolder[V]{}
	if m.maxCount > 0 {
		m.storedSlice = m.storedSlice[:0]
	}
}
''')]),
# ---- hash set
("h-drop-at","",[F(HS,"func (s *HashSet[K]) Delete(",'''
func (s *HashSet[K]) dropAt(i int) {
	s.ml = append(s.ml[:i], s.ml[i+1:]...)
}

func (s *HashSet[K]) Delete(key K) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if !s.m[key] {
		return
	}
	delete(s.m, key)
	for i := 0; i < len(s.ml); i++ {
		if s.ml[i] != key {
			continue
		}
		s.dropAt(i)
		return
	}
}
''')]),
("h-insert-evict","",[F(HS,"func (s *HashSet[K]) Add(",'''
func (s *HashSet[K]) insert(key K) bool {
	if _, ok := s.m[key]; ok {
		return false
	}
	s.m[key] = true
	s.ml = append(s.ml, key)
	if s.maxCount <= 0 || len(s.m) <= s.maxCount {
		return true
	}
	oldest := s.ml[0]
	s.ml = s.ml[1:]
	delete(s.m, oldest)
	return true
}

func (s *HashSet[K]) Add(key K) {
	s.mu.Lock()
	s.insert(key)
	s.mu.Unlock()
}
'''),F(HS,"func (s *HashSet[K]) HasOrCreate(",'''
func (s *HashSet[K]) HasOrCreate(key K) bool {
	if s.Has(key) {
		return true
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return !s.insert(key)
}
''')]),
("h-keys-var","",[F(HS,"func (s *HashSet[K]) Keys(",'''
func (s *HashSet[K]) Keys() (keys []K) {
	s.mu.RLock()
	defer s.mu.RUnlock()
	keys = make([]K, len(s.m))
	next := 0
	for k := range s.m {
		keys[next] = k
		next++
	}
	return
}
''')]),
# ---- request map
("rq-sweep-count","",[(RQ,"""		for i, r := range rm.resultSlice {
			if time.Since(r.resultTime) < rm.deleteAfter {
				rm.resultSlice = rm.resultSlice[i:]
				return
			}
			delete(rm.response, r.key)
		}
		rm.resultSlice = nil
""","""		expired := 0
		for expired < len(rm.resultSlice) {
			r := rm.resultSlice[expired]
			if time.Since(r.resultTime) < rm.deleteAfter {
				break
			}
			delete(rm.response, r.key)
			expired++
		}
		rm.resultSlice = rm.resultSlice[expired:]
""")]),
("rq-sweep-pop","",[(RQ,"""		for i, r := range rm.resultSlice {
			if time.Since(r.resultTime) < rm.deleteAfter {
				rm.resultSlice = rm.resultSlice[i:]
				return
			}
			delete(rm.response, r.key)
		}
		rm.resultSlice = nil
""","""		for len(rm.resultSlice) > 0 {
			r := rm.resultSlice[0]
			if time.Since(r.resultTime) < rm.deleteAfter {
				return
			}
			delete(rm.response, r.key)
			rm.resultSlice = rm.resultSlice[1:]
		}
""")]),
("rq-methods","",[F(RQ,"func (rm *RequestMap[K, V]) rmWorker()",'''
func (rm *RequestMap[K, V]) expired(r resultHolder[K, V]) bool {
	return time.Since(r.resultTime) >= rm.deleteAfter
}

func (rm *RequestMap[K, V]) hasExpired() bool {
	rm.mu.RLock()
	defer rm.mu.RUnlock()
	return len(rm.resultSlice) > 0 && rm.expired(rm.resultSlice[0])
}

func (rm *RequestMap[K, V]) removeExpired() {
	rm.mu.Lock()
	defer rm.mu.Unlock()
	for i, r := range rm.resultSlice {
		if !rm.expired(r) {
			rm.resultSlice = rm.resultSlice[i:]
			return
		}
		delete(rm.response, r.key)
	}
	rm.resultSlice = nil
}

func (rm *RequestMap[K, V]) rmWorker() {
	for {
		select {
		case <-rm.ctx.Done():
			return
		case <-time.After(100 * time.Millisecond):
		}
		if rm.hasExpired() {
			rm.removeExpired()
		}
	}
}
''')]),
("rq-init-first","",[(RQ,"""	if len(init) > 0 {
		for _, i := range init {
			r := resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
			if _, ok := res.response[i.Key]; !ok {
				res.resultSlice = append(res.resultSlice, r)
			}
			res.response[i.Key] = r
		}
	}
""","""	for n := range init {
		res.preload(init[n])
	}
"""),(RQ,"func (rm *RequestMap[K, V]) rmWorker()","""func (rm *RequestMap[K, V]) preload(i *RequestMapInitializer[K, V]) {
	r := resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
	_, known := rm.response[i.Key]
	rm.response[i.Key] = r
	if known {
		return
	}
	rm.resultSlice = append(rm.resultSlice, r)
}

func (rm *RequestMap[K, V]) rmWorker()""")]),
("rq-delegate","",[F(RQ,"func (rm *RequestMap[K, V]) GetOrCreate(",'''
func (rm *RequestMap[K, V]) GetOrCreate(key K, f func(k K) V) V {
	v, _ := rm.GetOrCreateWithErr(key, func(k K) (V, error) {
		return f(k), nil
	})
	return v
}
''')]),
# ---- response map
("rs-release-helper","",[(RS,"""			case <-h.ctx.Done():
				h.mu.Lock()
				for _, ch := range h.listeners {
					close(ch)
				}
				h.listeners = nil
				h.isClosed = true
				h.mu.Unlock()
				return
			case <-h.t.C:
				h.mu.Lock()
				for _, ch := range h.listeners {
					close(ch)
				}
				h.listeners = nil
				h.mu.Unlock()
			}
""","""			case <-h.t.C:
				h.release(false)
			case <-h.ctx.Done():
				h.release(true)
				return
			}
"""),(RS,"func (h *chansHolder[K, V]) set(","""func (h *chansHolder[K, V]) release(final bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for i := range h.listeners {
		close(h.listeners[i])
	}
	h.listeners = nil
	if final {
		h.isClosed = true
	}
}

func (h *chansHolder[K, V]) set(""")]),
("rs-clear-methods","",[F(RS,"func (r *ResponseMap[K, V]) clear(",'''
func (r *ResponseMap[K, V]) clear(ctx context.Context) {
	ticker := time.NewTicker(r.clearTimeout)
	defer ticker.Stop()
	for {
		select {
		case <-ticker.C:
			r.sweep()
		case <-ctx.Done():
			return
		}
	}
}

func (r *ResponseMap[K, V]) sweep() {
	left := r.remove(r.stale())
	r.logger.Debug().Int("holders count", left).Msg("successfully cleaned expired holders")
}

func (r *ResponseMap[K, V]) stale() []*chansHolder[K, V] {
	r.mu.RLock()
	defer r.mu.RUnlock()
	list := make([]*chansHolder[K, V], 0, len(r.m))
	for _, h := range r.m {
		if time.Since(h.createdAt) > r.clearTimeout {
			list = append(list, h)
		}
	}
	return list
}

func (r *ResponseMap[K, V]) remove(list []*chansHolder[K, V]) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, h := range list {
		delete(r.m, h.trx)
		h.cancelCtx()
	}
	return len(r.m)
}
''')]),
("rs-wait-defer","",[F(RS,"func (h *chansHolder[K, V]) wait()",'''
func (h *chansHolder[K, V]) subscribe() (data V, ch chan V) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.isExist || h.isClosed {
		return h.data, nil
	}
	ch = make(chan V, 1)
	h.listeners = append(h.listeners, ch)
	return data, ch
}

func (h *chansHolder[K, V]) wait() V {
	data, ch := h.subscribe()
	if ch == nil {
		return data
	}
	return <-ch
}
''')]),
# ---- struct uniq set
("su-sweep-index","",[(SU,"""				expired := len(res.ttlElements)
				for i, el := range res.ttlElements {
					if time.Since(el.createdAt) < res.ttl {
						expired = i
						break
					}
					if res.elements[el.hash] == el {
						delete(res.elements, el.hash)
					}
				}
				res.ttlElements = res.ttlElements[expired:]
""","""				n := 0
				for ; n < len(res.ttlElements); n++ {
					el := res.ttlElements[n]
					if time.Since(el.createdAt) < res.ttl {
						break
					}
					if current, ok := res.elements[el.hash]; ok && current == el {
						delete(res.elements, el.hash)
					}
				}
				res.ttlElements = res.ttlElements[n:]
""")]),
("su-sweep-method","",[(SU,"""				res.elementsMu.RLock()
				if len(res.ttlElements) == 0 {
					res.elementsMu.RUnlock()
					continue
				}
				first := res.ttlElements[0]
				res.elementsMu.RUnlock()
				if time.Since(first.createdAt) < res.ttl {
					continue
				}
				res.elementsMu.Lock()
				expired := len(res.ttlElements)
				for i, el := range res.ttlElements {
					if time.Since(el.createdAt) < res.ttl {
						expired = i
						break
					}
					if res.elements[el.hash] == el {
						delete(res.elements, el.hash)
					}
				}
				res.ttlElements = res.ttlElements[expired:]
				res.elementsMu.Unlock()
""","""				res.sweep()
"""),(SU,"func (s *StructUniqSet[V]) getHashCode(","""func (s *StructUniqSet[V]) sweep() {
	s.elementsMu.Lock()
	defer s.elementsMu.Unlock()
	now := time.Now()
	expired := 0
	for _, el := range s.ttlElements {
		if now.Sub(el.createdAt) < s.ttl {
			break
		}
		if s.elements[el.hash] == el {
			delete(s.elements, el.hash)
		}
		expired++
	}
	s.ttlElements = s.ttlElements[expired:]
}

func (s *StructUniqSet[V]) getHashCode(""")]),
("su-add-single","",[F(SU,"func (s *StructUniqSet[V]) Add(",'''
func (s *StructUniqSet[V]) Add(v V) (bool, error) {
	hash, err := s.getHashCode(v)
	if err != nil {
		return false, err
	}
	s.elementsMu.Lock()
	defer s.elementsMu.Unlock()
	if _, exists := s.elements[hash]; exists {
		return false, nil
	}
	el := &structUniqSetElement{createdAt: time.Now(), hash: hash}
	s.ttlElements = append(s.ttlElements, el)
	s.elements[hash] = el
	return true, nil
}
''')]),
# ---- wait map
("wm-split","",[F(WM,"func (wm *WaitMap[K, V]) Wait(",'''
func (wm *WaitMap[K, V]) Wait(key K) V {
	if value, ok := wm.held(key); ok {
		return value
	}
	wm.mu.Lock()
	if value, ok := wm.dataHolder[key]; ok {
		wm.mu.Unlock()
		return value
	}
	ch := make(chan V, 1)
	waiting := wm.waiterChannels[key]
	if len(waiting) == 0 {
		go wm.guard(key, ch)
	}
	wm.waiterChannels[key] = append(waiting, ch)
	wm.mu.Unlock()
	return <-ch
}

func (wm *WaitMap[K, V]) held(key K) (V, bool) {
	wm.mu.RLock()
	defer wm.mu.RUnlock()
	value, ok := wm.dataHolder[key]
	return value, ok
}

func (wm *WaitMap[K, V]) answer(key K, value V) {
	for _, ch := range wm.waiterChannels[key] {
		ch <- value
		close(ch)
	}
	delete(wm.waiterChannels, key)
}

func (wm *WaitMap[K, V]) guard(key K, first chan V) {
	var zero V
	select {
	case <-wm.ctx.Done():
		wm.mu.Lock()
		defer wm.mu.Unlock()
		wm.answer(key, zero)
	case <-time.After(wm.requestTimeout):
		wm.mu.Lock()
		defer wm.mu.Unlock()
		chans := wm.waiterChannels[key]
		if len(chans) == 0 || chans[0] != first {
			return
		}
		wm.set(key, zero)
	}
}
''')]),
("wm-set-forget","",[F(WM,"func (wm *WaitMap[K, V]) set(",'''
func (wm *WaitMap[K, V]) set(key K, value V) {
	_, known := wm.dataHolder[key]
	if known {
		return
	}
	chans := wm.waiterChannels[key]
	delete(wm.waiterChannels, key)
	wm.dataHolder[key] = value
	for i := 0; i < len(chans); i++ {
		chans[i] <- value
		close(chans[i])
	}
	go wm.forget(key)
}

func (wm *WaitMap[K, V]) forget(key K) {
	timer := time.NewTimer(wm.responseTtl)
	defer timer.Stop()
	select {
	case <-wm.ctx.Done():
	case <-timer.C:
	}
	wm.mu.Lock()
	delete(wm.dataHolder, key)
	wm.mu.Unlock()
}
''')]),
# ---- others
("lm-generic-find","",[F(LM,"func (mm *MapMutex[K]) Lock(",'''
func (mm *MapMutex[K]) find(k K) (*sync.Mutex, bool) {
	mm.mu.RLock()
	defer mm.mu.RUnlock()
	m, ok := mm.m[k]
	return m, ok
}

func (mm *MapMutex[K]) Lock(k K) {
	m, ok := mm.find(k)
	if !ok {
		m = mm.create(k)
	}
	m.Lock()
}

func (mm *MapMutex[K]) create(k K) *sync.Mutex {
	mm.mu.Lock()
	defer mm.mu.Unlock()
	if m, ok := mm.m[k]; ok {
		return m
	}
	m := new(sync.Mutex)
	mm.m[k] = m
	return m
}
'''),F(LM,"func (mm *MapMutex[K]) Unlock(",'''
func (mm *MapMutex[K]) Unlock(k K) {
	m, ok := mm.find(k)
	if !ok {
		return
	}
	m.Unlock()
}
''')]),
("sm-locals","",[F(SM,"func (m *ShardMap[K, V]) Size(",'''
func (m *ShardMap[K, V]) sizeOf(i int) int {
	m.shardsLock[i].RLock()
	defer m.shardsLock[i].RUnlock()
	return len(m.shards[i])
}

func (m *ShardMap[K, V]) Size() (count int) {
	for i := range m.shards {
		count += m.sizeOf(i)
	}
	return count
}
'''),F(SM,"func (m *ShardMap[K, V]) Clear(",'''
func (m *ShardMap[K, V]) Clear() {
	for i := range m.shardsLock {
		m.clearShard(i)
	}
}

func (m *ShardMap[K, V]) clearShard(i int) {
	fresh := make(map[K]V)
	m.shardsLock[i].Lock()
	defer m.shardsLock[i].Unlock()
	m.shards[i] = fresh
}
''')]),
("sm-append","",[F(SM,"func (b *ShardMapBuilder[K, V]) Build(",'''
func (b *ShardMapBuilder[K, V]) Build() *ShardMap[K, V] {
	shards := make([]map[K]V, 0, b.shardsCount)
	for len(shards) < b.shardsCount {
		shards = append(shards, make(map[K]V))
	}
	return &ShardMap[K, V]{
		shards:      shards,
		shardsLock:  make([]sync.RWMutex, len(shards)),
		shardsFunc:  b.shardsFunc,
		shardsCount: len(shards),
	}
}
''')]),
("sm-clear-delete","",[F(SM,"func (m *ShardMap[K, V]) Clear(",'''
func (m *ShardMap[K, V]) Clear() {
	for i := 0; i < m.shardsCount; i++ {
		lock := &m.shardsLock[i]
		lock.Lock()
		for k := range m.shards[i] {
			delete(m.shards[i], k)
		}
		lock.Unlock()
	}
}
''')]),
("tk-drop","",[F(TK,"func (m *TwoKeyMap[K1, K2, V]) Remove(",'''
func (m *TwoKeyMap[K1, K2, V]) drop(k1 K1, k2 K2) {
	delete(m.k2Tok1, k2)
	delete(m.k1Tok2, k1)
	delete(m.data, k1)
}

func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if k2, ok := m.k1Tok2[k1]; ok {
		m.drop(k1, k2)
	}
}
'''),F(TK,"func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(",'''
func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if k1, ok := m.k2Tok1[k2]; ok {
		m.drop(k1, k2)
	}
}
''')]),
("tk-put-drop","",[F(TK,"func (m *TwoKeyMap[K1, K2, V]) Put(",'''
func (m *TwoKeyMap[K1, K2, V]) Put(k1 K1, k2 K2, v V) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if old, ok := m.k2Tok1[k2]; ok {
		delete(m.data, old)
		delete(m.k1Tok2, old)
	}
	if old, ok := m.k1Tok2[k1]; ok {
		delete(m.k2Tok1, old)
	}
	m.k1Tok2[k1], m.k2Tok1[k2] = k2, k1
	m.data[k1] = v
}
''')]),
("ho-decide","",[(HO,"""				select {
				case <-h.timeOutTimer.C:
					h.mu.Lock()
					h.released = true
					h.Err = errors.New("timeout")
				case <-c.ctx.Done():
					h.mu.Lock()
					h.released = true
					h.Err = c.ctx.Err()
				case errInChan := <-h.inChan:
					h.mu.Lock()
					h.released = true
					h.Err = errInChan
				}
				for _, ch := range h.releaseChanList {
					ch <- h.Err
				}
				h.mu.Unlock()
				go func() {
					time.Sleep(c.destroyElementDuration)
					c.mu.Lock()
					delete(c.m, trx)
					c.mu.Unlock()
				}()
""","""				h.release(c.decide(h))
				go c.destroy(trx)
"""),(HO,"func (c *HolderMap[K, V]) Wait(","""func (c *HolderMap[K, V]) decide(h *holderMapHolder[V]) error {
	select {
	case <-c.ctx.Done():
		return c.ctx.Err()
	case <-h.timeOutTimer.C:
		return errors.New("timeout")
	case err := <-h.inChan:
		return err
	}
}

func (h *holderMapHolder[V]) release(err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.Err = err
	h.released = true
	for _, ch := range h.releaseChanList {
		ch <- err
	}
}

func (c *HolderMap[K, V]) destroy(trx K) {
	time.Sleep(c.destroyElementDuration)
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.m, trx)
}

func (c *HolderMap[K, V]) Wait(""")]),
("ru-step","",[(RU,"""		go func() {
			for {
				select {
				case <-r.ctx.Done():
					return
				case fn := <-r.runners:
					fn()
				case fn := <-r.runnersCtx:
					fn(r.ctx)
				}
			}
		}()
""","""		go r.loop()
"""),(RU,"type RunnerBuilder struct {","""func (r *Runner) step() bool {
	select {
	case fn := <-r.runnersCtx:
		fn(r.ctx)
	case fn := <-r.runners:
		fn()
	case <-r.ctx.Done():
		return false
	}
	return true
}

func (r *Runner) loop() {
	for r.step() {
	}
}

type RunnerBuilder struct {""")]),
("ru-countdown","",[(RU,"	for i := 0; i < b.workerCount; i++ {","	for left := b.workerCount; left > 0; left-- {")]),
("fp-run-chain","",[F(FP,"func (fb *ProcessorBuilder[E, S]) Build(",'''
func (r ProcessorRouter[E, S]) run(event E, state S) error {
	for i := range r.chain {
		if err := r.chain[i](event, state); err != nil {
			return err
		}
	}
	return nil
}

func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	routes := fb.routes
	return func(event E, state S) error {
		for i := 0; i < len(routes); i++ {
			if err := routes[i].run(event, state); err != nil {
				return err
			}
		}
		return nil
	}
}
''')]),
("fp-err-var","",[F(FP,"func (fb *ProcessorBuilder[E, S]) Build(",'''
func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	routes := fb.routes
	process := func(event E, state S) (err error) {
		for _, route := range routes {
			for n := 0; err == nil && n < len(route.chain); n++ {
				err = route.chain[n](event, state)
			}
			if err != nil {
				break
			}
		}
		return err
	}
	return process
}
''')]),
]

"""Fourth battery of single-function rewrites: the remaining collections."""
from round2 import F
HO="collections/holder_map.go"; RQ="collections/request_map.go"; RS="collections/response_map.go"; SU="collections/struct_uniq_set.go"
TK="collections/two_key_map.go"; SM="collections/shard_map.go"; SE="collections/set.go"; MP="collections/map.go"; LM="collections/lock_map.go"
M=[
# ---- holder map
("ho-find","",[F(HO,"func (c *HolderMap[K, V]) Get(",'''
var errHolderNotFound = errors.New("not found")

func (c *HolderMap[K, V]) find(trx K) (*holderMapHolder[V], bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	h, ok := c.m[trx]
	return h, ok
}

func (c *HolderMap[K, V]) Get(trx K) (res V, err error) {
	h, ok := c.find(trx)
	if !ok {
		return res, errHolderNotFound
	}
	h.mu.Lock()
	res, err = h.Object, h.Err
	h.mu.Unlock()
	return res, err
}
'''),F(HO,"func (c *HolderMap[K, V]) Update(",'''
func (c *HolderMap[K, V]) Update(trx K, target V) error {
	h, ok := c.find(trx)
	if !ok {
		return errHolderNotFound
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.Object = target
	return nil
}
'''),F(HO,"func (c *HolderMap[K, V]) Release(",'''
func (c *HolderMap[K, V]) Release(trx K) error {
	return c.Error(trx, nil)
}
'''),F(HO,"func (c *HolderMap[K, V]) Error(",'''
func (c *HolderMap[K, V]) Error(trx K, err error) error {
	h, ok := c.find(trx)
	if !ok {
		return errHolderNotFound
	}
	h.verdict(err)
	return nil
}
''')]),
("ho-wait-split","",[F(HO,"func (c *HolderMap[K, V]) Wait(",'''
func (c *HolderMap[K, V]) Wait(trx K, target V) error {
	c.mu.RLock()
	h, ok := c.m[trx]
	c.mu.RUnlock()
	if !ok {
		h = c.holder(trx, target)
	}
	return h.wait()
}

func (c *HolderMap[K, V]) holder(trx K, target V) *holderMapHolder[V] {
	c.mu.Lock()
	defer c.mu.Unlock()
	if h, ok := c.m[trx]; ok {
		return h
	}
	h := &holderMapHolder[V]{
		Object:       target,
		inChan:       make(chan error, 1),
		timeOutTimer: time.NewTimer(c.timeoutDuration),
	}
	c.m[trx] = h
	go c.serve(trx, h)
	return h
}

func (c *HolderMap[K, V]) serve(trx K, h *holderMapHolder[V]) {
	h.settle(h.outcome(c.ctx))
	h.timeOutTimer.Stop()
	time.Sleep(c.destroyElementDuration)
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.m, trx)
}

func (h *holderMapHolder[V]) outcome(ctx context.Context) error {
	select {
	case <-h.timeOutTimer.C:
		return errors.New("timeout")
	case <-ctx.Done():
		return ctx.Err()
	case err := <-h.inChan:
		return err
	}
}

func (h *holderMapHolder[V]) settle(err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.released = true
	h.Err = err
	for _, ch := range h.releaseChanList {
		ch <- err
	}
}
''')]),
("ho-settle-unlocked-mut","D01",[F(HO,"func (c *HolderMap[K, V]) Wait(",'''
func (c *HolderMap[K, V]) Wait(trx K, target V) error {
	c.mu.RLock()
	h, ok := c.m[trx]
	c.mu.RUnlock()
	if !ok {
		h = c.holder(trx, target)
	}
	return h.wait()
}

func (c *HolderMap[K, V]) holder(trx K, target V) *holderMapHolder[V] {
	c.mu.Lock()
	defer c.mu.Unlock()
	if h, ok := c.m[trx]; ok {
		return h
	}
	h := &holderMapHolder[V]{
		Object:       target,
		inChan:       make(chan error, 1),
		timeOutTimer: time.NewTimer(c.timeoutDuration),
	}
	c.m[trx] = h
	go c.serve(trx, h)
	return h
}

func (c *HolderMap[K, V]) serve(trx K, h *holderMapHolder[V]) {
	var err error
	select {
	case <-h.timeOutTimer.C:
		err = errors.New("timeout")
	case <-c.ctx.Done():
		err = c.ctx.Err()
	case err = <-h.inChan:
	}
	h.mu.Lock()
	list := h.releaseChanList
	h.mu.Unlock()
	for _, ch := range list {
		ch <- err
	}
	h.mu.Lock()
	h.released = true
	h.Err = err
	h.mu.Unlock()
	h.timeOutTimer.Stop()
	time.Sleep(c.destroyElementDuration)
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.m, trx)
}
''')]),
("ho-err-once","",[F(HO,"func (h *holderMapHolder[V]) wait(",'''
func (h *holderMapHolder[V]) wait() error {
	ch, err := h.subscribe()
	if ch == nil {
		return err
	}
	return <-ch
}

func (h *holderMapHolder[V]) subscribe() (<-chan error, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.released {
		return nil, h.Err
	}
	ch := make(chan error, 1)
	h.releaseChanList = append(h.releaseChanList, ch)
	return ch, nil
}
''')]),
# ---- request map
("rq-unify","",[F(RQ,"func (rm *RequestMap[K, V]) GetOrCreate(",'''
func (rm *RequestMap[K, V]) GetOrCreate(key K, f func(k K) V) V {
	res, _ := rm.GetOrCreateWithErr(key, func(k K) (V, error) {
		return f(k), nil
	})
	return res
}
'''),]),
("rq-helpers","",[F(RQ,"func (rm *RequestMap[K, V]) GetOrCreateWithErr(",'''
func (rm *RequestMap[K, V]) known(key K) (resultHolder[K, V], bool) {
	rm.mu.RLock()
	defer rm.mu.RUnlock()
	r, ok := rm.response[key]
	return r, ok
}

func (rm *RequestMap[K, V]) join(key K) (r resultHolder[K, V], ch chan resultHolder[K, V], first bool) {
	rm.mu.Lock()
	defer rm.mu.Unlock()
	if r, ok := rm.response[key]; ok {
		return r, nil, false
	}
	ch = make(chan resultHolder[K, V], 1)
	first = len(rm.waiters[key]) == 0
	rm.waiters[key] = append(rm.waiters[key], ch)
	return r, ch, first
}

func (rm *RequestMap[K, V]) resolve(key K, v V, err error) {
	r := resultHolder[K, V]{key: key, result: v, err: err, resultTime: time.Now()}
	rm.mu.Lock()
	defer rm.mu.Unlock()
	rm.response[key] = r
	rm.resultSlice = append(rm.resultSlice, r)
	for _, ch := range rm.waiters[key] {
		ch <- r
	}
	delete(rm.waiters, key)
}

func (rm *RequestMap[K, V]) GetOrCreateWithErr(key K, f func(k K) (V, error)) (V, error) {
	if r, ok := rm.known(key); ok {
		return r.result, r.err
	}
	r, ch, first := rm.join(key)
	if ch == nil {
		return r.result, r.err
	}
	if first {
		go func() {
			v, err := f(key)
			rm.resolve(key, v, err)
		}()
	}
	r = <-ch
	return r.result, r.err
}
''')]),
("rq-publish-then-store-mut","R01",[F(RQ,"func (rm *RequestMap[K, V]) GetOrCreate(",'''
func (rm *RequestMap[K, V]) GetOrCreate(key K, f func(k K) V) V {
	rm.mu.Lock()
	v, ok := rm.response[key]
	if ok {
		rm.mu.Unlock()
		return v.result
	}
	ch := make(chan resultHolder[K, V], 1)
	_, ok = rm.waiters[key]
	rm.waiters[key] = append(rm.waiters[key], ch)
	rm.mu.Unlock()
	if !ok {
		go func() {
			vx := f(key)
			r := resultHolder[K, V]{key: key, result: vx, resultTime: time.Now()}
			rm.mu.Lock()
			waiters := rm.waiters[key]
			delete(rm.waiters, key)
			rm.mu.Unlock()
			for _, c := range waiters {
				c <- r
			}
			rm.mu.Lock()
			rm.response[key] = r
			rm.resultSlice = append(rm.resultSlice, r)
			rm.mu.Unlock()
		}()
	}
	res := <-ch
	return res.result
}
''')]),
("rq-worker-ticker","",[F(RQ,"func (rm *RequestMap[K, V]) rmWorker(",'''
func (rm *RequestMap[K, V]) rmWorker() {
	ticker := time.NewTicker(100 * time.Millisecond)
	defer ticker.Stop()
	for {
		select {
		case <-ticker.C:
			rm.expire(time.Now())
		case <-rm.ctx.Done():
			return
		}
	}
}

func (rm *RequestMap[K, V]) expire(now time.Time) {
	rm.mu.Lock()
	defer rm.mu.Unlock()
	n := 0
	for n < len(rm.resultSlice) && now.Sub(rm.resultSlice[n].resultTime) >= rm.deleteAfter {
		delete(rm.response, rm.resultSlice[n].key)
		n++
	}
	rm.resultSlice = rm.resultSlice[n:]
}
''')]),
("rq-worker-stale-now-mut","R03",[F(RQ,"func (rm *RequestMap[K, V]) rmWorker(",'''
func (rm *RequestMap[K, V]) rmWorker() {
	ticker := time.NewTicker(100 * time.Millisecond)
	defer ticker.Stop()
	for {
		select {
		case <-ticker.C:
			rm.expire(time.Now())
		case <-rm.ctx.Done():
			return
		}
	}
}

func (rm *RequestMap[K, V]) expire(now time.Time) {
	rm.mu.Lock()
	defer rm.mu.Unlock()
	n := 0
	for n < len(rm.resultSlice) && now.Sub(rm.resultSlice[n].resultTime) >= rm.deleteAfter {
		delete(rm.response, rm.resultSlice[n].key)
		n++
	}
	rm.resultSlice = rm.resultSlice[:0]
}
''')]),
("rq-timeout-timer","",[F(RQ,"func (rm *RequestMap[K, V]) Timeout(",'''
func (rm *RequestMap[K, V]) Timeout(duration time.Duration, f func(k K) (V, error)) func(k K) (V, error) {
	type outcome struct {
		v   V
		err error
	}
	return func(k K) (V, error) {
		done := make(chan outcome, 1)
		go func() {
			var o outcome
			o.v, o.err = f(k)
			done <- o
		}()
		timer := time.NewTimer(duration)
		defer timer.Stop()
		select {
		case o := <-done:
			return o.v, o.err
		case <-timer.C:
		}
		var zero V
		return zero, ErrTimeout
	}
}
''')]),
# ---- response map
("rs-lookup","",[F(RS,"func (r *ResponseMap[K, V]) getHolder(",'''
func (r *ResponseMap[K, V]) lookup(key K) *chansHolder[K, V] {
	r.mu.RLock()
	defer r.mu.RUnlock()
	return r.m[key]
}

func (r *ResponseMap[K, V]) getHolder(key K) *chansHolder[K, V] {
	if h := r.lookup(key); h != nil {
		return h
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	h, ok := r.m[key]
	if !ok {
		h = newChansHolder[K, V](r.ctx, key, r.responseTimeout)
		r.m[key] = h
	}
	return h
}
''')]),
("rs-closeall","",[F(RS,"func newChansHolder[",'''
func newChansHolder[K comparable, V any](parent context.Context, trx K, timeout time.Duration) *chansHolder[K, V] {
	h := &chansHolder[K, V]{trx: trx, t: time.NewTimer(timeout), createdAt: time.Now()}
	h.ctx, h.cancelCtx = context.WithCancel(parent)
	go h.watch()
	return h
}

func (h *chansHolder[K, V]) watch() {
	defer h.t.Stop()
	for done := false; !done; {
		select {
		case <-h.ctx.Done():
			done = true
		case <-h.t.C:
		}
		h.drop(done)
	}
}

func (h *chansHolder[K, V]) drop(final bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	listeners := h.listeners
	h.listeners = nil
	for i := range listeners {
		close(listeners[i])
	}
	if final {
		h.isClosed = true
	}
}
''')]),
("rs-clear-split","",[F(RS,"func (r *ResponseMap[K, V]) clear(",'''
func (r *ResponseMap[K, V]) clear(ctx context.Context) {
	t := time.NewTicker(r.clearTimeout)
	defer t.Stop()
	for {
		select {
		case <-ctx.Done():
			return
		case now := <-t.C:
			r.sweep(now)
		}
	}
}

func (r *ResponseMap[K, V]) sweep(now time.Time) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for key, holder := range r.m {
		if now.Sub(holder.createdAt) <= r.clearTimeout {
			continue
		}
		holder.cancelCtx()
		delete(r.m, key)
	}
	r.logger.Debug().Int("holders count", len(r.m)).Msg("successfully cleaned expired holders")
}
''')]),
("rs-wait-norlock","",[F(RS,"func (h *chansHolder[K, V]) wait(",'''
func (h *chansHolder[K, V]) wait() V {
	h.mu.Lock()
	if h.isExist || h.isClosed {
		defer h.mu.Unlock()
		return h.data
	}
	ch := make(chan V, 1)
	h.listeners = append(h.listeners, ch)
	h.mu.Unlock()
	v := <-ch
	return v
}
''')]),
("rs-set-noexist-mut","P01",[F(RS,"func (h *chansHolder[K, V]) set(",'''
func (h *chansHolder[K, V]) set(data V) {
	h.mu.Lock()
	if h.isExist || h.isClosed {
		h.mu.Unlock()
		return
	}
	h.data = data
	h.isExist = true
	listeners := h.listeners
	h.mu.Unlock()
	for _, ch := range listeners {
		ch <- data
	}
	h.mu.Lock()
	h.listeners = nil
	h.mu.Unlock()
}
''')]),
# ---- struct uniq set
("su-sweep","",[F(SU,"func (b *StructUniqSetBuilder[V]) Build(",'''
func (b *StructUniqSetBuilder[V]) Build() *StructUniqSet[V] {
	res := &StructUniqSet[V]{
		build:         b.build,
		elements:      map[[16]byte]*structUniqSetElement{},
		ctx:           b.ctx,
		ttl:           b.ttl,
		checkInterval: b.checkInterval,
	}
	go res.cleaner()
	return res
}

func (s *StructUniqSet[V]) cleaner() {
	timer := time.NewTicker(s.checkInterval)
	defer timer.Stop()
	for {
		select {
		case <-s.ctx.Done():
			return
		case <-timer.C:
			s.sweep()
		}
	}
}

func (s *StructUniqSet[V]) sweep() {
	s.elementsMu.Lock()
	defer s.elementsMu.Unlock()
	for len(s.ttlElements) > 0 {
		el := s.ttlElements[0]
		if time.Since(el.createdAt) < s.ttl {
			return
		}
		s.ttlElements = s.ttlElements[1:]
		if s.elements[el.hash] == el {
			delete(s.elements, el.hash)
		}
	}
}
''')]),
("su-add-insert","",[F(SU,"func (s *StructUniqSet[V]) Add(",'''
func (s *StructUniqSet[V]) Add(v V) (added bool, err error) {
	hash, err := s.getHashCode(v)
	if err != nil {
		return false, err
	}
	s.elementsMu.Lock()
	defer s.elementsMu.Unlock()
	if s.elements[hash] != nil {
		return false, nil
	}
	el := &structUniqSetElement{hash: hash, createdAt: time.Now()}
	s.ttlElements = append(s.ttlElements, el)
	s.elements[hash] = el
	return true, nil
}
''')]),
("su-remove-defer","",[F(SU,"func (s *StructUniqSet[V]) Remove(",'''
func (s *StructUniqSet[V]) Remove(v V) (bool, error) {
	hash, err := s.getHashCode(v)
	if err != nil {
		return false, err
	}
	s.elementsMu.Lock()
	defer s.elementsMu.Unlock()
	if _, ok := s.elements[hash]; !ok {
		return false, nil
	}
	delete(s.elements, hash)
	return true, nil
}
'''),F(SU,"func getHashCode(",'''
func getHashCode(v any) (hash [16]byte, err error) {
	buffer := new(bytes.Buffer)
	if err = gob.NewEncoder(buffer).Encode(v); err == nil {
		hash = md5.Sum(buffer.Bytes())
	}
	return hash, err
}
''')]),
("su-has-defer","",[F(SU,"func (s *StructUniqSet[V]) Has(",'''
func (s *StructUniqSet[V]) Has(v V) (bool, error) {
	hash, err := s.build(v)
	if err != nil {
		return false, err
	}
	return s.contains(hash), nil
}

func (s *StructUniqSet[V]) contains(hash [16]byte) bool {
	s.elementsMu.RLock()
	defer s.elementsMu.RUnlock()
	return s.elements[hash] != nil
}
''')]),
("su-hash-partial-mut","U01",[F(SU,"func getHashCode(",'''
func getHashCode(v any) (hash [16]byte, err error) {
	buffer := new(bytes.Buffer)
	if err = gob.NewEncoder(buffer).Encode(v); err == nil {
		_ = md5.Size
		copy(hash[:], buffer.Bytes())
	}
	return hash, err
}
''')]),
# ---- two key map
("tk-unlink","",[F(TK,"func (m *TwoKeyMap[K1, K2, V]) Put(",'''
func (m *TwoKeyMap[K1, K2, V]) unlink(k1 K1, k2 K2) {
	delete(m.data, k1)
	delete(m.k1Tok2, k1)
	delete(m.k2Tok1, k2)
}

func (m *TwoKeyMap[K1, K2, V]) Put(k1 K1, k2 K2, v V) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if old, ok := m.k1Tok2[k1]; ok {
		m.unlink(k1, old)
	}
	if old, ok := m.k2Tok1[k2]; ok {
		m.unlink(old, k2)
	}
	m.data[k1] = v
	m.k1Tok2[k1] = k2
	m.k2Tok1[k2] = k1
}
'''),F(TK,"func (m *TwoKeyMap[K1, K2, V]) Remove(",'''
func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if k2, ok := m.k1Tok2[k1]; ok {
		m.unlink(k1, k2)
	}
}
'''),F(TK,"func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(",'''
func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if k1, ok := m.k2Tok1[k2]; ok {
		m.unlink(k1, k2)
	}
}
''')]),
("tk-get-compose","",[F(TK,"func (m *TwoKeyMap[K1, K2, V]) GetByK2(",'''
func (m *TwoKeyMap[K1, K2, V]) GetByK2(k2 K2) (V, bool) {
	m.mu.RLock()
	defer m.mu.RUnlock()
	if k1, ok := m.k2Tok1[k2]; ok {
		v, found := m.data[k1]
		return v, found
	}
	var zero V
	return zero, false
}
''')]),
("tk-get-twolocks-mut","T01",[F(TK,"func (m *TwoKeyMap[K1, K2, V]) GetByK2(",'''
func (m *TwoKeyMap[K1, K2, V]) GetByK2(k2 K2) (v V, ok bool) {
	m.mu.RLock()
	k1, ok := m.k2Tok1[k2]
	m.mu.RUnlock()
	if !ok {
		return v, false
	}
	return m.Get(k1)
}
''')]),
# ---- shard map
("sm-shard-struct-helper","",[F(SM,"func (m *ShardMap[K, V]) Get(",'''
func (m *ShardMap[K, V]) shard(key K) (map[K]V, *sync.RWMutex) {
	i := m.shardsFunc(key)
	return m.shards[i], &m.shardsLock[i]
}

func (m *ShardMap[K, V]) Get(key K) (V, bool) {
	i := m.shardsFunc(key)
	lock := &m.shardsLock[i]
	lock.RLock()
	v, ok := m.shards[i][key]
	lock.RUnlock()
	return v, ok
}
'''),F(SM,"func (m *ShardMap[K, V]) Has(",'''
func (m *ShardMap[K, V]) Has(key K) bool {
	_, ok := m.Get(key)
	return ok
}
'''),F(SM,"func (m *ShardMap[K, V]) SetIfNotExists(",'''
func (m *ShardMap[K, V]) SetIfNotExists(key K, value V) bool {
	_, created := m.SetIfNotExistsWithFunc(key, func() V { return value })
	return created
}
''')]),
("sm-shard-escape-mut","Q01",[F(SM,"func (m *ShardMap[K, V]) Get(",'''
func (m *ShardMap[K, V]) shard(key K) (map[K]V, *sync.RWMutex) {
	i := m.shardsFunc(key)
	return m.shards[i], &m.shardsLock[i]
}

func (m *ShardMap[K, V]) Get(key K) (V, bool) {
	s, lock := m.shard(key)
	lock.RLock()
	defer lock.RUnlock()
	v, ok := s[key]
	return v, ok
}
''')]),
("sm-clear-range","",[F(SM,"func (m *ShardMap[K, V]) Clear(",'''
func (m *ShardMap[K, V]) Clear() {
	for i := range m.shards {
		func() {
			m.shardsLock[i].Lock()
			defer m.shardsLock[i].Unlock()
			clear(m.shards[i])
		}()
	}
}
'''),F(SM,"func (m *ShardMap[K, V]) Size(",'''
func (m *ShardMap[K, V]) Size() (size int) {
	for i := range m.shards {
		size += m.shardSize(i)
	}
	return size
}

func (m *ShardMap[K, V]) shardSize(i int) int {
	m.shardsLock[i].RLock()
	defer m.shardsLock[i].RUnlock()
	return len(m.shards[i])
}
''')]),
("sm-with-lock","",[F(SM,"func (m *ShardMap[K, V]) Set(",'''
func (m *ShardMap[K, V]) locked(key K, f func(shard map[K]V)) {
	i := m.shardsFunc(key)
	m.shardsLock[i].Lock()
	defer m.shardsLock[i].Unlock()
	f(m.shards[i])
}

func (m *ShardMap[K, V]) Set(key K, value V) {
	m.locked(key, func(shard map[K]V) {
		shard[key] = value
	})
}
'''),F(SM,"func (m *ShardMap[K, V]) Delete(",'''
func (m *ShardMap[K, V]) Delete(key K) {
	m.locked(key, func(shard map[K]V) { delete(shard, key) })
}
'''),F(SM,"func (m *ShardMap[K, V]) SetIfNotExistsWithFunc(",'''
func (m *ShardMap[K, V]) SetIfNotExistsWithFunc(key K, fn func() V) (res V, created bool) {
	m.locked(key, func(shard map[K]V) {
		var ok bool
		if res, ok = shard[key]; ok {
			return
		}
		res, created = fn(), true
		shard[key] = res
	})
	return res, created
}
''')]),
# ---- set
("se-range-map","",[F(SE,"func (s *Set[T]) Equals(",'''
func (s *Set[T]) Equals(other *Set[T]) bool {
	return len(s.m) == len(other.m) && other.HasAll(s.Values()...)
}
'''),F(SE,"func (s *Set[T]) Clone(",'''
func (s *Set[T]) Clone() *Set[T] {
	return NewSet(s.Values()...)
}
'''),F(SE,"func (s *Set[T]) HasAny(",'''
func (s *Set[T]) HasAny(v ...T) bool {
	found := false
	for i := 0; i < len(v) && !found; i++ {
		found = s.Has(v[i])
	}
	return found
}
''')]),
("se-hasall-loop","",[F(SE,"func (s *Set[T]) HasAll(",'''
func (s *Set[T]) HasAll(v ...T) bool {
	ok := true
	for _, i := range v {
		ok = ok && s.Has(i)
	}
	return ok
}
'''),F(SE,"func (s *Set[T]) Clear(",'''
func (s *Set[T]) Clear() {
	s.m = make(map[T]struct{})
}
'''),F(SE,"func NewSet[",'''
func NewSet[T comparable](init ...T) *Set[T] {
	t := new(Set[T])
	t.m = make(map[T]struct{}, len(init))
	t.AddAll(init...)
	return t
}
''')]),
("se-equals-onesided-mut","S01",[F(SE,"func (s *Set[T]) Equals(",'''
func (s *Set[T]) Equals(other *Set[T]) bool {
	if s.Size() > other.Size() {
		return false
	}
	for v := range s.m {
		if !other.Has(v) {
			return false
		}
	}
	return true
}
''')]),
# ---- map
("mp-atomic","",[F(MP,"func (m *SimpleMap[K, V]) SetIfNotExists(",'''
func (m *SimpleMap[K, V]) SetIfNotExists(key K, value V) (created bool) {
	m.mu.Lock()
	if _, exists := m.m[key]; !exists {
		m.m[key] = value
		created = true
	}
	m.mu.Unlock()
	return created
}
'''),F(MP,"func (m *SimpleMap[K, V]) Has(",'''
func (m *SimpleMap[K, V]) Has(key K) (ok bool) {
	_, ok = m.Get(key)
	return
}
'''),F(MP,"func (m *SimpleMap[K, V]) Size(",'''
func (m *SimpleMap[K, V]) Size() int {
	m.mu.RLock()
	n := len(m.m)
	m.mu.RUnlock()
	return n
}
''')]),
("mp-fastpath","",[F(MP,"func (m *SimpleMap[K, V]) SetIfNotExistsWithFunc(",'''
func (m *SimpleMap[K, V]) SetIfNotExistsWithFunc(key K, fn func() V) (V, bool) {
	if v, ok := m.Get(key); ok {
		return v, false
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	v, ok := m.m[key]
	if !ok {
		v = fn()
		m.m[key] = v
	}
	return v, !ok
}
''')]),
("mp-fastpath-mut","M01",[F(MP,"func (m *SimpleMap[K, V]) SetIfNotExistsWithFunc(",'''
func (m *SimpleMap[K, V]) SetIfNotExistsWithFunc(key K, fn func() V) (V, bool) {
	if v, ok := m.Get(key); ok {
		return v, false
	}
	v := fn()
	m.mu.Lock()
	defer m.mu.Unlock()
	if old, ok := m.m[key]; ok {
		return old, false
	}
	m.m[key] = v
	return v, true
}
''')]),
# ---- lock map
("lm-getorcreate","",[F(LM,"func (mm *MapMutex[K]) Lock(",'''
func (mm *MapMutex[K]) find(k K) (*sync.Mutex, bool) {
	mm.mu.RLock()
	defer mm.mu.RUnlock()
	m, ok := mm.m[k]
	return m, ok
}

func (mm *MapMutex[K]) get(k K) *sync.Mutex {
	if m, ok := mm.find(k); ok {
		return m
	}
	mm.mu.Lock()
	defer mm.mu.Unlock()
	m := mm.m[k]
	if m == nil {
		m = new(sync.Mutex)
		mm.m[k] = m
	}
	return m
}

func (mm *MapMutex[K]) Lock(k K) {
	mm.get(k).Lock()
}
'''),F(LM,"func (mm *MapMutex[K]) Unlock(",'''
func (mm *MapMutex[K]) Unlock(k K) {
	if m, ok := mm.find(k); ok {
		m.Unlock()
	}
}
''')]),
("lm-generic-get","",[F(LM,"func (mm *MapRWMutex[K]) RLock(",'''
func getOrCreate[K comparable, L any](mu *sync.RWMutex, locks map[K]*L, k K) *L {
	mu.RLock()
	l, ok := locks[k]
	mu.RUnlock()
	if ok {
		return l
	}
	mu.Lock()
	defer mu.Unlock()
	if l, ok = locks[k]; !ok {
		l = new(L)
		locks[k] = l
	}
	return l
}

func (mm *MapRWMutex[K]) RLock(k K) {
	getOrCreate(&mm.mu, mm.m, k).RLock()
}
'''),F(LM,"func (mm *MapRWMutex[K]) Lock(",'''
func (mm *MapRWMutex[K]) Lock(k K) {
	getOrCreate(&mm.mu, mm.m, k).Lock()
}
''')]),
("lm-unlock-defer-hold","",[F(LM,"func (mm *MapMutex[K]) Unlock(",'''
func (mm *MapMutex[K]) Unlock(k K) {
	mm.mu.RLock()
	defer mm.mu.RUnlock()
	if m, ok := mm.m[k]; ok {
		m.Unlock()
	}
}
''')]),
("lm-lock-hold-mut","L01",[F(LM,"func (mm *MapMutex[K]) Lock(",'''
func (mm *MapMutex[K]) Lock(k K) {
	mm.mu.RLock()
	m, ok := mm.m[k]
	if ok {
		defer mm.mu.RUnlock()
		m.Lock()
		return
	}
	mm.mu.RUnlock()
	mm.mu.Lock()
	m, ok = mm.m[k]
	if !ok {
		m = &sync.Mutex{}
		mm.m[k] = m
	}
	mm.mu.Unlock()
	m.Lock()
}
''')]),
("sm-set-escape-mut","M01 Q01",[F(SM,"func (m *ShardMap[K, V]) Set(",'''
func (m *ShardMap[K, V]) shard(key K) (map[K]V, *sync.RWMutex) {
	i := m.shardsFunc(key)
	return m.shards[i], &m.shardsLock[i]
}

func (m *ShardMap[K, V]) Set(key K, value V) {
	s, lock := m.shard(key)
	lock.Lock()
	defer lock.Unlock()
	s[key] = value
}
''')]),
("se-hasall-last-mut","S01",[F(SE,"func (s *Set[T]) HasAll(",'''
func (s *Set[T]) HasAll(v ...T) bool {
	ok := true
	for _, i := range v {
		ok = s.Has(i)
	}
	return ok
}
''')]),
("se-hasany-and-mut","S01",[F(SE,"func (s *Set[T]) HasAny(",'''
func (s *Set[T]) HasAny(v ...T) bool {
	found := true
	for _, i := range v {
		found = found && s.Has(i)
	}
	return found
}
''')]),
("se-hasany-stop-mut","S01",[F(SE,"func (s *Set[T]) HasAny(",'''
func (s *Set[T]) HasAny(v ...T) bool {
	found := false
	for i := 0; i < len(v)-1 && !found; i++ {
		found = s.Has(v[i])
	}
	return found
}
''')]),
("se-hasany-flag-mut","S01",[F(SE,"func (s *Set[T]) HasAny(",'''
func (s *Set[T]) HasAny(v ...T) bool {
	found := false
	stop := false
	for i := 0; i < len(v) && !stop; i++ {
		found = s.Has(v[i])
		stop = !found
	}
	return found
}
''')]),
]

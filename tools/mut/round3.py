"""Second battery of single-function rewrites: collections."""
from round2 import F
G="collections/guava_map.go"; W="collections/wait_map.go"; H="collections/hash_set.go"
M=[
# --- guava
("g-touch-helper","",[F(G,"func (m *GuavaMap[K, V]) Has(",'''
// touch restarts the read timeout of a holder.
func (m *GuavaMap[K, V]) touch(h *guavaHolder[V]) {
	if m.readTimeout <= 0 || h.timer == nil {
		return
	}
	h.timer.Reset(m.readTimeout)
}

func (m *GuavaMap[K, V]) Has(key K) bool {
	m.mu.RLock()
	defer m.mu.RUnlock()
	h, found := m.stored[key]
	if !found {
		return false
	}
	m.touch(h)
	return true
}
'''),F(G,"func (m *GuavaMap[K, V]) HasOrCreate(",'''
func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if h, found := m.stored[key]; found {
		m.touch(h)
		return true
	}
	m.insert(key, value)
	return false
}

// insert stores a key that is not there, evicting the oldest one when full.
func (m *GuavaMap[K, V]) insert(key K, value V) {
	if m.maxCount > 0 {
		for len(m.storedSlice) >= m.maxCount {
			m.safeDelete(m.storedSlice[0])
		}
		m.storedSlice = append(m.storedSlice, key)
	}
	m.stored[key] = m.createHolder(key, value)
}
'''),F(G,"func (m *GuavaMap[K, V]) safeSet(",'''
func (m *GuavaMap[K, V]) safeSet(key K, val V) {
	h, ok := m.stored[key]
	if !ok {
		m.insert(key, val)
		return
	}
	h.v = val
	if h.timer == nil {
		return
	}
	timeout := m.readTimeout
	if m.writeTimeout > 0 {
		timeout = m.writeTimeout
	}
	h.timer.Reset(timeout)
}
''')]),
("g-lookup-helper","",[F(G,"func (m *GuavaMap[K, V]) Get(",'''
// lookup returns the stored value of a key, restarting its read timeout. mu must be held.
func (m *GuavaMap[K, V]) lookup(key K) (V, bool) {
	h, ok := m.stored[key]
	if !ok {
		var zero V
		return zero, false
	}
	if h.timer != nil && m.readTimeout > 0 {
		h.timer.Reset(m.readTimeout)
	}
	return h.v, true
}

func (m *GuavaMap[K, V]) peek(key K) (V, bool) {
	m.mu.RLock()
	defer m.mu.RUnlock()
	return m.lookup(key)
}

func (m *GuavaMap[K, V]) Get(key K) (V, error) {
	if v, ok := m.peek(key); ok {
		return v, nil
	}
	var zero V
	if m.loadFunc == nil {
		return zero, nil
	}
	if m.lockLoad != nil {
		m.lockLoad.Lock(key)
		defer m.lockLoad.Unlock(key)
		if v, ok := m.peek(key); ok {
			return v, nil
		}
	}
	loaded, err := m.loadFunc(key)
	if err != nil {
		return zero, err
	}
	return m.storeLoaded(key, loaded), nil
}

func (m *GuavaMap[K, V]) storeLoaded(key K, loaded V) V {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.lookup(key); ok {
		return v
	}
	if m.maxCount > 0 && len(m.storedSlice) >= m.maxCount {
		m.safeDelete(m.storedSlice[0])
	}
	if m.maxCount > 0 {
		m.storedSlice = append(m.storedSlice, key)
	}
	m.stored[key] = m.createHolder(key, loaded)
	return loaded
}
''')]),
("g-lookup-helper-noretouch-mut","G01",[F(G,"func (m *GuavaMap[K, V]) Get(",'''
func (m *GuavaMap[K, V]) Get(key K) (V, error) {
	m.mu.RLock()
	val, ok := m.stored[key]
	if ok {
		if val.timer != nil && m.readTimeout > 0 {
			val.timer.Reset(m.readTimeout)
		}
		v := val.v
		m.mu.RUnlock()
		return v, nil
	}
	m.mu.RUnlock()
	var zero V
	if m.loadFunc == nil {
		return zero, nil
	}
	if m.lockLoad != nil {
		m.lockLoad.Lock(key)
		defer m.lockLoad.Unlock(key)
		m.mu.RLock()
		val, ok = m.stored[key]
		m.mu.RUnlock()
		if ok {
			return val.v, nil
		}
	}
	loaded, err := m.loadFunc(key)
	if err != nil {
		return zero, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if val, ok = m.stored[key]; ok {
		return val.v, nil
	}
	m.stored[key] = m.createHolder(key, loaded)
	if m.maxCount > 0 {
		m.storedSlice = append(m.storedSlice, key)
		if len(m.storedSlice) >= m.maxCount {
			m.safeDelete(m.storedSlice[0])
		}
	}
	return loaded, nil
}
''')]),
("g-delete-split","",[F(G,"func (m *GuavaMap[K, V]) safeDelete(",'''
func (m *GuavaMap[K, V]) safeDelete(key K) {
	if h, ok := m.stored[key]; ok {
		delete(m.stored, key)
		m.forget(key)
		m.retire(key, h)
	}
}

func (m *GuavaMap[K, V]) retire(key K, h *guavaHolder[V]) {
	if cancel := h.cancelFn; cancel != nil {
		cancel()
	}
	if unload := m.unloadFunc; unload != nil {
		go unload(key, h.v)
	}
}

func (m *GuavaMap[K, V]) forget(key K) {
	if m.maxCount <= 0 {
		return
	}
	for i := range m.storedSlice {
		if m.storedSlice[i] != key {
			continue
		}
		copy(m.storedSlice[i:], m.storedSlice[i+1:])
		m.storedSlice = m.storedSlice[:len(m.storedSlice)-1]
		return
	}
}
'''),F(G,"func (m *GuavaMap[K, V]) Clear(",'''
func (m *GuavaMap[K, V]) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	old := m.stored
	m.stored = make(map[K]*guavaHolder[V])
	if m.maxCount > 0 {
		m.storedSlice = m.storedSlice[:0]
	}
	for key, h := range old {
		m.retire(key, h)
	}
}
''')]),
("g-delete-index-helper","",[F(G,"func (m *GuavaMap[K, V]) safeDelete(",'''
func indexOf[K comparable](keys []K, key K) int {
	for i, k := range keys {
		if k == key {
			return i
		}
	}
	return -1
}

func (m *GuavaMap[K, V]) safeDelete(key K) {
	v, ok := m.stored[key]
	if !ok {
		return
	}
	delete(m.stored, key)
	if v.cancelFn != nil {
		v.cancelFn()
	}
	if i := indexOf(m.storedSlice, key); i >= 0 {
		m.storedSlice = append(m.storedSlice[:i], m.storedSlice[i+1:]...)
	}
	if m.unloadFunc != nil {
		go func(f GuavaUnloadFunc[K, V], val V) {
			f(key, val)
		}(m.unloadFunc, v.v)
	}
}
''')]),
("g-clear-loop-delete","",[F(G,"func (m *GuavaMap[K, V]) Clear(",'''
func (m *GuavaMap[K, V]) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k, v := range m.stored {
		if v.cancelFn != nil {
			v.cancelFn()
		}
		if m.unloadFunc != nil {
			go m.unloadFunc(k, v.v)
		}
		delete(m.stored, k)
	}
	if m.maxCount > 0 {
		m.storedSlice = make([]K, 0, m.maxCount)
	}
}
''')]),
("g-clear-loop-keeps-list-mut","G01",[F(G,"func (m *GuavaMap[K, V]) Clear(",'''
func (m *GuavaMap[K, V]) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k, v := range m.stored {
		if v.cancelFn != nil {
			v.cancelFn()
		}
		if m.unloadFunc != nil {
			go m.unloadFunc(k, v.v)
		}
		delete(m.stored, k)
	}
}
''')]),
("g-room-loop-off-mut","G01",[F(G,"func (m *GuavaMap[K, V]) HasOrCreate(",'''
func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if h, found := m.stored[key]; found {
		if h.timer != nil && m.readTimeout > 0 {
			h.timer.Reset(m.readTimeout)
		}
		return true
	}
	if m.maxCount > 0 {
		for len(m.storedSlice) > m.maxCount {
			m.safeDelete(m.storedSlice[0])
		}
		m.storedSlice = append(m.storedSlice, key)
	}
	m.stored[key] = m.createHolder(key, value)
	return false
}
''')]),
("g-clear-safedelete","",[F(G,"func (m *GuavaMap[K, V]) Clear(",'''
func (m *GuavaMap[K, V]) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k := range m.stored {
		m.safeDelete(k)
	}
}
''')]),
("g-holder-newtimer-method","",[F(G,"func (m *GuavaMap[K, V]) createHolder(",'''
func (m *GuavaMap[K, V]) initialTimeout() time.Duration {
	if m.writeTimeout > 0 {
		return m.writeTimeout
	}
	return m.readTimeout
}

func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
	holder := &guavaHolder[V]{v: value}
	timeout := m.initialTimeout()
	if timeout <= 0 {
		return holder
	}
	ctx, cancel := context.WithCancel(m.ctx)
	holder.cancelFn = cancel
	holder.timer = time.NewTimer(timeout)
	go m.expire(ctx, key, holder)
	return holder
}

func (m *GuavaMap[K, V]) expire(ctx context.Context, key K, holder *guavaHolder[V]) {
	defer holder.timer.Stop()
	select {
	case <-ctx.Done():
	case <-holder.timer.C:
		m.mu.Lock()
		defer m.mu.Unlock()
		if current, ok := m.stored[key]; ok && current == holder {
			m.safeDelete(key)
		}
	}
}
''')]),
("g-holder-no-identity-mut","G04",[F(G,"func (m *GuavaMap[K, V]) createHolder(",'''
func (m *GuavaMap[K, V]) createHolder(key K, value V) *guavaHolder[V] {
	holder := &guavaHolder[V]{v: value}
	if m.readTimeout <= 0 && m.writeTimeout <= 0 {
		return holder
	}
	ctx, cancel := context.WithCancel(m.ctx)
	holder.cancelFn = cancel
	timeout := m.writeTimeout
	if timeout <= 0 {
		timeout = m.readTimeout
	}
	holder.timer = time.NewTimer(timeout)
	go func() {
		defer holder.timer.Stop()
		select {
		case <-ctx.Done():
			return
		case <-holder.timer.C:
		}
		m.mu.Lock()
		defer m.mu.Unlock()
		if _, ok := m.stored[key]; ok {
			m.safeDelete(key)
		}
	}()
	return holder
}
''')]),
("g-update-lock-helper","",[F(G,"func (m *GuavaMap[K, V]) LockForUpdate(",'''
func (m *GuavaMap[K, V]) withKeyLock(key K, f func()) {
	lock := m.getKeyLock(key)
	defer m.releaseKeyLock(key, lock)
	lock.Lock()
	defer lock.Unlock()
	f()
}

func (m *GuavaMap[K, V]) LockForUpdate(key K, update func() V) (res V) {
	m.withKeyLock(key, func() {
		res = update()
		m.Set(key, res)
	})
	return res
}
''')]),
("g-getkeylock-lazy","",[F(G,"func (m *GuavaMap[K, V]) getKeyLock(",'''
func (m *GuavaMap[K, V]) getKeyLock(key K) *updateLock {
	m.updateLockMapMu.Lock()
	defer m.updateLockMapMu.Unlock()
	if lock, ok := m.updateLockMap[key]; ok {
		lock.refs++
		return lock
	}
	if m.updateLockMap == nil {
		m.updateLockMap = map[K]*updateLock{}
	}
	lock := &updateLock{refs: 1}
	m.updateLockMap[key] = lock
	return lock
}
'''),F(G,"func (m *GuavaMap[K, V]) releaseKeyLock(",'''
func (m *GuavaMap[K, V]) releaseKeyLock(key K, lock *updateLock) {
	m.updateLockMapMu.Lock()
	defer m.updateLockMapMu.Unlock()
	if lock.refs--; lock.refs > 0 {
		return
	}
	delete(m.updateLockMap, key)
}
''')]),
("g-release-always-mut","G05",[F(G,"func (m *GuavaMap[K, V]) releaseKeyLock(",'''
func (m *GuavaMap[K, V]) releaseKeyLock(key K, lock *updateLock) {
	m.updateLockMapMu.Lock()
	defer m.updateLockMapMu.Unlock()
	lock.refs--
	if lock.refs <= 1 {
		delete(m.updateLockMap, key)
	}
}
''')]),
("g-getstored-defer","",[F(G,"func (m *GuavaMap[K, V]) GetStored(",'''
func (m *GuavaMap[K, V]) GetStored() map[K]V {
	m.mu.RLock()
	defer m.mu.RUnlock()
	result := map[K]V{}
	for key := range m.stored {
		holder := m.stored[key]
		result[key] = holder.v
	}
	return result
}
''')]),
# --- wait map
("w-helpers","",[F(W,"func (wm *WaitMap[K, V]) Wait(",'''
func (wm *WaitMap[K, V]) peek(key K) (V, bool) {
	wm.mu.RLock()
	defer wm.mu.RUnlock()
	v, ok := wm.dataHolder[key]
	return v, ok
}

// subscribe returns the value when it is known, or a channel it will come on.
func (wm *WaitMap[K, V]) subscribe(key K) (value V, ch chan V) {
	wm.mu.Lock()
	defer wm.mu.Unlock()
	if v, ok := wm.dataHolder[key]; ok {
		return v, nil
	}
	ch = make(chan V, 1)
	waiters := wm.waiterChannels[key]
	wm.waiterChannels[key] = append(waiters, ch)
	if len(waiters) == 0 {
		go wm.watch(key, ch)
	}
	return value, ch
}

func (wm *WaitMap[K, V]) watch(key K, first chan V) {
	timer := time.NewTimer(wm.requestTimeout)
	defer timer.Stop()
	select {
	case <-wm.ctx.Done():
		wm.mu.Lock()
		defer wm.mu.Unlock()
		var zero V
		wm.release(key, zero)
	case <-timer.C:
		wm.mu.Lock()
		defer wm.mu.Unlock()
		if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == first {
			var zero V
			wm.set(key, zero)
		}
	}
}

// release wakes the waiters of the key, mu must be held
func (wm *WaitMap[K, V]) release(key K, value V) {
	for _, ch := range wm.waiterChannels[key] {
		ch <- value
		close(ch)
	}
	delete(wm.waiterChannels, key)
}

func (wm *WaitMap[K, V]) Wait(key K) V {
	if value, ok := wm.peek(key); ok {
		return value
	}
	value, ch := wm.subscribe(key)
	if ch == nil {
		return value
	}
	return <-ch
}
'''),F(W,"func (wm *WaitMap[K, V]) set(",'''
func (wm *WaitMap[K, V]) set(key K, value V) {
	if _, ok := wm.dataHolder[key]; ok {
		return
	}
	wm.dataHolder[key] = value
	wm.release(key, value)
	go wm.evict(key)
}

func (wm *WaitMap[K, V]) evict(key K) {
	select {
	case <-wm.ctx.Done():
	case <-time.After(wm.responseTtl):
	}
	wm.mu.Lock()
	defer wm.mu.Unlock()
	delete(wm.dataHolder, key)
}
''')]),
("w-afterfunc","",[F(W,"func (wm *WaitMap[K, V]) set(",'''
func (wm *WaitMap[K, V]) set(key K, value V) {
	if _, exists := wm.dataHolder[key]; exists {
		return
	}
	wm.dataHolder[key] = value
	chans := wm.waiterChannels[key]
	delete(wm.waiterChannels, key)
	for i := range chans {
		chans[i] <- value
		close(chans[i])
	}
	go func(ttl time.Duration) {
		select {
		case <-wm.ctx.Done():
		case <-time.After(ttl):
		}
		wm.mu.Lock()
		delete(wm.dataHolder, key)
		wm.mu.Unlock()
	}(wm.responseTtl)
}
''')]),
("w-nolock-first","",[F(W,"func (wm *WaitMap[K, V]) Wait(",'''
func (wm *WaitMap[K, V]) Wait(key K) V {
	wm.mu.Lock()
	if value, ok := wm.dataHolder[key]; ok {
		wm.mu.Unlock()
		return value
	}
	ch := make(chan V, 1)
	if _, ok := wm.waiterChannels[key]; !ok {
		go func() {
			select {
			case <-wm.ctx.Done():
				wm.mu.Lock()
				defer wm.mu.Unlock()
				var v V
				for _, c := range wm.waiterChannels[key] {
					c <- v
					close(c)
				}
				delete(wm.waiterChannels, key)
			case <-time.After(wm.requestTimeout):
				wm.mu.Lock()
				defer wm.mu.Unlock()
				chans := wm.waiterChannels[key]
				if len(chans) == 0 || chans[0] != ch {
					return
				}
				var v V
				wm.set(key, v)
			}
		}()
	}
	wm.waiterChannels[key] = append(wm.waiterChannels[key], ch)
	wm.mu.Unlock()
	return <-ch
}
''')]),
("w-unbuffered-mut","V01",[F(W,"func (wm *WaitMap[K, V]) Wait(",'''
func (wm *WaitMap[K, V]) Wait(key K) V {
	wm.mu.Lock()
	if value, ok := wm.dataHolder[key]; ok {
		wm.mu.Unlock()
		return value
	}
	ch := make(chan V, 1)
	if len(wm.waiterChannels[key]) == 0 {
		go func() {
			select {
			case <-wm.ctx.Done():
				wm.mu.Lock()
				defer wm.mu.Unlock()
				var v V
				for _, c := range wm.waiterChannels[key] {
					c <- v
					close(c)
					break
				}
				delete(wm.waiterChannels, key)
			case <-time.After(wm.requestTimeout):
				wm.mu.Lock()
				defer wm.mu.Unlock()
				chans := wm.waiterChannels[key]
				if len(chans) == 0 || chans[0] != ch {
					return
				}
				var v V
				wm.set(key, v)
			}
		}()
	}
	wm.waiterChannels[key] = append(wm.waiterChannels[key], ch)
	wm.mu.Unlock()
	return <-ch
}
''')]),
("w-count-one","",[F(W,"func (wm *WaitMap[K, V]) Count(",'''
func (wm *WaitMap[K, V]) Count() (n int) {
	wm.mu.RLock()
	n = len(wm.waiterChannels)
	n += len(wm.dataHolder)
	wm.mu.RUnlock()
	return
}
''')]),
# --- hash set
("h-insert-helper","",[F(H,"func (s *HashSet[K]) Add(",'''
// insert adds a key unless it is there, it reports whether it was. mu must be held.
func (s *HashSet[K]) insert(key K) bool {
	if s.m[key] {
		return true
	}
	s.m[key] = true
	s.ml = append(s.ml, key)
	s.trim()
	return false
}

func (s *HashSet[K]) trim() {
	if s.maxCount <= 0 {
		return
	}
	for len(s.ml) > s.maxCount {
		oldest := s.ml[0]
		s.ml = s.ml[1:]
		delete(s.m, oldest)
	}
}

func (s *HashSet[K]) Add(key K) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.insert(key)
}
'''),F(H,"func (s *HashSet[K]) HasOrCreate(",'''
func (s *HashSet[K]) HasOrCreate(key K) bool {
	if s.Has(key) {
		return true
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.insert(key)
}
''')]),
("h-add-via-hoc","",[F(H,"func (s *HashSet[K]) Add(",'''
func (s *HashSet[K]) Add(key K) {
	_ = s.HasOrCreate(key)
}
''')]),
("h-delete-filter","",[F(H,"func (s *HashSet[K]) Delete(",'''
func (s *HashSet[K]) Delete(key K) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[key]; !ok {
		return
	}
	delete(s.m, key)
	kept := s.ml[:0]
	for _, k := range s.ml {
		if k != key {
			kept = append(kept, k)
		}
	}
	s.ml = kept
}
''')]),
("h-delete-new-slice","",[F(H,"func (s *HashSet[K]) Delete(",'''
func (s *HashSet[K]) Delete(key K) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.m, key)
	kept := make([]K, 0, len(s.ml))
	for _, k := range s.ml {
		if k == key {
			continue
		}
		kept = append(kept, k)
	}
	s.ml = kept
}
''')]),
("h-delete-early-mut","H01",[F(H,"func (s *HashSet[K]) Delete(",'''
func (s *HashSet[K]) Delete(key K) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.m, key)
	for i := len(s.ml) - 1; i > 0; i-- {
		if s.ml[i] == key {
			s.ml = append(s.ml[:i], s.ml[i+1:]...)
			break
		}
	}
}
''')]),
("h-delete-backwards","",[F(H,"func (s *HashSet[K]) Delete(",'''
func (s *HashSet[K]) Delete(key K) {
	s.mu.Lock()
	defer s.mu.Unlock()
	delete(s.m, key)
	for i := len(s.ml) - 1; i >= 0; i-- {
		if s.ml[i] == key {
			s.ml = append(s.ml[:i], s.ml[i+1:]...)
			break
		}
	}
}
''')]),
("h-keys-index","",[F(H,"func (s *HashSet[K]) Keys(",'''
func (s *HashSet[K]) Keys() []K {
	s.mu.RLock()
	defer s.mu.RUnlock()
	keys := make([]K, len(s.m))
	i := 0
	for k := range s.m {
		keys[i] = k
		i++
	}
	return keys
}
''')]),
("h-keys-copy-ml","",[F(H,"func (s *HashSet[K]) Keys(",'''
func (s *HashSet[K]) Keys() []K {
	s.mu.RLock()
	defer s.mu.RUnlock()
	return append([]K(nil), s.ml...)
}
''')]),
]

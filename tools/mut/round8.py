"""Rewrites with the standard library's helpers, other lock kinds and moved state: behaviour unchanged."""
from round2 import F
CC="chans/chunk_chan.go"; SC="chans/shard_chan.go"; SK="chans/shard_chunk_chan.go"
G="collections/guava_map.go"; HS="collections/hash_set.go"; HO="collections/holder_map.go"; RQ="collections/request_map.go"
RS="collections/response_map.go"; SU="collections/struct_uniq_set.go"; TK="collections/two_key_map.go"; SM="collections/shard_map.go"
WM="collections/wait_map.go"; LM="collections/lock_map.go"; RU="workers/runner.go"; FP="flow/processor.go"
MP="collections/map.go"; ST="collections/set.go"; CM="comparer/comparer.go"; FS="crypto_fs/crypto_fs.go"; NB="net/to_bytes.go"; NR="net/read.go"; Z="zip/gzip.go"; AE="crypto/aes.go"; HA="crypto/hash.go"; MM="math/minmax.go"; DI="math/decimal_int.go"
S='import "sync"\n'
def imp(f,*names): return (f,S,'import (\n'+''.join('\t"%s"\n'%n for n in sorted(names+("sync",)))+')\n')
def addimp(f,name): return (f,'import (\n','import (\n\t"%s"\n'%name)
LOOP="""	for i, k := range s.ml {
		if k == key {
			s.ml = append(s.ml[:i], s.ml[i+1:]...)
			break
		}
	}
"""
M=[
# ---- hash set
("h-slices-index","",[imp(HS,"slices"),(HS,LOOP,"	if i := slices.Index(s.ml, key); i >= 0 {\n		s.ml = slices.Delete(s.ml, i, i+1)\n	}\n")]),
("h-delete-func","",[imp(HS,"slices"),(HS,LOOP,"	s.ml = slices.DeleteFunc(s.ml, func(k K) bool { return k == key })\n")]),
("h-keys-collect","",[imp(HS,"slices","maps"),(HS,"	keys := make([]K, 0, len(s.m))\n	for k := range s.m {\n		keys = append(keys, k)\n	}\n	return keys\n","	return slices.AppendSeq(make([]K, 0, len(s.m)), maps.Keys(s.m))\n")]),
("h-keys-clone","",[imp(HS,"slices"),(HS,"	keys := make([]K, 0, len(s.m))\n	for k := range s.m {\n		keys = append(keys, k)\n	}\n	return keys\n","	keys := make([]K, len(s.ml))\n	copy(keys, s.ml)\n	return keys\n"),(HS,'	"slices"\n',"")]),
("h-clear-builtin","",[(HS,"	s.m = make(map[K]bool)\n	s.ml = make([]K, 0)\n","	clear(s.m)\n	s.ml = nil\n")]),
("h-clear-trunc","",[(HS,"	s.m = make(map[K]bool)\n	s.ml = make([]K, 0)\n","	clear(s.m)\n	s.ml = s.ml[:0]\n")]),
("h-map-value","",[(HS,"	if _, ok := s.m[key]; ok {\n		return\n	}\n	s.m[key] = true\n","	if s.m[key] {\n		return\n	}\n	s.m[key] = true\n")]),
("h-struct-set","",[(HS,"map[K]bool","map[K]struct{}"),(HS,"s.m[key] = true","s.m[key] = struct{}{}")] ),
("h-add-via-create","",[F(HS,"func (s *HashSet[K]) Add(key K) {","func (s *HashSet[K]) Add(key K) {\n	s.HasOrCreate(key)\n}")]),
("h-plain-mutex","",[(HS,"sync.RWMutex","sync.Mutex"),(HS,"RLock","Lock"),(HS,"RUnlock","Unlock")]),
# ---- simple map
("m-getorset-helper","",[F(MP,"func (m *SimpleMap[K, V]) SetIfNotExists(key K, value V) bool {","func (m *SimpleMap[K, V]) SetIfNotExists(key K, value V) bool {\n	_, set := m.SetIfNotExistsWithFunc(key, func() V { return value })\n	return set\n}")]),
("m-has-get","",[F(MP,"func (m *SimpleMap[K, V]) Has(key K) bool {","func (m *SimpleMap[K, V]) Has(key K) bool {\n	_, ok := m.Get(key)\n	return ok\n}")]),
("m-plain-mutex","",[(MP,"sync.RWMutex","sync.Mutex"),(MP,"RLock","Lock"),(MP,"RUnlock","Unlock")]),
# ---- set
("s-values-collect","",[(ST,"package collections\n",'package collections\n\nimport (\n	"maps"\n	"slices"\n)\n'),(ST,"	values := make([]T, 0, len(s.m))\n	for v := range s.m {\n		values = append(values, v)\n	}\n	return values\n","	return slices.AppendSeq(make([]T, 0, len(s.m)), maps.Keys(s.m))\n")]),
("s-clone-maps","",[(ST,"package collections\n",'package collections\n\nimport "maps"\n'),F(ST,"func (s *Set[T]) Clone() *Set[T] {","func (s *Set[T]) Clone() *Set[T] {\n	return &Set[T]{m: maps.Clone(s.m)}\n}")]),
("s-clone-copy","",[(ST,"package collections\n",'package collections\n\nimport "maps"\n'),F(ST,"func (s *Set[T]) Clone() *Set[T] {","func (s *Set[T]) Clone() *Set[T] {\n	clone := NewSet[T]()\n	maps.Copy(clone.m, s.m)\n	return clone\n}")]),
("s-equals-maps","",[(ST,"package collections\n",'package collections\n\nimport "maps"\n'),F(ST,"func (s *Set[T]) Equals(other *Set[T]) bool {","func (s *Set[T]) Equals(other *Set[T]) bool {\n	return maps.Equal(s.m, other.m)\n}")]),
("s-hasany-slices","",[(ST,"package collections\n",'package collections\n\nimport "slices"\n'),F(ST,"func (s *Set[T]) HasAny(v ...T) bool {","func (s *Set[T]) HasAny(v ...T) bool {\n	return slices.ContainsFunc(v, s.Has)\n}")]),
("s-hasall-not","",[(ST,"package collections\n",'package collections\n\nimport "slices"\n'),F(ST,"func (s *Set[T]) HasAll(v ...T) bool {","func (s *Set[T]) HasAll(v ...T) bool {\n	return !slices.ContainsFunc(v, func(i T) bool { return !s.Has(i) })\n}")]),
("s-new-addall","",[(ST,"	for _, v := range init {\n		t.Add(v)\n	}\n	return t\n","	t.AddAll(init...)\n	return t\n")]),
("s-equals-clone","",[F(ST,"func (s *Set[T]) Equals(other *Set[T]) bool {","func (s *Set[T]) Equals(other *Set[T]) bool {\n	return s.Size() == other.Size() && other.HasAll(s.Values()...)\n}")]),
("s-clone-ctor","",[F(ST,"func (s *Set[T]) Clone() *Set[T] {","func (s *Set[T]) Clone() *Set[T] {\n	return NewSet(s.Values()...)\n}")]),
# ---- two key map
("t-keys-collect","",[imp(TK,"maps","slices"),(TK,"	keys := make([]K1, 0, len(m.data))\n	for k := range m.data {\n		keys = append(keys, k)\n	}\n	return keys\n","	return slices.AppendSeq(make([]K1, 0, len(m.data)), maps.Keys(m.data))\n")]),
("t-remove-both","",[F(TK,"func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {","func (m *TwoKeyMap[K1, K2, V]) Remove(k1 K1) {\n	m.mu.Lock()\n	defer m.mu.Unlock()\n	if k2, ok := m.k1Tok2[k1]; ok {\n		m.forget(k1, k2)\n	}\n}\n\nfunc (m *TwoKeyMap[K1, K2, V]) forget(k1 K1, k2 K2) {\n	delete(m.data, k1)\n	delete(m.k1Tok2, k1)\n	delete(m.k2Tok1, k2)\n}"),F(TK,"func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {","func (m *TwoKeyMap[K1, K2, V]) RemoveByK2(k2 K2) {\n	m.mu.Lock()\n	defer m.mu.Unlock()\n	if k1, ok := m.k2Tok1[k2]; ok {\n		m.forget(k1, k2)\n	}\n}")]),
# ---- shard map
("sm-shard-struct","",[(SM,"""type ShardMap[K comparable, V any] struct {
	shards      []map[K]V
	shardsLock  []sync.RWMutex
""","""type mapShard[K comparable, V any] struct {
	m  map[K]V
	mu sync.RWMutex
}

type ShardMap[K comparable, V any] struct {
	shards      []mapShard[K, V]
"""),(SM,"m.shardsLock[shard]","m.shards[shard].mu"),(SM,"m.shardsLock[i]","m.shards[i].mu"),(SM,"m.shards[shard][key]","m.shards[shard].m[key]"),(SM,"delete(m.shards[shard], key)","delete(m.shards[shard].m, key)"),(SM,"m.shards[i] = make","m.shards[i].m = make"),(SM,"len(m.shards[i])","len(m.shards[i].m)"),(SM,"		shards:      make([]map[K]V, b.shardsCount),\n		shardsLock:  make([]sync.RWMutex, b.shardsCount),\n","		shards:      make([]mapShard[K, V], b.shardsCount),\n")]),
("sm-shard-pointers","",[(SM,"""type ShardMap[K comparable, V any] struct {
	shards      []map[K]V
	shardsLock  []sync.RWMutex
""","""type ShardMap[K comparable, V any] struct {
	shards      []*SimpleMap[K, V]
"""),F(SM,"func (m *ShardMap[K, V]) Get(key K) (V, bool) {","func (m *ShardMap[K, V]) Get(key K) (V, bool) {\n	return m.shards[m.shardsFunc(key)].Get(key)\n}"),F(SM,"func (m *ShardMap[K, V]) Set(key K, value V) {","func (m *ShardMap[K, V]) Set(key K, value V) {\n	m.shards[m.shardsFunc(key)].Set(key, value)\n}"),F(SM,"func (m *ShardMap[K, V]) Delete(key K) {","func (m *ShardMap[K, V]) Delete(key K) {\n	m.shards[m.shardsFunc(key)].Delete(key)\n}"),F(SM,"func (m *ShardMap[K, V]) Has(key K) bool {","func (m *ShardMap[K, V]) Has(key K) bool {\n	return m.shards[m.shardsFunc(key)].Has(key)\n}"),F(SM,"func (m *ShardMap[K, V]) SetIfNotExists(key K, value V) bool {","func (m *ShardMap[K, V]) SetIfNotExists(key K, value V) bool {\n	return m.shards[m.shardsFunc(key)].SetIfNotExists(key, value)\n}"),F(SM,"func (m *ShardMap[K, V]) SetIfNotExistsWithFunc(key K, fn func() V) (V, bool) {","func (m *ShardMap[K, V]) SetIfNotExistsWithFunc(key K, fn func() V) (V, bool) {\n	return m.shards[m.shardsFunc(key)].SetIfNotExistsWithFunc(key, fn)\n}"),F(SM,"func (m *ShardMap[K, V]) Clear() {","func (m *ShardMap[K, V]) Clear() {\n	for _, s := range m.shards {\n		s.mu.Lock()\n		s.m = make(map[K]V)\n		s.mu.Unlock()\n	}\n}"),F(SM,"func (m *ShardMap[K, V]) Size() int {","func (m *ShardMap[K, V]) Size() int {\n	count := 0\n	for _, s := range m.shards {\n		count += s.Size()\n	}\n	return count\n}"),(SM,"		shards:      make([]map[K]V, b.shardsCount),\n		shardsLock:  make([]sync.RWMutex, b.shardsCount),\n","		shards:      make([]*SimpleMap[K, V], b.shardsCount),\n"),(SM,"		m.shards[i] = make(map[K]V)\n","		m.shards[i] = NewSimpleMap[K, V]()\n"),(SM,'import "sync"\n',"")]),
# ---- lock map
("l-generic","",[F(LM,"func (mm *MapMutex[K]) Unlock(k K) {","func (mm *MapMutex[K]) Unlock(k K) {\n	mm.mu.RLock()\n	m := mm.m[k]\n	mm.mu.RUnlock()\n	if m != nil {\n		m.Unlock()\n	}\n}")]),
("l-lock-always","",[F(LM,"func (mm *MapMutex[K]) Lock(k K) {","func (mm *MapMutex[K]) Lock(k K) {\n	mm.mu.Lock()\n	m, ok := mm.m[k]\n	if !ok {\n		m = new(sync.Mutex)\n		mm.m[k] = m\n	}\n	mm.mu.Unlock()\n	m.Lock()\n}")]),
# ---- guava
("g-embedded-mutex","",[(G,"type updateLock struct {\n	sync.Mutex\n	refs int\n}","type updateLock struct {\n	mu   sync.Mutex\n	refs int\n}"),(G,"	lock.Lock()\n	defer lock.Unlock()\n","	lock.mu.Lock()\n	defer lock.mu.Unlock()\n")]),
("g-slices-index","",[addimp(G,"slices"),(G,"		for i, k := range m.storedSlice {\n			if k == key {\n				m.storedSlice = append(m.storedSlice[:i], m.storedSlice[i+1:]...)\n				break\n			}\n		}\n","		if i := slices.Index(m.storedSlice, key); i >= 0 {\n			m.storedSlice = slices.Delete(m.storedSlice, i, i+1)\n		}\n")]),
("g-clear-one-loop","",[(G,"""	if m.unloadFunc != nil {
		for k, v := range m.stored {
			go m.unloadFunc(k, v.v)
		}
	}
	for _, v := range m.stored {
		if v.cancelFn != nil {
			v.cancelFn()
		}
	}
""","""	for k, v := range m.stored {
		if m.unloadFunc != nil {
			go m.unloadFunc(k, v.v)
		}
		if v.cancelFn != nil {
			v.cancelFn()
		}
	}
""")]),
("g-updmap-early","",[(G,"	if m.updateLockMap == nil {\n		m.updateLockMap = make(map[K]*updateLock)\n	}\n",""),(G,"		stored:       make(map[K]*guavaHolder[V]),\n","		stored:       make(map[K]*guavaHolder[V]),\n		updateLockMap: make(map[K]*updateLock),\n")]),
("g-upd-mutex","",[(G,"	updateLockMapMu    sync.RWMutex","	updateLockMapMu    sync.Mutex")]),
("g-get-lookup","",[F(G,"func (m *GuavaMap[K, V]) Size() int {","func (m *GuavaMap[K, V]) peek(key K) (v V, ok bool) {\n	m.mu.RLock()\n	defer m.mu.RUnlock()\n	h, ok := m.stored[key]\n	if !ok {\n		return v, false\n	}\n	if h.timer != nil && m.readTimeout > 0 {\n		h.timer.Reset(m.readTimeout)\n	}\n	return h.v, true\n}\n\nfunc (m *GuavaMap[K, V]) Size() int {\n	m.mu.RLock()\n	defer m.mu.RUnlock()\n	return len(m.stored)\n}"),(G,"""	m.mu.RLock()
	val, ok := m.stored[key]
	if ok {
		if val.timer != nil && m.readTimeout > 0 {
			val.timer.Reset(m.readTimeout)
		}
		v := val.v
		m.mu.RUnlock()
		return v, nil
	}
	m.mu.RUnlock()
	if m.loadFunc == nil {""","""	if v, ok := m.peek(key); ok {
		return v, nil
	}

	if m.loadFunc == nil {"""),(G,"""		m.mu.RLock()
		val, ok = m.stored[key]
		if ok {
			if val.timer != nil && m.readTimeout > 0 {
				val.timer.Reset(m.readTimeout)
			}
			v := val.v
			m.mu.RUnlock()
			return v, nil
		}
		m.mu.RUnlock()
""","""		if v, ok := m.peek(key); ok {
			return v, nil
		}
"""),(G,"	defer m.mu.Unlock()\n	val, ok = m.stored[key]\n","	defer m.mu.Unlock()\n	val, ok := m.stored[key]\n")]),
# ---- request map
("r-once-body","",[(RQ,"			// Start remove goroutine\n			go func() {\n				//time.Sleep(rm.deleteAfter)\n				//rm.mu.Lock()\n				//defer rm.mu.Unlock()\n				//delete(rm.waiters, key)\n				//delete(rm.response, key)\n				rm.mu.Lock()\n				rm.resultSlice = append(rm.resultSlice, r)\n				rm.mu.Unlock()\n			}()\n","			rm.mu.Lock()\n			rm.resultSlice = append(rm.resultSlice, r)\n			rm.mu.Unlock()\n")]),
("r-queue-inside","",[(RQ,"			delete(rm.waiters, key)\n			rm.mu.Unlock()\n			// Start remove goroutine\n			go func() {\n				//time.Sleep(rm.deleteAfter)\n				//rm.mu.Lock()\n				//defer rm.mu.Unlock()\n				//delete(rm.waiters, key)\n				//delete(rm.response, key)\n				rm.mu.Lock()\n				rm.resultSlice = append(rm.resultSlice, r)\n				rm.mu.Unlock()\n			}()\n","			delete(rm.waiters, key)\n			rm.resultSlice = append(rm.resultSlice, r)\n			rm.mu.Unlock()\n")]),
("r-plain-mutex","",[(RQ,"sync.RWMutex","sync.Mutex"),(RQ,"RLock","Lock"),(RQ,"RUnlock","Unlock")]),
("r-getorcreate-delegates","",[F(RQ,"func (rm *RequestMap[K, V]) GetOrCreate(key K, f func(k K) V) V {","func (rm *RequestMap[K, V]) GetOrCreate(key K, f func(k K) V) V {\n	v, _ := rm.GetOrCreateWithErr(key, func(k K) (V, error) { return f(k), nil })\n	return v\n}")]),
("r-timeout-newtimer","",[(RQ,"		select {\n		case r := <-res:\n			return r.result, r.err\n		case <-time.After(duration):\n","		timer := time.NewTimer(duration)\n		defer timer.Stop()\n		select {\n		case r := <-res:\n			return r.result, r.err\n		case <-timer.C:\n")]),
("r-ticker","",[(RQ,"	for {\n		select {\n		case <-rm.ctx.Done():\n			return\n		case <-time.After(time.Millisecond * 100):\n","	ticker := time.NewTicker(time.Millisecond * 100)\n	defer ticker.Stop()\n	for {\n		select {\n		case <-rm.ctx.Done():\n			return\n		case <-ticker.C:\n")]),
# ---- response map
("rs-now-since","",[(RS,"if time.Now().After(holder.createdAt.Add(r.clearTimeout)) {","if time.Since(holder.createdAt) > r.clearTimeout {")]),
("rs-now-once","",[(RS,"			for _, holder := range r.m {\n				if time.Now().After(","			now := time.Now()\n			for _, holder := range r.m {\n				if now.After(")]),
("rs-ctx-err","",[(RS,"	go rm.clear(b.ctx)\n","	go rm.clear(rm.ctx)\n")]),
("rs-listeners-helper","",[(RS,"				for _, ch := range h.listeners {\n					close(ch)\n				}\n				h.listeners = nil\n","				h.closeAll()\n"),(RS,"func (h *chansHolder[K, V]) set(data V) {","func (h *chansHolder[K, V]) closeAll() {\n	for _, ch := range h.listeners {\n		close(ch)\n	}\n	h.listeners = nil\n}\n\nfunc (h *chansHolder[K, V]) set(data V) {")]),
("rs-method-goroutine","",[(RS,"	go func() {\n		defer h.t.Stop()\n","	go h.watch()\n	return h\n}\n\nfunc (h *chansHolder[K, V]) watch() {\n		defer h.t.Stop()\n"),(RS,"	}()\n	return h\n}\n","}\n")]),
("rs-delete-in-range","",[(RS,"""			r.mu.Lock()
			for _, holder := range remove {
				holder.cancelCtx()
				delete(r.m, holder.trx)
			}
			count := len(r.m)
			r.mu.Unlock()
""","""			r.mu.Lock()
			for i := range remove {
				delete(r.m, remove[i].trx)
				remove[i].cancelCtx()
			}
			count := len(r.m)
			r.mu.Unlock()
""")]),
# ---- struct uniq set
("su-plain-mutex","",[(SU,"sync.RWMutex","sync.Mutex"),(SU,"RLock","Lock"),(SU,"RUnlock","Unlock")]),
("su-hash-new","",[(SU,"	md5.Sum(buffer.Bytes())\n","")]),
("su-has-defer","",[F(SU,"func (s *StructUniqSet[V]) Has(v V) (bool, error) {","func (s *StructUniqSet[V]) Has(v V) (ok bool, err error) {\n	hash, err := s.build(v)\n	if err != nil {\n		return\n	}\n	s.elementsMu.RLock()\n	defer s.elementsMu.RUnlock()\n	_, ok = s.elements[hash]\n	return\n}")]),
# ---- wait map
("wm-newtimer","",[(WM,"			case <-time.After(wm.requestTimeout): // TIMEOUT\n","			case <-timer.C: // TIMEOUT\n"),(WM,"		go func() {\n			select {\n			case <-wm.ctx.Done():\n				wm.mu.Lock()\n				if chans","		go func() {\n			timer := time.NewTimer(wm.requestTimeout)\n			defer timer.Stop()\n			select {\n			case <-wm.ctx.Done():\n				wm.mu.Lock()\n				if chans")]),
("wm-expire-method","",[(WM,"	go func() {\n		select {\n		case <-wm.ctx.Done():\n			wm.mu.Lock()\n			delete(wm.dataHolder, key)\n			wm.mu.Unlock()\n			return\n		case <-time.After(wm.responseTtl):\n			wm.mu.Lock()\n			delete(wm.dataHolder, key)\n			wm.mu.Unlock()\n		}\n	}()\n}","	go wm.expire(key)\n}\n\nfunc (wm *WaitMap[K, V]) expire(key K) {\n	select {\n	case <-wm.ctx.Done():\n	case <-time.After(wm.responseTtl):\n	}\n	wm.mu.Lock()\n	defer wm.mu.Unlock()\n	delete(wm.dataHolder, key)\n}")]),
# ---- comparer
("c-set-type","",[(CM,"func CompareSlice[","func ids[T Ider](list []T) map[uint64]bool {\n	out := make(map[uint64]bool, len(list))\n	for _, x := range list {\n		out[x.GetId()] = true\n	}\n	return out\n}\n\nfunc CompareSlice["),(CM,"	currentMap := make(map[uint64]struct{})\n	modMap := make(map[uint64]struct{})\n	for _, elem := range current {\n		currentMap[elem.GetId()] = struct{}{}\n	}\n	for _, elem := range mod {\n		modMap[elem.GetId()] = struct{}{}\n	}\n","	currentMap, modMap := ids(current), ids(mod)\n"),(CM,"if _, ok := modMap[elem.GetId()]; !ok {","if !modMap[elem.GetId()] {"),(CM,"if _, ok := modMap[elem.GetId()]; ok {","if modMap[elem.GetId()] {"),(CM,"if _, ok := currentMap[elem.GetId()]; !ok {","if !currentMap[elem.GetId()] {")]),
("c-one-loop","",[(CM,"	// MOD ( которые есть в mod И current )\n	var modify []T1\n	for _, elem := range current {\n		if _, ok := modMap[elem.GetId()]; ok {\n			modify = append(modify, elem)\n		}\n	}\n",""),(CM,"	var del []T1\n	for _, elem := range current {\n		if _, ok := modMap[elem.GetId()]; !ok {\n			del = append(del, elem)\n		}\n	}\n","	var del, modify []T1\n	for _, elem := range current {\n		if _, ok := modMap[elem.GetId()]; ok {\n			modify = append(modify, elem)\n		} else {\n			del = append(del, elem)\n		}\n	}\n")]),
# ---- net
("n-append-uint","",[(NB,"	bs := make([]byte, 4)\n	binary.LittleEndian.PutUint32(bs, len)\n	return bs\n","	return binary.LittleEndian.AppendUint32(nil, len)\n")]),
("n-size-one-alloc","",[(NB,"	ld := uint32(len(data))\n	return append(GetBytesFromUInt32(ld), data...)\n","	res := make([]byte, 4, 4+len(data))\n	binary.LittleEndian.PutUint32(res, uint32(len(data)))\n	return append(res, data...)\n")]),
("n-size-copy","",[(NB,"	ld := uint16(len(data))\n	return append(GetBytesFromUInt16(ld), data...)\n","	res := make([]byte, 2+len(data))\n	binary.LittleEndian.PutUint16(res, uint16(len(data)))\n	copy(res[2:], data)\n	return res\n")]),
("n-chunk-cut","",[(NB,"	for i := 0; i < len(data); i += size {\n		end := i + size\n		if end > len(data) {\n			end = len(data)\n		}\n		chunks = append(chunks, data[i:end])\n	}\n","	for i := 0; i < len(data); i += size {\n		chunks = append(chunks, data[i:min(i+size, len(data))])\n	}\n")]),
("n-copy-clone","",[(NB,'	"encoding/binary"\n','	"bytes"\n	"encoding/binary"\n'),(NB,"	res := make([]byte, l)\n	copy(res, data[:l])\n	return res\n","	return append(make([]byte, 0, l), data[:l]...)\n"),(NB,'	"bytes"\n',"")]),
("n-readn-shared","",[F(NR,"func ReadNBytesWithTimeout(conn net.Conn, n int, timeout time.Duration) ([]byte, error) {","func ReadNBytesWithTimeout(conn net.Conn, n int, timeout time.Duration) ([]byte, error) {\n	if err := conn.SetReadDeadline(time.Now().Add(timeout)); err != nil {\n		return nil, err\n	}\n	defer conn.SetReadDeadline(time.Time{})\n	return ReadNBytes(conn, n)\n}")]),
("n-readn-simple","",[(NR,"	nRead, err := io.ReadFull(conn, buff)\n	if err != nil {\n		return nil, err\n	}\n	if nRead != n {\n		return buff, fmt.Errorf(\"failed to read packet in full\")\n	}\n","	if _, err := io.ReadFull(conn, buff); err != nil {\n		return nil, err\n	}\n"),(NR,'	"fmt"\n',"")]),
("n-readn-atleast","",[(NR,"io.ReadFull(conn, buff)","io.ReadAtLeast(conn, buff, n)")]),
# ---- zip, crypto
("z-readall","",[(Z,"	var resB bytes.Buffer\n	_, err = resB.ReadFrom(r)\n	if err != nil {\n		return\n	}\n	resData = resB.Bytes()\n	return\n","	resData, err = io.ReadAll(r)\n	if err != nil {\n		return nil, err\n	}\n	return\n")]),
("z-copy","",[(Z,"	_, err = resB.ReadFrom(r)\n","	_, err = io.Copy(&resB, r)\n")]),
("z-noflush","",[(Z,"	if err = gz.Flush(); err != nil {\n		return\n	}\n","")]),
("a-gcm-helper","",[(AE,"func (a *AES) Encrypt(","func (a *AES) gcm() (cipher.AEAD, error) {\n	block, err := aes.NewCipher(a.secretKey)\n	if err != nil {\n		return nil, err\n	}\n	return cipher.NewGCM(block)\n}\n\nfunc (a *AES) Encrypt("),(AE,"	aesInst, err := aes.NewCipher(a.secretKey)\n	if err != nil {\n		return nil, err\n	}\n\n	gcm, err := cipher.NewGCM(aesInst)\n	if err != nil {\n		return nil, err\n	}\n","	gcm, err := a.gcm()\n	if err != nil {\n		return nil, err\n	}\n")]),
("a-readfull","",[(AE,"	_, err = rand.Read(nonce)\n	if err != nil {\n		return nil, err\n	}\n","	if _, err = io.ReadFull(rand.Reader, nonce); err != nil {\n		return nil, err\n	}\n"),(AE,'	"errors"\n','	"errors"\n	"io"\n')]),
("a-decrypt-direct","",[(AE,"	plaintext, err := gcm.Open(nil, nonce, ciphertext, nil)\n	if err != nil {\n		return nil, err\n	}\n\n	return plaintext, nil\n","	return gcm.Open(nil, nonce, ciphertext, nil)\n")]),
("ha-sprintf","",[(HA,"	hash := md5.Sum([]byte(text))\n	return hex.EncodeToString(hash[:])\n","	return hex.EncodeToString(GetMD5HashBytes(text))\n")]),
# ---- math
("mm-builtin","",[F(MM,"func Min(a, b int) int {","func Min(a, b int) int {\n	return min(a, b)\n}"),F(MM,"func Max(a, b int) int {","func Max(a, b int) int {\n	return max(a, b)\n}")]),
("di-while","",[(DI,"	if shift > 0 {\n		for i := 0; i < shift; i++ {\n			value *= 10\n		}\n	} else {\n		for i := 0; i < -shift; i++ {\n			value /= 10\n		}\n	}\n	return value\n","	for ; shift > 0; shift-- {\n		value *= 10\n	}\n	for ; shift < 0; shift++ {\n		value /= 10\n	}\n	return value\n")]),
# ---- crypto fs
("f-writefile","",[(FS,"	target, err := os.Create(b.savePath)\n	if err != nil {\n		return err\n	}\n	_, err = target.Write(data)\n	if err != nil {\n		target.Close()\n		return err\n	}\n	return target.Close()\n","	return os.WriteFile(b.savePath, data, 0o666)\n")]),
("f-addfile-name","",[(FS,"	of, err := os.Open(path)\n	if err != nil {\n		return b\n	}\n	defer of.Close()\n	data, err := os.ReadFile(path)\n	if err != nil {\n		return b\n	}\n","	data, err := os.ReadFile(path)\n	if err != nil {\n		return b\n	}\n"),(FS,"of.Name()","path")]),
("f-addfile-readall","",[(FS,"	data, err := os.ReadFile(path)\n	if err != nil {\n		return b\n	}\n	f := file{","	data, err := io.ReadAll(of)\n	if err != nil {\n		return b\n	}\n	f := file{"),(FS,'	"io/fs"\n','	"io"\n	"io/fs"\n')]),
("f-buffer-reader","",[(FS,"	var buf bytes.Buffer\n	if aesSecret != nil {\n		aes := crypto.NewAES(aesSecret)\n		decrypted, err := aes.Decrypt(f)\n		if err != nil {\n			return nil, err\n		}\n		buf.Write(decrypted)\n	} else {\n		buf.Write(f)\n	}\n	dec := gob.NewDecoder(&buf)\n","	if aesSecret != nil {\n		f, err = crypto.NewAES(aesSecret).Decrypt(f)\n		if err != nil {\n			return nil, err\n		}\n	}\n	dec := gob.NewDecoder(bytes.NewReader(f))\n")]),
("f-embed-reader","",[(FS,"	file\n	reader *bytes.Reader\n}\n\nfunc (f *openFile) Read(i []byte) (int, error) {\n	return f.reader.Read(i)\n}\n","	file\n	*bytes.Reader\n}\n\nfunc (f *openFile) Size() int64 { return f.file.Size() }\n"),(FS,"reader: bytes.NewReader(f.Data)","Reader: bytes.NewReader(f.Data)")]),
("f-readdir-append","",[(FS,"	entries := make([]fs.DirEntry, len(f.Entries))\n	for i := 0; i < len(f.Entries); i++ {\n		entries[i] = f.Entries[i]\n	}\n","	entries := make([]fs.DirEntry, 0, len(f.Entries))\n	for _, e := range f.Entries {\n		entries = append(entries, e)\n	}\n")]),
("f-read-offset","",[(FS,"	reader *bytes.Reader\n","	offset int\n"),(FS,"	return f.reader.Read(i)\n","	if len(i) == 0 {\n		return 0, nil\n	}\n	if f.offset >= len(f.Data) {\n		return 0, io.EOF\n	}\n	n := copy(i, f.Data[f.offset:])\n	f.offset += n\n	return n, nil\n"),(FS,", reader: bytes.NewReader(f.Data)",""),(FS,'	"io/fs"\n','	"io"\n	"io/fs"\n')]),
("f-walkdir","",[(FS,"filepath.Walk(folderPath, func(root string, info fs.FileInfo, err error) error {","filepath.WalkDir(folderPath, func(root string, info fs.DirEntry, err error) error {")]),
# ---- runner, flow
("ru-ctx-arg","",[(RU,"		go func() {\n			for {\n				select {\n				case <-r.ctx.Done():\n					return\n				case fn := <-r.runners:\n					fn()\n				case fn := <-r.runnersCtx:\n					fn(r.ctx)\n				}\n			}\n		}()\n","		go r.work(b.ctx)\n"),(RU,"func (r *Runner) Run(","func (r *Runner) work(ctx context.Context) {\n	done := ctx.Done()\n	for {\n		select {\n		case <-done:\n			return\n		case fn := <-r.runners:\n			fn()\n		case fn := <-r.runnersCtx:\n			fn(ctx)\n		}\n	}\n}\n\nfunc (r *Runner) Run(")]),
("fp-flatten","",[(FP,"		for _, route := range routes {\n			for _, fn := range route.chain {\n				if err := fn(event, state); err != nil {\n					return err\n				}\n			}\n		}\n		return nil\n","		for _, route := range routes {\n			if err := route.run(event, state); err != nil {\n				return err\n			}\n		}\n		return nil\n"),(FP,"type ProcessorRouterBuilder[","func (r ProcessorRouter[E, S]) run(event E, state S) error {\n	for _, fn := range r.chain {\n		if err := fn(event, state); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\ntype ProcessorRouterBuilder[")]),
]

"""Accessors (C06), Build validation (B02), side bookkeeping (G07), own failures (Q03)."""
from round2 import F
SC="chans/shard_chan.go"; SK="chans/shard_chunk_chan.go"; CK="chans/chunk_chan.go"
GM="collections/guava_map.go"; HS="collections/hash_set.go"; SM="collections/shard_map.go"; HO="collections/holder_map.go"
RM="collections/response_map.go"; SU="collections/struct_uniq_set.go"; FS="crypto_fs/crypto_fs.go"; LM="collections/lock_map.go"; TK="collections/two_key_map.go"; WM="collections/wait_map.go"
SZ="""	sizes := make([]int, s.shardCount)
	for i := 0; i < s.shardCount; i++ {
		sizes[i] = len(s.outgoingChans[i])
	}
	return sizes"""
TOT="""	for i := 0; i < s.sharder.ShardCount(); i++ {
		in, out := s.chunkers[i].Sizes()
		chunkerTotalSizeIn += in
		chunkerTotalSizeOut += out
	}"""
KC="""	if key < 0 || key >= s.sharder.ShardCount() {
		return nil
	}
	return s.chunkers[key].C()"""
NF="""	if b.shardFunc == nil {
		return nil, ErrShardFuncIsNil
	}
"""
M=[
# ---- C06 breaking
("c6-cap","C06",[(SC,"sizes[i] = len(","sizes[i] = cap(")]),
("c6-from1","C06",[(SC,"	for i := 0; i < s.shardCount; i++ {\n		sizes","	for i := 1; i < s.shardCount; i++ {\n		sizes")]),
("c6-to","C06",[(SC,"	for i := 0; i < s.shardCount; i++ {\n		sizes","	for i := 0; i < s.shardCount-1; i++ {\n		sizes")]),
("c6-idx","C06",[(SC,"len(s.outgoingChans[i])","len(s.outgoingChans[s.shardCount-1-i])")]),
("c6-first","C06",[(SC,"len(s.outgoingChans[i])","len(s.outgoingChans[0])")]),
("c6-append","C06",[(SC,SZ,"""	sizes := make([]int, s.shardCount)
	for i := 0; i < s.shardCount; i++ {
		sizes = append(sizes, len(s.outgoingChans[i]))
	}
	return sizes""")]),
("c6-maporder","C06",[(SC,SZ,"""	sizes := make([]int, 0, s.shardCount)
	for _, ch := range s.outgoingChans {
		sizes = append(sizes, len(ch))
	}
	return sizes""")]),
("c6-tot-swap","C06",[(SK,"in, out := s.chunkers[i].Sizes()","out, in := s.chunkers[i].Sizes()")]),
("c6-tot-same","C06",[(SK,"chunkerTotalSizeOut += out","chunkerTotalSizeOut += in\n		_ = out")]),
("c6-tot-assign","C06",[(SK,"chunkerTotalSizeIn += in","chunkerTotalSizeIn = in")]),
("c6-tot-1","C06",[(SK,"for i := 0; i < s.sharder.ShardCount(); i++ {\n		in","for i := 1; i < s.sharder.ShardCount(); i++ {\n		in")]),
("c6-tot-idx","C06",[(SK,"s.chunkers[i].Sizes()","s.chunkers[0].Sizes()")]),
("c6-ret-swap","C06",[(SK,"return shardSizes, chunkerTotalSizeIn, chunkerTotalSizeOut","return shardSizes, chunkerTotalSizeOut, chunkerTotalSizeIn")]),
("c6-chunk-swap","C06",[(CK,"return len(c.incomingChan), len(c.outgoingChan)","return len(c.outgoingChan), len(c.incomingChan)")]),
("c6-c-max","C06",[(SK,"key >= s.sharder.ShardCount() {","key >= s.sharder.ShardCount()-1 {")]),
("c6-c-gt","C06 Q03",[(SK,"key >= s.sharder.ShardCount() {","key > s.sharder.ShardCount() {")]),
("c6-c-neg","C06 Q03",[(SK,"if key < 0 || key >= s.sharder.ShardCount() {","if key >= s.sharder.ShardCount() {")]),
("c6-c-none","C06 Q03",[(SK,KC,"	return s.chunkers[key].C()")]),
("c6-c-mod","C06 C04",[(SK,KC,"""	if key < 0 || key >= s.sharder.ShardCount() {
		return nil
	}
	return s.chunkers[key%len(s.chunkers)/1].C()""")]),
("c6-count","C06",[(SC,"		shardCount:    b.shardCount,\n		outgoing","		shardCount:    b.shardCount + 0*len(b.incomingChan) + 1,\n		outgoing")]),
("c6-count-cap","C06",[(SC,"func (s *ShardChan[T]) ShardCount() int {\n	return s.shardCount","func (s *ShardChan[T]) ShardCount() int {\n	return cap(s.incomingChan)")]),
# ---- C06 preserving
("c6-ok-range","",[(SC,SZ,"""	sizes := make([]int, s.shardCount)
	for i := range sizes {
		sizes[i] = len(s.outgoingChans[i])
	}
	return sizes""")]),
("c6-ok-append","",[(SC,SZ,"""	sizes := make([]int, 0, s.shardCount)
	for i := 0; i < s.shardCount; i++ {
		sizes = append(sizes, len(s.C(i)))
	}
	return sizes""")]),
("c6-ok-map","",[(SC,SZ,"""	sizes := make([]int, s.shardCount)
	for i, ch := range s.outgoingChans {
		sizes[i] = len(ch)
	}
	return sizes""")]),
("c6-ok-down","",[(SC,SZ,"""	sizes := make([]int, s.ShardCount())
	for i := s.ShardCount() - 1; i >= 0; i-- {
		sizes[i] = len(s.outgoingChans[i])
	}
	return sizes""")]),
("c6-ok-tot-range","",[(SK,TOT,"""	for _, c := range s.chunkers {
		in, out := c.Sizes()
		chunkerTotalSizeIn, chunkerTotalSizeOut = chunkerTotalSizeIn+in, chunkerTotalSizeOut+out
	}""")]),
("c6-ok-tot-two","",[(SK,TOT,"""	for i := range s.chunkers {
		in, _ := s.chunkers[i].Sizes()
		chunkerTotalSizeIn = in + chunkerTotalSizeIn
	}
	for i := 0; i < len(s.chunkers); i++ {
		_, out := s.chunkers[i].Sizes()
		chunkerTotalSizeOut += out
	}""")]),
("c6-ok-c","",[(SK,KC,"""	if key >= 0 && key < len(s.chunkers) {
		return s.chunkers[key].C()
	}
	return nil""")]),
("c6-ok-c-switch","",[(SK,KC,"""	switch {
	case key < 0, s.ShardCount() <= key:
		return nil
	default:
		chunker := s.chunkers[key]
		return chunker.C()
	}""")]),
("c6-ok-has","",[(SK,KC,"""	if !s.valid(key) {
		return nil
	}
	return s.chunkers[key].C()"""),(SK,"// Sizes - ","""func (s *ShardChunk[T]) valid(key int) bool {
	return key >= 0 && key < s.sharder.ShardCount()
}

// Sizes - """)]),
# ---- B02
("b2-del","B02",[(SC,NF,"")]),
("b2-neg","B02",[(SC,"if b.shardFunc == nil {","if b.shardFunc != nil {")]),
("b2-nilerr","B02",[(SC,"return nil, ErrShardFuncIsNil","return nil, nil")]),
("b2-obj","B02",[(SC,"return nil, ErrShardFuncIsNil","return &ShardChan[T]{}, ErrShardFuncIsNil")]),
("b2-both","B02",[(SC,NF,"	if b.shardFunc == nil && b.workerFunc == nil {\n		return nil, ErrShardFuncIsNil\n	}\n")]),
("b2-swallow","B02",[(SK,"""	if err != nil {
		return nil, err
	}
""","	_ = err\n")]),
("b2-nil2","B02",[(SK,"		return nil, err\n","		return nil, nil\n")]),
("b2-other","B02",[(SK,"		return nil, err\n","		return nil, ctx.Err()\n")]),
("b2-neg2","B02",[(SK,"	if err != nil {\n","	if err == nil {\n")]),
("b2-late","B02",[(SC,NF,""),(SC,"	return res, nil\n","	if b.shardFunc == nil {\n		return nil, ErrShardFuncIsNil\n	}\n	return res, nil\n")]),
("b2-ok-helper","",[(SC,NF,"	if err := b.validate(); err != nil {\n		return nil, err\n	}\n"),(SC,"func (b *ShardChanBuilder[T]) Build()","""func (b *ShardChanBuilder[T]) validate() error {
	if b.shardFunc == nil {
		return ErrShardFuncIsNil
	}
	return nil
}

func (b *ShardChanBuilder[T]) Build()""")]),
("b2-ok-early","",[(SK,"	ctx, incomingChan, shardWorker := b.ctx, b.incomingChan, b.shardWorker\n","	if b.shardFunc == nil {\n		return nil, ErrShardFuncIsNil\n	}\n	ctx, incomingChan, shardWorker := b.ctx, b.incomingChan, b.shardWorker\n")]),
("b2-ok-order","",[(SC,NF+"	incomingChan, workerFunc := b.incomingChan, b.workerFunc\n","	incomingChan, workerFunc := b.incomingChan, b.workerFunc\n"+NF)]),
# ---- G07
("g7-nocancel","G07",[(GM,"""	if v.cancelFn != nil {
		v.cancelFn()
	}

	delete""","	delete")]),
("g7-noclear","G07",[(GM,"""	for _, v := range m.stored {
		if v.cancelFn != nil {
			v.cancelFn()
		}
	}
""","")]),
("g7-clear-cond","G07",[(GM,"""	if m.unloadFunc != nil {
		for k, v := range m.stored {
			go m.unloadFunc(k, v.v)
		}
	}
	for _, v := range m.stored {
		if v.cancelFn != nil {
			v.cancelFn()
		}
	}
""","""	if m.unloadFunc != nil {
		for k, v := range m.stored {
			go m.unloadFunc(k, v.v)
			if v.cancelFn != nil {
				v.cancelFn()
			}
		}
	}
""")]),
("g7-wrongcond","G07",[(GM,"	if v.cancelFn != nil {\n		v.cancelFn()\n	}\n\n	delete","	if v.cancelFn != nil && m.unloadFunc != nil {\n		v.cancelFn()\n	}\n\n	delete")]),
("g7-write-only","G07",[(GM,"	if v.cancelFn != nil {\n		v.cancelFn()\n	}\n\n	delete","	if m.writeTimeout > 0 {\n		v.cancelFn()\n	}\n\n	delete")]),
("g7-norelease","G07",[(GM,"	defer m.releaseKeyLock(key, lock)\n","")]),
("g7-nodel","G07",[(GM,"	if lock.refs == 0 {\n		delete(m.updateLockMap, key)\n	}\n","")]),
("g7-one","G07 G05",[(GM,"	if lock.refs == 0 {\n","	if lock.refs == 1 {\n")]),
("g7-norefs","G07 G05",[(GM,"	lock.refs++\n","")]),
("g7-norefs-","G07",[(GM,"	lock.refs--\n","")]),
("g7-refs2","G07",[(GM,"	if !ok {\n		lock = &updateLock{}\n","	if !ok {\n		lock = &updateLock{refs: 1}\n")]),
("g7-panic","G07",[(GM,"	defer m.releaseKeyLock(key, lock)\n",""),(GM,"	m.safeSet(key, res)\n	return res\n","	m.safeSet(key, res)\n	m.releaseKeyLock(key, lock)\n	return res\n")]),
("g7-ok-order","",[(GM,"	if v.cancelFn != nil {\n		v.cancelFn()\n	}\n\n	delete(m.stored, key)\n","	delete(m.stored, key)\n	if stop := v.cancelFn; stop != nil {\n		stop()\n	}\n")]),
("g7-ok-helper","",[(GM,"	if v.cancelFn != nil {\n		v.cancelFn()\n	}\n\n	delete","	v.stop()\n\n	delete"),(GM,"		if v.cancelFn != nil {\n			v.cancelFn()\n		}\n	}\n	m.stored","		v.stop()\n	}\n	m.stored"),(GM,"type GuavaMap[","func (h *guavaHolder[V]) stop() {\n	if h.cancelFn == nil {\n		return\n	}\n	h.cancelFn()\n}\n\ntype GuavaMap[")]),
("g7-ok-timer","",[(GM,"	if v.cancelFn != nil {\n		v.cancelFn()\n	}\n\n	delete","	if v.timer != nil {\n		v.cancelFn()\n	}\n\n	delete")]),
("g7-ok-oneloop","",[(GM,"""	if m.unloadFunc != nil {
		for k, v := range m.stored {
			go m.unloadFunc(k, v.v)
		}
	}
	for _, v := range m.stored {
		if v.cancelFn != nil {
			v.cancelFn()
		}
	}
""","""	for k, v := range m.stored {
		if m.unloadFunc != nil {
			go m.unloadFunc(k, v.v)
		}
		if v.cancelFn != nil {
			v.cancelFn()
		}
	}
""")]),
("g7-ok-each","",[(GM,"""	if m.unloadFunc != nil {
		for k, v := range m.stored {
			go m.unloadFunc(k, v.v)
		}
	}
	for _, v := range m.stored {
		if v.cancelFn != nil {
			v.cancelFn()
		}
	}
	m.stored = make(map[K]*guavaHolder[V])
	if m.maxCount > 0 {
		m.storedSlice = make([]K, 0, m.maxCount)
	}
""","""	for k := range m.stored {
		m.safeDelete(k)
	}
""")]),
("g7-ok-refs","",[(GM,"	lock.refs--\n	if lock.refs == 0 {\n		delete(m.updateLockMap, key)\n	}\n","	if lock.refs--; lock.refs > 0 {\n		return\n	}\n	delete(m.updateLockMap, key)\n")]),
("g7-ok-inline","",[(GM,"	defer m.releaseKeyLock(key, lock)\n","	defer func() {\n		m.updateLockMapMu.Lock()\n		defer m.updateLockMapMu.Unlock()\n		lock.refs -= 1\n		if lock.refs <= 0 {\n			delete(m.updateLockMap, key)\n		}\n	}()\n")]),
# ---- Q03
("q3-size-le","Q03",[(SM,"func (m *ShardMap[K, V]) Size() int {","func (m *ShardMap[K, V]) Size() int {\n	for i := 0; i <= m.shardsCount; i++ {\n		m.shardsLock[i].RLock()\n		m.shardsLock[i].RUnlock()\n	}")]),
("q3-lazymap","Q03",[(GM,"	if m.updateLockMap == nil {\n		m.updateLockMap = make(map[K]*updateLock)\n	}\n","")]),
("q3-nomap","Q03",[(TK,"		k2Tok1: make(map[K2]K1),\n","")]),
("q3-nomap2","Q03",[(WM,"		waiterChannels: make(map[K][]chan V),\n","")]),
("q3-evict","Q03 H01",[(HS,"	s.ml = append(s.ml, key)\n","",),]),
("q3-nolock","Q03",[(GM,"		lock = &updateLock{}\n		m.updateLockMap[key] = lock\n","		m.updateLockMap[key] = lock\n")]),
("q3-first","Q03 U02",[(SU,"if len(res.ttlElements) == 0 {","if len(res.ttlElements) < 0 {")]),
("q3-rel","Q03 D02",[(HO,"	h, ok := c.m[trx]\n	c.mu.RUnlock()\n	if ok {\n		h.mu.Lock()\n		h.Object","	h := c.m[trx]\n	c.mu.RUnlock()\n	if trx != *new(K) {\n		h.mu.Lock()\n		h.Object")]),
("q3-entries","Q03 F02",[(FS,"	for i := 0; i < len(f.Entries); i++ {\n","	for i := 0; i <= len(f.Entries); i++ {\n")]),
("q3-unlock","Q03 L01",[(LM,None,None)]),
]
M=[m for m in M if m[0]!="q3-unlock"]
M+=[
# ---- Q03: optional functions
("opt-unload","Q03",[(GM,"	if m.unloadFunc != nil {\n		go m.unloadFunc(key, v.v)\n	}\n","	go m.unloadFunc(key, v.v)\n")]),
("opt-unload-inv","Q03",[(GM,"	if m.unloadFunc != nil {\n		go m","	if m.unloadFunc == nil {\n		go m")]),
("opt-load","Q02",[(GM,"	loadedVal, err = m.loadFunc(key)","	if m.lockLoad == nil {\n		m.lockLoad.Lock(key)\n	}\n	loadedVal, err = m.loadFunc(key)")]),
("opt-timer","G04",[(GM,"		if v.timer != nil && m.readTimeout > 0 {","		if v.timer != nil || m.readTimeout > 0 {")]),
("opt-chunkfn","Q03",[(CK,"	if chunkFunc != nil {","	if chunkFunc != nil || incomingChan != nil {")]),
("opt-ok-default","",[(GM,"	if b.lockLoad {","	if res.unloadFunc == nil {\n		res.unloadFunc = func(K, V) {}\n	}\n	if b.lockLoad {"),(GM,"	if m.unloadFunc != nil {\n		go m.unloadFunc(key, v.v)\n	}\n","	go m.unloadFunc(key, v.v)\n")]),
("opt-ok-local","",[(GM,"	if m.unloadFunc != nil {\n		go m.unloadFunc(key, v.v)\n	}\n","	if unload := m.unloadFunc; unload != nil {\n		go unload(key, v.v)\n	}\n")]),
("opt-ok-helper","",[(GM,"	if m.unloadFunc != nil {\n		go m.unloadFunc(key, v.v)\n	}\n","	m.unload(key, v.v)\n"),(GM,"func (m *GuavaMap[K, V]) Has(","func (m *GuavaMap[K, V]) unload(key K, v V) {\n	if m.unloadFunc == nil {\n		return\n	}\n	go m.unloadFunc(key, v)\n}\n\nfunc (m *GuavaMap[K, V]) Has(")]),
("opt-ok-timeouts","",[(GM,"		if v.timer != nil {\n			if m.writeTimeout","		if m.readTimeout > 0 || m.writeTimeout > 0 {\n			if m.writeTimeout")]),
("opt-ok-reset","",[(GM,"		if v.timer != nil && m.readTimeout > 0 {\n			v.timer.Reset(m.readTimeout)\n		}\n	}\n	return ok","		if m.readTimeout > 0 {\n			v.timer.Reset(m.readTimeout)\n		}\n	}\n	return ok")]),
("opt-ok-expires","",[(GM,"	if v.cancelFn != nil {\n		v.cancelFn()\n	}\n\n	delete","	if m.expires() {\n		v.cancelFn()\n	}\n\n	delete"),(GM,"	if m.readTimeout > 0 || m.writeTimeout > 0 {\n		ctx","	if m.expires() {\n		ctx"),(GM,"func (m *GuavaMap[K, V]) Has(","func (m *GuavaMap[K, V]) expires() bool { return m.readTimeout > 0 || m.writeTimeout > 0 }\n\nfunc (m *GuavaMap[K, V]) Has(")]),
("opt-ok-lockload","",[(GM,"	if m.lockLoad != nil {\n		// held","	if lock := m.lockLoad; lock != nil {\n		// held"),(GM,"		m.lockLoad.Lock(key)\n		defer m.lockLoad.Unlock(key)","		lock.Lock(key)\n		defer lock.Unlock(key)")]),
("opt-ok-chunkfn","",[(CK,"	if chunkFunc != nil {\n		go func() {","	if chunkFunc == nil {\n		return res\n	}\n	{\n		go func() {")]),
("opt-ok-noopfn","",[(SC,"	if workerFunc != nil {\n","	if workerFunc == nil {\n		return res, nil\n	}\n	{\n")]),
("opt-ok-buildfn","",[(SU,"		build: func(v V, keys ...any) ([16]byte, error) {\n			return getHashCode(v)\n		},\n",""),(SU,"	res := &StructUniqSet[V]{\n		build:         b.build,","	build := b.build\n	if build == nil {\n		build = func(v V, keys ...any) ([16]byte, error) { return getHashCode(v) }\n	}\n	res := &StructUniqSet[V]{\n		build:         build,")]),
]

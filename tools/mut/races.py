HS='collections/hash_set.go'; GM='collections/guava_map.go'; HM='collections/holder_map.go'; RS='collections/response_map.go'
RQ='collections/request_map.go'; WM='collections/wait_map.go'; SU='collections/struct_uniq_set.go'; SM='collections/shard_map.go'
TK='collections/two_key_map.go'; MP='collections/map.go'; LM='collections/lock_map.go'; RN='workers/runner.go'; CC='chans/chunk_chan.go'
M=[
("hs-has-nolock","Q01",[(HS,"""	s.mu.RLock()
	defer s.mu.RUnlock()
	_, ok := s.m[key]
	return ok""","""	_, ok := s.m[key]
	return ok""")]),
("hs-count-nolock","Q01",[(HS,"""	s.mu.RLock()
	defer s.mu.RUnlock()
	return len(s.m)""","""	return len(s.m)""")]),
("hs-add-rlock","Q01",[(HS,"""	s.mu.Lock()
	defer s.mu.Unlock()

	if _""","""	s.mu.RLock()
	defer s.mu.RUnlock()

	if _""")]),
("hs-keys-leak","Q01",[(HS,"""	keys := make([]K, 0, len(s.m))
	for k := range s.m {
		keys = append(keys, k)
	}
	return keys""","""	return s.ml""")]),
("hs-keys-after-unlock","Q01",[(HS,"""	s.mu.RLock()
	defer s.mu.RUnlock()
	keys := make([]K, 0, len(s.m))
	for k := range s.m {""","""	s.mu.RLock()
	m := s.m
	s.mu.RUnlock()
	keys := make([]K, 0, len(m))
	for k := range m {""")]),
("hs-value-recv","Q01",[(HS,"func (s *HashSet[K]) Count() int","func (s HashSet[K]) Count() int")]),
("hs-manual-unlock","",[(HS,"""	s.mu.RLock()
	defer s.mu.RUnlock()
	return len(s.m)""","""	s.mu.RLock()
	n := len(s.m)
	s.mu.RUnlock()
	return n""")]),
("hs-helper","",[(HS,"""	s.mu.RLock()
	defer s.mu.RUnlock()
	return len(s.m)
}""","""	n := 0
	s.read(func() { n = len(s.m) })
	return n
}

func (s *HashSet[K]) read(f func()) {
	s.mu.RLock()
	defer s.mu.RUnlock()
	f()
}""")]),
("hs-mutex","",[(HS,"mu       sync.RWMutex","mu       sync.Mutex"),(HS,"RLock()","Lock()"),(HS,"RUnlock()","Unlock()")]),
("hs-embedded","",[(HS,"	mu       sync.RWMutex","	sync.RWMutex"),(HS,"s.mu.","s.")]),
("hs-ptr-mutex","",[(HS,"	mu       sync.RWMutex","	mu       *sync.RWMutex"),(HS,"		maxCount: b.maxCount,","		maxCount: b.maxCount,\n		mu:       &sync.RWMutex{},")]),
("hs-new-mutex-on-clear","Q01",[(HS,"	mu       sync.RWMutex","	mu       *sync.RWMutex"),(HS,"		maxCount: b.maxCount,","		maxCount: b.maxCount,\n		mu:       &sync.RWMutex{},"),
  (HS,"	s.m = make(map[K]bool)\n	s.ml = make([]K, 0)","	s.m = make(map[K]bool)\n	s.ml = make([]K, 0)\n	s.mu = &sync.RWMutex{}")]),
("hs-atomic-hits","",[(HS,"	maxCount int\n}\n\nfunc NewHashSet","	maxCount int\n	hits     atomic.Int64\n}\n\nfunc NewHashSet"),(HS,'import "sync"','import (\n	"sync"\n	"sync/atomic"\n)'),
  (HS,"	_, ok := s.m[key]\n	return ok","	_, ok := s.m[key]\n	s.hits.Add(1)\n	return ok")]),
("hs-plain-hits","Q01",[(HS,"	maxCount int\n}\n\nfunc NewHashSet","	maxCount int\n	hits     int64\n}\n\nfunc NewHashSet"),
  (HS,"	_, ok := s.m[key]\n	return ok","	_, ok := s.m[key]\n	s.hits++\n	return ok")]),
("hs-mixed-hits","Q01",[(HS,"	maxCount int\n}\n\nfunc NewHashSet","	maxCount int\n	hits     int64\n}\n\nfunc NewHashSet"),(HS,'import "sync"','import (\n	"sync"\n	"sync/atomic"\n)'),
  (HS,"	_, ok := s.m[key]\n	return ok","	_, ok := s.m[key]\n	atomic.AddInt64(&s.hits, 1)\n	return ok"),
  (HS,"	return len(s.m)\n","	if s.hits < 0 {\n		return 0\n	}\n	return len(s.m)\n")]),
("hs-atomic-fn","",[(HS,"	maxCount int\n}\n\nfunc NewHashSet","	maxCount int\n	hits     int64\n}\n\nfunc NewHashSet"),(HS,'import "sync"','import (\n	"sync"\n	"sync/atomic"\n)'),
  (HS,"	_, ok := s.m[key]\n	return ok","	_, ok := s.m[key]\n	atomic.AddInt64(&s.hits, 1)\n	return ok"),
  (HS,"	s.ml = make([]K, 0)\n","	s.ml = make([]K, 0)\n	atomic.StoreInt64(&s.hits, 0)\n")]),
("gm-size-nolock","Q01",[(GM,"""	m.mu.RLock()
	defer m.mu.RUnlock()
	return len(m.stored)""","""	return len(m.stored)""")]),
("gm-get-late-read","Q01",[(GM,"""		v := val.v
		m.mu.RUnlock()
		return v, nil
	}
	m.mu.RUnlock()
	if m.loadFunc""","""		m.mu.RUnlock()
		return val.v, nil
	}
	m.mu.RUnlock()
	if m.loadFunc""")]),
("gm-stored-leak","Q01",[(GM,"""func (m *GuavaMap[K, V]) Size() int {""","""func (m *GuavaMap[K, V]) Oldest() []K {
	m.mu.RLock()
	defer m.mu.RUnlock()
	return m.storedSlice
}

func (m *GuavaMap[K, V]) Size() int {""")]),
("gm-keys-copy","",[(GM,"""func (m *GuavaMap[K, V]) Size() int {""","""func (m *GuavaMap[K, V]) Oldest() []K {
	m.mu.RLock()
	defer m.mu.RUnlock()
	return append([]K(nil), m.storedSlice...)
}

func (m *GuavaMap[K, V]) Size() int {""")]),
("gm-release-nolock","Q01",[(GM,"""	m.updateLockMapMu.Lock()
	defer m.updateLockMapMu.Unlock()
	lock.refs--
	if lock.refs == 0 {
		delete""","""	lock.refs--
	if lock.refs == 0 {
		m.updateLockMapMu.Lock()
		defer m.updateLockMapMu.Unlock()
		delete""")]),
("gm-touch-under-rlock","Q01",[(GM,"	v        V\n}","	v        V\n	used     time.Time\n}"),(GM,"""	if ok {
		if v.timer != nil && m.readTimeout > 0 {
			v.timer.Reset(m.readTimeout)
		}
	}
	return ok
}

// HasOr""","""	if ok {
		if v.timer != nil && m.readTimeout > 0 {
			v.timer.Reset(m.readTimeout)
		}
		v.used = time.Now()
	}
	return ok
}

// HasOr""")]),
("gm-expire-check-nolock","Q01",[(GM,"""				m.mu.Lock()
				if m.stored[key] == res {
					m.safeDelete(key)
				}
				m.mu.Unlock()
""","""				if m.stored[key] == res {
					m.mu.Lock()
					m.safeDelete(key)
					m.mu.Unlock()
				}
""")]),
("hm-get-err","Q01",[(HM,"""		h.mu.Lock()
		defer h.mu.Unlock()
		return h.Object, h.Err""","""		h.mu.Lock()
		obj := h.Object
		h.mu.Unlock()
		return obj, h.Err""")]),
("hm-update-nolock","Q01",[(HM,"""		h.mu.Lock()
		h.Object = target
		h.mu.Unlock()""","""		h.Object = target""")]),
("hm-update-map-lock","Q01",[(HM,"""	c.mu.RLock()
	h, ok := c.m[trx]
	c.mu.RUnlock()
	if ok {
		h.mu.Lock()
		h.Object = target
		h.mu.Unlock()""","""	c.mu.Lock()
	defer c.mu.Unlock()
	h, ok := c.m[trx]
	if ok {
		h.Object = target""")]),
("hm-list-before-lock","Q01",[(HM,"""				for _, ch := range h.releaseChanList {
					ch <- h.Err
				}
				h.mu.Unlock()""","""				h.mu.Unlock()
				for _, ch := range h.releaseChanList {
					ch <- h.Err
				}""")]),
("hm-init-after-store","",[(HM,"""			h = &holderMapHolder[V]{
				Object:          target,
				inChan: ""","""			h = &holderMapHolder[V]{
				inChan: """),(HM,"""			go func() {
				defer h.timeOutTimer""","""			c.m[trx] = h
			h.Object = target
			go func() {
				defer h.timeOutTimer"""),(HM,"""			c.m[trx] = h
			c.mu.Unlock()
			return <-waitChan""","""			c.mu.Unlock()
			return <-waitChan""")]),
("rs-wait-nolock","Q01",[(RS,"""	h.mu.RLock()
	e, data := h.isExist, h.data
	h.mu.RUnlock()""","""	e, data := h.isExist, h.data""")]),
("rs-clear-nolock","Q01",[(RS,"""			count := len(r.m)
			r.mu.Unlock()""","""			r.mu.Unlock()
			count := len(r.m)""")]),
("rs-clear-norlock","Q01",[(RS,"			r.mu.RLock()\n			r.logger","			r.logger"),(RS,"			r.mu.RUnlock()\n			r.logger.Debug().Int(\"should","			r.logger.Debug().Int(\"should")]),
("rs-timer-nolock","Q01",[(RS,"""			case <-h.t.C:
				h.mu.Lock()
				for _, ch := range h.listeners {
					close(ch)
				}
				h.listeners = nil
				h.mu.Unlock()""","""			case <-h.t.C:
				for _, ch := range h.listeners {
					close(ch)
				}
				h.mu.Lock()
				h.listeners = nil
				h.mu.Unlock()""")]),
("rs-set-listeners-late","Q01",[(RS,"""	h.mu.Lock()
	defer h.mu.Unlock()
	if h.isExist || h.isClosed {
		return
	}
	h.data = data
	h.isExist = true
	for _, ch := range h.listeners {
		ch <- data
	}
	h.listeners = nil""","""	h.mu.Lock()
	if h.isExist || h.isClosed {
		h.mu.Unlock()
		return
	}
	h.data = data
	h.isExist = true
	h.mu.Unlock()
	for _, ch := range h.listeners {
		ch <- data
	}
	h.listeners = nil""")]),
("rs-set-snapshot","",[(RS,"""	h.mu.Lock()
	defer h.mu.Unlock()
	if h.isExist || h.isClosed {
		return
	}
	h.data = data
	h.isExist = true
	for _, ch := range h.listeners {
		ch <- data
	}
	h.listeners = nil""","""	h.mu.Lock()
	if h.isExist || h.isClosed {
		h.mu.Unlock()
		return
	}
	h.data = data
	h.isExist = true
	list := h.listeners
	h.listeners = nil
	h.mu.Unlock()
	for _, ch := range list {
		ch <- data
	}""")]),
("rq-first-nolock","Q01",[(RQ,"""		rm.mu.RLock()
		if len(rm.resultSlice) == 0 {
			rm.mu.RUnlock()
			return
		}
		first := rm.resultSlice[0]
		rm.mu.RUnlock()""","""		if len(rm.resultSlice) == 0 {
			return
		}
		first := rm.resultSlice[0]""")]),
("rq-append-nolock","Q01",[(RQ,"""				rm.mu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.mu.Unlock()""","""				rm.resultSlice = append(rm.resultSlice, r)""")]),
("rq-own-slice-lock","Q01",[(RQ,"	ctx         context.Context\n}","	ctx         context.Context\n	sliceMu     sync.Mutex\n}"),(RQ,"""				rm.mu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.mu.Unlock()""","""				rm.sliceMu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.sliceMu.Unlock()""")]),
("rq-preload-after-go","Q01",[(RQ,"	go res.rmWorker()\n	return res","	return res"),(RQ,"	if len(init) > 0 {","	go res.rmWorker()\n	if len(init) > 0 {")]),
("rq-timeout-captured","Q01",[(RQ,"""		res := make(chan resultHolder[K, V], 1)
		go func() {
			v, err := f(k)
			res <- resultHolder[K, V]{key: k, result: v, err: err}
		}()
		select {
		case r := <-res:
			return r.result, r.err
		case <-time.After(duration):
			var result V
			return result, ErrTimeout
		}""","""		var result V
		var err error
		done := make(chan struct{})
		go func() {
			result, err = f(k)
			close(done)
		}()
		select {
		case <-done:
			return result, err
		case <-time.After(duration):
			return result, ErrTimeout
		}""")]),
("rq-timeout-done","",[(RQ,"""		res := make(chan resultHolder[K, V], 1)
		go func() {
			v, err := f(k)
			res <- resultHolder[K, V]{key: k, result: v, err: err}
		}()
		select {
		case r := <-res:
			return r.result, r.err
		case <-time.After(duration):
			var result V
			return result, ErrTimeout
		}""","""		var res V
		var err error
		done := make(chan struct{})
		go func() {
			res, err = f(k)
			close(done)
		}()
		select {
		case <-done:
			return res, err
		case <-time.After(duration):
			var result V
			return result, ErrTimeout
		}""")]),
("wm-count-nolock","Q01",[(WM,"""	wm.mu.RLock()
	defer wm.mu.RUnlock()
	a := len""","""	a := len""")]),
("wm-timeout-nolock","Q01",[(WM,"""				wm.mu.Lock()
				defer wm.mu.Unlock()
				if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == ch {
					var v V
					wm.set(key, v)
				}""","""				if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == ch {
					var v V
					wm.Set(key, v)
				}""")]),
("wm-rlock-delete","Q01",[(WM,"""			wm.mu.Lock()
			delete(wm.dataHolder, key)
			wm.mu.Unlock()
		}""","""			wm.mu.RLock()
			delete(wm.dataHolder, key)
			wm.mu.RUnlock()
		}""")]),
("su-empty-nolock","Q01",[(SU,"""				res.elementsMu.RLock()
				if len(res.ttlElements) == 0 {
					res.elementsMu.RUnlock()
					continue
				}
				first""","""				if len(res.ttlElements) == 0 {
					continue
				}
				res.elementsMu.RLock()
				first""")]),
("su-append-after-unlock","Q01",[(SU,"""		s.elements[hash] = &structUniqSetElement{hash: hash, createdAt: time.Now()}
		s.ttlElements = append(s.ttlElements, s.elements[hash])
	}
	s.elementsMu.Unlock()""","""		s.elements[hash] = &structUniqSetElement{hash: hash, createdAt: time.Now()}
	}
	s.elementsMu.Unlock()
	if !ok {
		s.ttlElements = append(s.ttlElements, s.elements[hash])
	}""")]),
("su-init-in-section","",[(SU,"""		s.elements[hash] = &structUniqSetElement{hash: hash, createdAt: time.Now()}
		s.ttlElements""","""		el := &structUniqSetElement{hash: hash}
		s.elements[hash] = el
		el.createdAt = time.Now()
		s.ttlElements""")]),
("su-init-after-section","Q01",[(SU,"""	_, ok = s.elements[hash]
	if !ok {
		s.elements[hash] = &structUniqSetElement{hash: hash, createdAt: time.Now()}
		s.ttlElements = append(s.ttlElements, s.elements[hash])
	}
	s.elementsMu.Unlock()""","""	_, ok = s.elements[hash]
	el := &structUniqSetElement{hash: hash, createdAt: time.Now()}
	if !ok {
		s.elements[hash] = el
		s.ttlElements = append(s.ttlElements, s.elements[hash])
	}
	s.elementsMu.Unlock()
	el.createdAt = time.Now()""")]),
("sm-size-nolock","Q01",[(SM,"		m.shardsLock[i].RLock()\n		count += len(m.shards[i])\n		m.shardsLock[i].RUnlock()","		count += len(m.shards[i])")]),
("sm-size-first-lock","Q01",[(SM,"		m.shardsLock[i].RLock()\n		count += len(m.shards[i])\n		m.shardsLock[i].RUnlock()","		m.shardsLock[0].RLock()\n		count += len(m.shards[i])\n		m.shardsLock[0].RUnlock()")]),
("sm-set-rlock","Q01",[(SM,"""	m.shardsLock[shard].Lock()
	defer m.shardsLock[shard].Unlock()
	m.shards[shard][key] = value
}""","""	m.shardsLock[shard].RLock()
	defer m.shardsLock[shard].RUnlock()
	m.shards[shard][key] = value
}""")]),
("sm-lock-helper","",[(SM,"""	m.shardsLock[shard].Lock()
	defer m.shardsLock[shard].Unlock()
	m.shards[shard][key] = value
}""","""	l := &m.shardsLock[shard]
	l.Lock()
	s := m.shards[shard]
	s[key] = value
	l.Unlock()
}""")]),
("sm-shards-before-lock","Q01",[(SM,"""	m.shardsLock[shard].Lock()
	defer m.shardsLock[shard].Unlock()
	m.shards[shard][key] = value
}""","""	s := m.shards[shard]
	m.shardsLock[shard].Lock()
	defer m.shardsLock[shard].Unlock()
	s[key] = value
}""")]),
("tk-keys-nolock","Q01",[(TK,"""	m.mu.RLock()
	defer m.mu.RUnlock()
	keys := make([]K2""","""	keys := make([]K2""")]),
("tk-k2-early","Q01",[(TK,"""	m.mu.Lock()
	defer m.mu.Unlock()
	k1, ok := m.k2Tok1[k2]
	if !ok {
		return
	}""","""	k1, ok := m.k2Tok1[k2]
	if !ok {
		return
	}
	m.mu.Lock()
	defer m.mu.Unlock()""")]),
("mp-size-nolock","Q01",[(MP,"""	m.mu.RLock()
	defer m.mu.RUnlock()
	return len(m.m)""","""	return len(m.m)""")]),
("lm-lookup-nolock","Q01",[(LM,"""	mm.mu.RLock()
	m, ok := mm.m[k]
	mm.mu.RUnlock()""","""	m, ok := mm.m[k]""")]),
("rn-counter","Q01",[(RN,"	runnersCtx chan RunnerContextFn\n}","	runnersCtx chan RunnerContextFn\n	done       int\n}"),(RN,"					fn()\n","					fn()\n					r.done++\n")]),
("rn-local-counter","",[(RN,"		go func() {\n			for {","		go func() {\n			done := 0\n			for {"),(RN,"					fn()\n","					fn()\n					done++\n")]),
("rn-shared-local","Q01",[(RN,"	for i := 0; i < b.workerCount","	done := 0\n	for i := 0; i < b.workerCount"),(RN,"					fn()\n","					fn()\n					done++\n")]),
("cc-counter","Q01",[(CC,"	outgoingChan chan []T\n}","	outgoingChan chan []T\n	pending      int\n}"),(CC,"			chunk = append(chunk, item)\n","			chunk = append(chunk, item)\n			c.pending = len(chunk)\n"),
  (CC,"	return len(c.incomingChan), len(c.outgoingChan)","	return len(c.incomingChan) + c.pending, len(c.outgoingChan)")]),
("cc-own-counter","",[(CC,"	outgoingChan chan []T\n}","	outgoingChan chan []T\n	pending      int\n}"),(CC,"			chunk = append(chunk, item)\n","			chunk = append(chunk, item)\n			c.pending = len(chunk)\n")]),
("cc-ctx-late","Q01",[(CC,"	go res.run()\n","	go res.run()\n	res.chunkSize = max(b.chunkSize, 1)\n")]),
]

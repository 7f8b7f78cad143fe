HS='collections/hash_set.go'; GM='collections/guava_map.go'; HM='collections/holder_map.go'; RS='collections/response_map.go'
RQ='collections/request_map.go'; WM='collections/wait_map.go'; SU='collections/struct_uniq_set.go'; SM='collections/shard_map.go'
TK='collections/two_key_map.go'; MP='collections/map.go'; LM='collections/lock_map.go'
UPD="""	lock := m.getKeyLock(key)
	defer m.releaseKeyLock(key, lock)
	lock.Lock()
	defer lock.Unlock()
	res := update()
	m.mu.Lock()
	defer m.mu.Unlock()
	m.safeSet(key, res)
	return res"""
SIF="""	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.m[key]; ok {
		return v, false
	}
	v := fn()
	m.m[key] = v
	return v, true"""
M=[
# ---- forgotten releases
("hs-early-return","Q02",[(HS,"""	s.mu.Lock()
	defer s.mu.Unlock()

	if _, ok := s.m[key]; ok {
		return
	}""","""	s.mu.Lock()
	if _, ok := s.m[key]; ok {
		return
	}
	defer s.mu.Unlock()""")]),
("hs-has-leak","Q02",[(HS,"""	s.mu.RLock()
	_, ok := s.m[key]
	s.mu.RUnlock()
	if ok {
		return true
	}
	s.mu.Lock()""","""	s.mu.RLock()
	_, ok := s.m[key]
	if ok {
		return true
	}
	s.mu.RUnlock()
	s.mu.Lock()""")]),
("tk-getk2-leak","Q02",[(TK,"""	m.mu.RLock()
	defer m.mu.RUnlock()
	k1, ok := m.k2Tok1[k2]
	if !ok {
		ok = false
		return
	}
	v, ok = m.data[k1]
	return v, ok""","""	m.mu.RLock()
	k1, ok := m.k2Tok1[k2]
	if !ok {
		ok = false
		return
	}
	v, ok = m.data[k1]
	m.mu.RUnlock()
	return v, ok""")]),
("hm-wait-leak","Q02",[(HM,"""		if ok {
			c.mu.Unlock()
			return h.wait()""","""		if ok {
			return h.wait()""")]),
("hm-wait-under-lock","Q02",[(HM,"""		if ok {
			c.mu.Unlock()
			return h.wait()""","""		if ok {
			defer c.mu.Unlock()
			return h.wait()""")]),
("hm-get-locked-read","",[(HM,"""	c.mu.RLock()
	h, ok := c.m[trx]
	c.mu.RUnlock()
	if ok {
		h.mu.Lock()
		defer h.mu.Unlock()
		return h.Object, h.Err
	}""","""	c.mu.RLock()
	defer c.mu.RUnlock()
	h, ok := c.m[trx]
	if ok {
		h.mu.Lock()
		defer h.mu.Unlock()
		return h.Object, h.Err
	}""")]),
("hm-order-cycle","Q02",[(HM,"""	c.mu.RLock()
	h, ok := c.m[trx]
	c.mu.RUnlock()
	if ok {
		h.mu.Lock()
		defer h.mu.Unlock()
		return h.Object, h.Err
	}""","""	c.mu.RLock()
	defer c.mu.RUnlock()
	h, ok := c.m[trx]
	if ok {
		h.mu.Lock()
		defer h.mu.Unlock()
		return h.Object, h.Err
	}"""),(HM,"""				h.mu.Unlock()
				go func() {
					time.Sleep(c.destroyElementDuration)
					c.mu.Lock()
					delete(c.m, trx)
					c.mu.Unlock()
				}()""","""				if c.destroyElementDuration <= 0 {
					c.mu.Lock()
					delete(c.m, trx)
					c.mu.Unlock()
				}
				h.mu.Unlock()
				go func() {
					time.Sleep(c.destroyElementDuration)
					c.mu.Lock()
					delete(c.m, trx)
					c.mu.Unlock()
				}()""")]),
("hm-sleep-under-lock","Q02",[(HM,"""				h.mu.Unlock()
				go func() {
					time.Sleep(c.destroyElementDuration)
					c.mu.Lock()""","""				h.mu.Unlock()
				go func() {
					c.mu.Lock()
					time.Sleep(c.destroyElementDuration)""")]),
("hm-unbuffered","Q02",[(HM,"""	waitChan := make(chan error, 1)
	h.rel""","""	waitChan := make(chan error)
	h.rel""")]),
("hm-unbuffered-first","Q02",[(HM,"""			waitChan := make(chan error, 1)
			h = ""","""			waitChan := make(chan error)
			h = """)]),
("hm-verdict-blocks","D01",[(HM,"""	select {
	case h.inChan <- err:
	default:
	}""","""	h.inChan <- err""")]),
("hm-verdict-under-lock","Q02",[(HM,"""	c.mu.RLock()
	h, ok := c.m[trx]
	c.mu.RUnlock()
	if ok {
		h.verdict(nil)""","""	c.mu.RLock()
	defer c.mu.RUnlock()
	h, ok := c.m[trx]
	if ok {
		h.inChan <- nil""")]),
("hm-verdict-locked-try","",[(HM,"""	c.mu.RLock()
	h, ok := c.m[trx]
	c.mu.RUnlock()
	if ok {
		h.verdict(nil)""","""	c.mu.RLock()
	defer c.mu.RUnlock()
	h, ok := c.m[trx]
	if ok {
		h.verdict(nil)""")]),
("hm-unlock-after","Q02",[(HM,"""			c.m[trx] = h
			c.mu.Unlock()
			return <-waitChan""","""			c.m[trx] = h
			defer c.mu.Unlock()
			return <-waitChan""")]),
("hm-defer-unlock-goroutine","Q02",[(HM,"""				h.mu.Unlock()
				go func() {
					time.Sleep(c.destroyElementDuration)""","""				go func() {
					time.Sleep(c.destroyElementDuration)
					h.mu.Unlock()""")]),
# ---- WaitMap
("wm-wait-under-lock","Q02",[(WM,"""	wm.waiterChannels[key] = append(wm.waiterChannels[key], ch)
	wm.mu.Unlock()
""","""	wm.waiterChannels[key] = append(wm.waiterChannels[key], ch)
	defer wm.mu.Unlock()
""")]),
("wm-selfdeadlock","Q02",[(WM,"""					var v V
					wm.set(key, v)
""","""					var v V
					wm.Set(key, v)
""")]),
("wm-return-locked","Q02",[(WM,"""	if ok {
		wm.mu.Unlock()
		return value
	}""","""	if ok {
		return value
	}""")]),
("wm-count-twice","Q02",[(WM,"""	a := len(wm.waiterChannels)
	b := len(wm.dataHolder)
	return a + b""","""	a := len(wm.waiterChannels)
	return a + wm.results()"""),(WM,"""func (wm *WaitMap[K, V]) Wait(""","""func (wm *WaitMap[K, V]) results() int {
	wm.mu.RLock()
	defer wm.mu.RUnlock()
	return len(wm.dataHolder)
}

func (wm *WaitMap[K, V]) Wait(""")]),
("wm-unbuffered","Q02",[(WM,"ch := make(chan V, 1)","ch := make(chan V)")]),
("wm-ttl-skip-unlock","Q02",[(WM,"""			wm.mu.Lock()
			delete(wm.dataHolder, key)
			wm.mu.Unlock()
			return""","""			wm.mu.Lock()
			delete(wm.dataHolder, key)
			return""")]),
("wm-ctx-cond-unlock","Q02",[(WM,"""					delete(wm.waiterChannels, key)
				}
				wm.mu.Unlock()
			case""","""					delete(wm.waiterChannels, key)
					wm.mu.Unlock()
				}
			case""")]),
("wm-ctx-helper","",[(WM,"""				if chans, exists := wm.waiterChannels[key]; exists {
					var v V
					for _, ch := range chans {
						ch <- v
						close(ch)
					}
					delete(wm.waiterChannels, key)
				}
				wm.mu.Unlock()""","""				var v V
				wm.wake(key, v)
				wm.mu.Unlock()"""),(WM,"""	if chans, ok := wm.waiterChannels[key]; ok {
		for _, ch := range chans {
			ch <- value
			close(ch) // Закрываем канал после отправки значения
		}
		delete(wm.waiterChannels, key)
	}
""","""	wm.wake(key, value)
"""),(WM,"""func (wm *WaitMap[K, V]) set(""","""func (wm *WaitMap[K, V]) wake(key K, value V) {
	chans := wm.waiterChannels[key]
	delete(wm.waiterChannels, key)
	for _, ch := range chans {
		ch <- value
		close(ch)
	}
}

func (wm *WaitMap[K, V]) set(""")]),
# ---- ResponseMap
("rs-wait-locked","Q02",[(RS,"""	h.listeners = append(h.listeners, ch)
	h.mu.Unlock()
	return <-ch""","""	h.listeners = append(h.listeners, ch)
	defer h.mu.Unlock()
	return <-ch""")]),
("rs-upgrade","Q02",[(RS,"""	h.mu.RLock()
	e, data := h.isExist, h.data
	h.mu.RUnlock()
	if e {
		return data
	}
	h.mu.Lock()""","""	h.mu.RLock()
	defer h.mu.RUnlock()
	e, data := h.isExist, h.data
	if e {
		return data
	}
	h.mu.Lock()""")]),
("rs-set-early","Q02",[(RS,"""	h.mu.Lock()
	defer h.mu.Unlock()
	if h.isExist || h.isClosed {
		return
	}
	h.data = data
	h.isExist = true
	for _, ch := range h.listeners {
		ch <- data
	}
	h.listeners = nil""","""	h.mu.Lock()
	if h.isExist || h.isClosed {
		return
	}
	h.data = data
	h.isExist = true
	for _, ch := range h.listeners {
		ch <- data
	}
	h.listeners = nil
	h.mu.Unlock()""")]),
("rs-set-under-map-lock","Q02",[(RS,"""	holder := r.getHolder(key)
	holder.set(value)""","""	holder := r.getHolder(key)
	r.mu.RLock()
	defer r.mu.RUnlock()
	if r.getHolder(key) == holder {
		holder.set(value)
	}""")]),
("rs-set-holds-map","",[(RS,"""func (r *ResponseMap[K, V]) Wait(key K) V {""","""func (r *ResponseMap[K, V]) Pending() int {
	r.mu.RLock()
	defer r.mu.RUnlock()
	n := 0
	for _, h := range r.m {
		h.mu.RLock()
		n += len(h.listeners)
		h.mu.RUnlock()
	}
	return n
}

func (r *ResponseMap[K, V]) Wait(key K) V {""")]),
("rs-pending-leak","Q02",[(RS,"""func (r *ResponseMap[K, V]) Wait(key K) V {""","""func (r *ResponseMap[K, V]) Pending() int {
	r.mu.RLock()
	defer r.mu.RUnlock()
	n := 0
	for _, h := range r.m {
		h.mu.RLock()
		defer h.mu.RUnlock()
		n += len(h.listeners)
	}
	return n
}

func (r *ResponseMap[K, V]) Wait(key K) V {""")]),
("rs-clear-order","Q02",[(RS,"""func (r *ResponseMap[K, V]) Wait(key K) V {""","""func (r *ResponseMap[K, V]) Pending() int {
	r.mu.RLock()
	defer r.mu.RUnlock()
	n := 0
	for _, h := range r.m {
		h.mu.RLock()
		n += len(h.listeners)
		h.mu.RUnlock()
	}
	return n
}

func (r *ResponseMap[K, V]) drop(h *chansHolder[K, V]) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.cancelCtx()
	r.mu.Lock()
	delete(r.m, h.trx)
	r.mu.Unlock()
}

func (r *ResponseMap[K, V]) Wait(key K) V {"""),(RS,"""			r.mu.Lock()
			for _, holder := range remove {
				holder.cancelCtx()
				delete(r.m, holder.trx)
			}
			count := len(r.m)""","""			for _, holder := range remove {
				r.drop(holder)
			}
			r.mu.Lock()
			count := len(r.m)""")]),
("rs-goroutine-loop-leak","Q02",[(RS,"""				h.listeners = nil
				h.mu.Unlock()
			}
		}
	}()""","""				h.listeners = nil
			}
		}
	}()""")]),
("rs-send-unbuffered","Q02",[(RS,"ch := make(chan V, 1)","ch := make(chan V)")]),
("rs-set-twice","Q02",[(RS,"""		ch <- data
	}""","""		ch <- data
		ch <- data
	}""")]),
("rs-keep-listeners","",[(RS,"""	for _, ch := range h.listeners {
		ch <- data
	}
	h.listeners = nil
}""","""	for _, ch := range h.listeners {
		ch <- data
	}
}""")]),
("rs-logger-unlocked","",[(RS,"""			r.mu.RLock()
			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
			for""","""			r.mu.RLock()
			n := len(r.m)
			r.mu.RUnlock()
			r.logger.Debug().Int("holders count", n).Msg("start cleaning response map")
			r.mu.RLock()
			for""")]),
# ---- RequestMap
("rq-callback-locked","Q02",[(RQ,"""			vx := f(key)
			rm.mu.Lock()
""","""			rm.mu.Lock()
			vx := f(key)
""")]),
("rq-do-return","Q02",[(RQ,"""		first := rm.resultSlice[0]
		rm.mu.RUnlock()
		if time.Since(first.resultTime) < rm.deleteAfter {
			return
		}
""","""		first := rm.resultSlice[0]
		if time.Since(first.resultTime) < rm.deleteAfter {
			return
		}
		rm.mu.RUnlock()
""")]),
("rq-do-lock-early","Q02",[(RQ,"""		if len(rm.resultSlice) == 0 {
			rm.mu.RUnlock()
			return
		}
		first""","""		if len(rm.resultSlice) == 0 {
			return
		}
		first""")]),
("rq-do-upgrade","Q02",[(RQ,"""		first := rm.resultSlice[0]
		rm.mu.RUnlock()
""","""		defer rm.mu.RUnlock()
		first := rm.resultSlice[0]
""")]),
("rq-double-unlock","Q02",[(RQ,"""	_, ok = rm.waiters[key]
	rm.waiters[key] = append(rm.waiters[key], ch)
	rm.mu.Unlock()
	if !ok { // Start goroutine
		go func() {
			vx := f(key)""","""	_, ok = rm.waiters[key]
	rm.waiters[key] = append(rm.waiters[key], ch)
	rm.mu.Unlock()
	defer rm.mu.Unlock()
	if !ok { // Start goroutine
		go func() {
			vx := f(key)""")]),
("rq-inner-under-lock","Q02",[(RQ,"""			rm.mu.Unlock()
			// Start remove goroutine
			go func() {
				//time.Sleep(rm.deleteAfter)
				//rm.mu.Lock()
				//defer rm.mu.Unlock()
				//delete(rm.waiters, key)
				//delete(rm.response, key)
				rm.mu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.mu.Unlock()
			}()
		}()
	}
	res := <-ch
	return res.result
}""","""			func() {
				rm.mu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.mu.Unlock()
			}()
			rm.mu.Unlock()
		}()
	}
	res := <-ch
	return res.result
}""")]),
("rq-append-inline","",[(RQ,"""			rm.mu.Unlock()
			// Start remove goroutine
			go func() {
				//time.Sleep(rm.deleteAfter)
				//rm.mu.Lock()
				//defer rm.mu.Unlock()
				//delete(rm.waiters, key)
				//delete(rm.response, key)
				rm.mu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.mu.Unlock()
			}()
		}()
	}
	res := <-ch
	return res.result
}""","""			rm.resultSlice = append(rm.resultSlice, r)
			rm.mu.Unlock()
		}()
	}
	res := <-ch
	return res.result
}""")]),
# ---- GuavaMap
("gm-update-nodefer","Q02",[(GM,UPD,UPD.replace("""	defer lock.Unlock()
	res := update()
""","""	res := update()
	defer lock.Unlock()
"""))]),
("gm-update-nodefer2","Q02",[(GM,UPD,UPD.replace("""	defer lock.Unlock()
	res := update()
""","""	res := update()
	lock.Unlock()
"""))]),
("gm-update-under-mu","Q02",[(GM,UPD,UPD.replace("""	res := update()
	m.mu.Lock()
	defer m.mu.Unlock()
""","""	m.mu.Lock()
	defer m.mu.Unlock()
	res := update()
"""))]),
("gm-update-order","Q02",[(GM,UPD,UPD.replace("""	lock.Lock()
	defer lock.Unlock()
""","""	m.mu.RLock()
	lock.Lock()
	m.mu.RUnlock()
	defer lock.Unlock()
"""))]),
("gm-update-tablelock","Q02",[(GM,"""	lock.refs++
	return lock""","""	lock.refs++
	lock.Lock()
	return lock"""),(GM,UPD,UPD.replace("""	lock.Lock()
	defer""","""	defer"""))]),
("gm-set-public","Q02",[(GM,"	m.safeSet(key, res)\n	return res","	m.Set(key, res)\n	return res")]),
("gm-load-nodefer","Q02",[(GM,"""		m.lockLoad.Lock(key)
		defer m.lockLoad.Unlock(key)
""","""		m.lockLoad.Lock(key)
"""),(GM,"""	loadedVal, err = m.loadFunc(key)
""","""	loadedVal, err = m.loadFunc(key)
	if m.lockLoad != nil {
		defer m.lockLoad.Unlock(key)
	}
""")]),
("gm-load-under-mu","Q02",[(GM,"""			return v, nil
		}
		m.mu.RUnlock()
	}
	loadedVal, err = m.loadFunc(key)

	if err != nil {
		var v V
		return v, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
""","""			return v, nil
		}
		m.mu.RUnlock()
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	loadedVal, err = m.loadFunc(key)

	if err != nil {
		var v V
		return v, err
	}
""")]),
("gm-unload-inline","Q02",[(GM,"		go m.unloadFunc(key, v.v)","		m.unloadFunc(key, v.v)")]),
("gm-unload-inline-clear","Q02",[(GM,"			go m.unloadFunc(k, v.v)","			m.unloadFunc(k, v.v)")]),
("gm-delete-in-expiry","Q02",[(GM,"					m.safeDelete(key)\n				}\n				m.mu.Unlock()\n","					m.Delete(key)\n				}\n				m.mu.Unlock()\n")]),
("gm-has-delete","Q02",[(GM,"""	if ok {
		if v.timer != nil && m.readTimeout > 0 {
			v.timer.Reset(m.readTimeout)
		}
	}
	return ok""","""	if ok {
		if v.timer != nil && m.readTimeout > 0 {
			if !v.timer.Reset(m.readTimeout) {
				m.Delete(key)
				return false
			}
		}
	}
	return ok""")]),
("gm-get-leak","Q02",[(GM,"""		v := val.v
		m.mu.RUnlock()
		return v, nil
	}
	m.mu.RUnlock()
	if m.loadFunc == nil {""","""		return val.v, nil
	}
	m.mu.RUnlock()
	if m.loadFunc == nil {""")]),
("gm-get-late-runlock","Q02",[(GM,"""	m.mu.RUnlock()
	if m.loadFunc == nil {
		var v V
		return v, nil
	}""","""	if m.loadFunc == nil {
		var v V
		return v, nil
	}
	m.mu.RUnlock()""")]),
("gm-get-defer-rlock","Q02",[(GM,"""	m.mu.RLock()
	val, ok := m.stored[key]
	if ok {
		if val.timer != nil && m.readTimeout > 0 {
			val.timer.Reset(m.readTimeout)
		}
		v := val.v
		m.mu.RUnlock()
		return v, nil
	}
	m.mu.RUnlock()
	if m.loadFunc == nil {""","""	m.mu.RLock()
	defer m.mu.RUnlock()
	val, ok := m.stored[key]
	if ok {
		if val.timer != nil && m.readTimeout > 0 {
			val.timer.Reset(m.readTimeout)
		}
		return val.v, nil
	}
	if m.loadFunc == nil {""")]),
("gm-safedelete-relock","Q02",[(GM,"""	//m.updateLockMapMu.Lock()
	//delete(m.updateLockMap, key)
	//m.updateLockMapMu.Unlock()
""","""	if l, ok := m.updateLockMap[key]; ok {
		l.Lock()
		l.Unlock()
	}
""")]),
("gm-release-before-unlock","",[(GM,UPD,UPD.replace("""	defer m.releaseKeyLock(key, lock)
	lock.Lock()
	defer lock.Unlock()
""","""	lock.Lock()
	defer func() {
		lock.Unlock()
		m.releaseKeyLock(key, lock)
	}()
"""))]),
("gm-update-explicit","",[(GM,UPD,UPD.replace("""	m.mu.Lock()
	defer m.mu.Unlock()
	m.safeSet(key, res)
	return res""","""	m.mu.Lock()
	m.safeSet(key, res)
	m.mu.Unlock()
	return res"""))]),
("gm-getkeylock-order","",[(GM,"""	defer m.updateLockMapMu.Unlock()
	if m.updateLockMap == nil {""","""	defer func() { m.updateLockMapMu.Unlock() }()
	if m.updateLockMap == nil {""")]),
("gm-release-order-cycle","Q02",[(GM,UPD,UPD.replace("""	defer m.releaseKeyLock(key, lock)
	lock.Lock()
	defer lock.Unlock()
""","""	lock.Lock()
	defer lock.Unlock()
	defer m.releaseKeyLock(key, lock)
""")),(GM,"""	if !ok {
		lock = &updateLock{}""","""	if ok {
		lock.Lock()
		lock.refs++
		lock.Unlock()
		return lock
	}
	if !ok {
		lock = &updateLock{}""")]),
# ---- maps with functions
("mp-fn-nodefer","Q02",[(MP,SIF,SIF.replace("	defer m.mu.Unlock()\n","").replace("		return v, false","		m.mu.Unlock()\n		return v, false").replace("	return v, true","	m.mu.Unlock()\n	return v, true"))]),
("mp-fn-selfset","Q02",[(MP,SIF,SIF.replace("	m.m[key] = v\n","	m.Set(key, v)\n"))]),
("mp-has-double","Q02",[(MP,"""	defer m.mu.Unlock()
	if _, ok := m.m[key]; ok {
		return false
	}""","""	defer m.mu.Unlock()
	if m.Has(key) {
		return false
	}""")]),
("mp-has-then-set","",[(MP,SIF,"""	m.mu.Lock()
	defer func() {
		m.mu.Unlock()
	}()
	v, ok := m.m[key]
	if !ok {
		v = fn()
		m.m[key] = v
	}
	return v, !ok""")]),
("sm-fn-nodefer","Q02",[(SM,"""	defer m.shardsLock[shard].Unlock()
	if v, ok := m.shards[shard][key]; ok {
		return v, false
	}
	v := fn()
	m.shards[shard][key] = v
	return v, true""","""	if v, ok := m.shards[shard][key]; ok {
		m.shardsLock[shard].Unlock()
		return v, false
	}
	v := fn()
	m.shards[shard][key] = v
	m.shardsLock[shard].Unlock()
	return v, true""")]),
("sm-shardfunc-locked","Q02",[(SM,"""	shard := m.shardsFunc(key)
	m.shardsLock[shard].RLock()
	defer m.shardsLock[shard].RUnlock()
	v, ok := m.shards[shard][key]""","""	m.shardsLock[0].RLock()
	defer m.shardsLock[0].RUnlock()
	shard := m.shardsFunc(key)
	if shard != 0 {
		m.shardsLock[shard].RLock()
		defer m.shardsLock[shard].RUnlock()
	}
	v, ok := m.shards[shard][key]""")]),
("sm-size-defer","Q02",[(SM,"""		m.shardsLock[i].RLock()
		count += len(m.shards[i])
		m.shardsLock[i].RUnlock()""","""		m.shardsLock[i].RLock()
		defer m.shardsLock[i].RUnlock()
		count += len(m.shards[i])""")]),
("sm-clear-continue","Q02",[(SM,"""		m.shardsLock[i].Lock()
		m.shards[i] = make(map[K]V)""","""		m.shardsLock[i].Lock()
		if len(m.shards[i]) == 0 {
			continue
		}
		m.shards[i] = make(map[K]V)""")]),
("sm-clear-fn","",[(SM,"""		m.shardsLock[i].Lock()
		m.shards[i] = make(map[K]V)
		m.shardsLock[i].Unlock()""","""		func() {
			m.shardsLock[i].Lock()
			defer m.shardsLock[i].Unlock()
			m.shards[i] = make(map[K]V)
		}()""")]),
# ---- struct set
("su-build-locked","Q02",[(SU,"""	hash, err := s.getHashCode(v)
	if err != nil {
		return false, err
	}
	s.elementsMu.Lock()
	_, ok := s.elements[hash]
	if ok {""","""	s.elementsMu.Lock()
	defer s.elementsMu.Unlock()
	hash, err := s.getHashCode(v)
	if err != nil {
		return false, err
	}
	_, ok := s.elements[hash]
	if ok {"""),(SU,"""		delete(s.elements, hash)
	}
	s.elementsMu.Unlock()
	return ok, nil""","""		delete(s.elements, hash)
	}
	return ok, nil""")]),
("su-empty-leak","Q02",[(SU,"""				if len(res.ttlElements) == 0 {
					res.elementsMu.RUnlock()
					continue""","""				if len(res.ttlElements) == 0 {
					continue""")]),
("su-defer-in-loop","Q02",[(SU,"""				res.elementsMu.Lock()
				expired :=""","""				res.elementsMu.Lock()
				defer res.elementsMu.Unlock()
				expired :="""),(SU,"""				res.ttlElements = res.ttlElements[expired:]
				res.elementsMu.Unlock()
""","""				res.ttlElements = res.ttlElements[expired:]
""")]),
("su-mode","Q02",[(SU,"""	s.elementsMu.RLock()
	defer s.elementsMu.RUnlock()
	return len""","""	s.elementsMu.RLock()
	defer s.elementsMu.Unlock()
	return len""")]),
("su-add-has","Q02",[(SU,"""	s.elementsMu.Lock()
	_, ok = s.elements[hash]
	if !ok {
		s.elements[hash]""","""	s.elementsMu.Lock()
	ok, _ = s.Has(v)
	if !ok {
		s.elements[hash]""")]),
("su-unlock-only-new","Q02",[(SU,"""		s.ttlElements = append(s.ttlElements, s.elements[hash])
	}
	s.elementsMu.Unlock()
	return !ok, nil""","""		s.ttlElements = append(s.ttlElements, s.elements[hash])
		s.elementsMu.Unlock()
	}
	return !ok, nil""")]),
# ---- lock map
("lm-lock-under-mu","Q02",[(LM,"""func (mm *MapMutex[K]) Lock(k K) {
	mm.mu.RLock()
	m, ok := mm.m[k]
	mm.mu.RUnlock()
	if !ok {
		mm.mu.Lock()
		m, ok = mm.m[k]
		if !ok {
			m = &sync.Mutex{}
			mm.m[k] = m
		}
		mm.mu.Unlock()
	}
	m.Lock()
}""","""func (mm *MapMutex[K]) Lock(k K) {
	mm.mu.Lock()
	defer mm.mu.Unlock()
	m, ok := mm.m[k]
	if !ok {
		m = &sync.Mutex{}
		mm.m[k] = m
	}
	m.Lock()
}""")]),
("lm-rlock-under-mu","Q02",[(LM,"""			m = &sync.RWMutex{}
			mm.m[k] = m
		}
		mm.mu.Unlock()
	}
	m.RLock()""","""			m = &sync.RWMutex{}
			mm.m[k] = m
		}
		defer mm.mu.Unlock()
	}
	m.RLock()""")]),
("lm-unlock-leak","Q02",[(LM,"""	mm.mu.RUnlock()
	if ok {
		m.Unlock()
	}
}

type MapRWMutex""","""	if ok {
		mm.mu.RUnlock()
		m.Unlock()
	}
}

type MapRWMutex""")]),
("lm-simple","",[(LM,"""	mm.mu.RLock()
	m, ok := mm.m[k]
	mm.mu.RUnlock()
	if !ok {
		mm.mu.Lock()
		m, ok = mm.m[k]
		if !ok {
			m = &sync.Mutex{}
			mm.m[k] = m
		}
		mm.mu.Unlock()
	}
	m.Lock()
}""","""	mm.of(k).Lock()
}

func (mm *MapMutex[K]) of(k K) *sync.Mutex {
	mm.mu.Lock()
	defer mm.mu.Unlock()
	m, ok := mm.m[k]
	if !ok {
		m = new(sync.Mutex)
		mm.m[k] = m
	}
	return m
}""")]),
("lm-unlock-under-read","",[(LM,"""	mm.mu.RUnlock()
	if ok {
		m.Unlock()
	}
}

type MapRWMutex""","""	if ok {
		m.Unlock()
	}
	mm.mu.RUnlock()
}

type MapRWMutex""")]),
# ---- other
("tk-put-remove","Q02",[(TK,"""		delete(m.data, oldK1)
		delete(m.k1Tok2, oldK1)
	}
	m.data[k1] = v""","""		m.Remove(oldK1)
	}
	m.data[k1] = v""")]),
("tk-put-removelocked","",[(TK,"""		delete(m.data, oldK1)
		delete(m.k1Tok2, oldK1)
	}
	m.data[k1] = v""","""		m.drop(oldK1)
	}
	m.data[k1] = v"""),(TK,"""func (m *TwoKeyMap[K1, K2, V]) Get(""","""func (m *TwoKeyMap[K1, K2, V]) drop(k1 K1) {
	delete(m.data, k1)
	delete(m.k1Tok2, k1)
}

func (m *TwoKeyMap[K1, K2, V]) Get(""")]),
("tk-two-locks-cycle","Q02",[(TK,"	mu     sync.RWMutex\n","	mu     sync.RWMutex\n	linkMu sync.Mutex\n"),(TK,"""	m.mu.Lock()
	defer m.mu.Unlock()
	if oldK2""","""	m.mu.Lock()
	defer m.mu.Unlock()
	m.linkMu.Lock()
	defer m.linkMu.Unlock()
	if oldK2"""),(TK,"""	m.mu.Lock()
	defer m.mu.Unlock()
	k2, ok := m.k1Tok2[k1]""","""	m.linkMu.Lock()
	defer m.linkMu.Unlock()
	m.mu.Lock()
	defer m.mu.Unlock()
	k2, ok := m.k1Tok2[k1]""")]),
("tk-two-locks","",[(TK,"	mu     sync.RWMutex\n","	mu     sync.RWMutex\n	linkMu sync.Mutex\n"),(TK,"""	m.mu.Lock()
	defer m.mu.Unlock()
	if oldK2""","""	m.mu.Lock()
	defer m.mu.Unlock()
	m.linkMu.Lock()
	defer m.linkMu.Unlock()
	if oldK2"""),(TK,"""	m.mu.Lock()
	defer m.mu.Unlock()
	k2, ok := m.k1Tok2[k1]""","""	m.mu.Lock()
	defer m.mu.Unlock()
	m.linkMu.Lock()
	defer m.linkMu.Unlock()
	k2, ok := m.k1Tok2[k1]""")]),
("hs-trylock","",[(HS,"""	s.mu.RLock()
	_, ok := s.m[key]
	s.mu.RUnlock()
	if ok {
		return true
	}
	s.mu.Lock()""","""	if s.mu.TryRLock() {
		_, ok := s.m[key]
		s.mu.RUnlock()
		if ok {
			return true
		}
	}
	ok := false
	s.mu.Lock()""")]),
("hs-trylock-leak","Q02",[(HS,"""	s.mu.RLock()
	_, ok := s.m[key]
	s.mu.RUnlock()
	if ok {
		return true
	}
	s.mu.Lock()""","""	if s.mu.TryRLock() {
		if _, ok := s.m[key]; ok {
			return true
		}
		s.mu.RUnlock()
	}
	ok := false
	s.mu.Lock()""")]),
("hs-keys-count","Q02",[(HS,"	keys := make([]K, 0, len(s.m))","	keys := make([]K, 0, s.Count())")]),
]

R='collections/response_map.go'
H='collections/holder_map.go'
M=[
# ---- ResponseMap breaks
("resp-no-recheck","P01 P02",[(R,'''	e, data = h.isExist || h.isClosed, h.data
	if e {''','''	e, data = h.isClosed, h.data
	if e {''')]),
("resp-no-closed-recheck","P01",[(R,'''	e, data = h.isExist || h.isClosed, h.data
	if e {''','''	e, data = h.isExist, h.data
	if e {''')]),
("resp-keep-listeners-timeout","P01",[(R,'''					close(ch)
				}
				h.listeners = nil
				h.mu.Unlock()
			}''','''					close(ch)
				}
				h.mu.Unlock()
			}''')]),
("resp-drop-without-wake","P01",[(R,'''	for _, ch := range h.listeners {
		ch <- data
	}
	h.listeners = nil
}''','''	for _, ch := range h.listeners[:len(h.listeners)/2] {
		ch <- data
	}
	h.listeners = nil
}''')]),
("resp-skip-first","P01",[(R,'''	for _, ch := range h.listeners {
		ch <- data
	}''','''	for i := 1; i < len(h.listeners); i++ {
		h.listeners[i] <- data
	}''')]),
("resp-second-set-wins","P02",[(R,'if h.isExist || h.isClosed {\n\t\treturn','if h.isClosed {\n\t\treturn')]),
("resp-set-after-close","P02",[(R,'if h.isExist || h.isClosed {\n\t\treturn','if h.isExist {\n\t\treturn')]),
("resp-mark-missing","P02",[(R,'	h.data = data\n	h.isExist = true','	h.data = data')]),
("resp-mark-late","P02",[(R,'''	h.data = data
	h.isExist = true
	for _, ch := range h.listeners {
		ch <- data
	}
	h.listeners = nil
}''','''	h.data = data
	for _, ch := range h.listeners {
		ch <- data
	}
	h.listeners = nil
	go func() {
		h.mu.Lock()
		h.isExist = true
		h.mu.Unlock()
	}()
}''')]),
("resp-set-check-unlocked","P02",[(R,'''	h.mu.Lock()
	defer h.mu.Unlock()
	if h.isExist || h.isClosed {
		return
	}''','''	h.mu.RLock()
	done := h.isExist || h.isClosed
	h.mu.RUnlock()
	if done {
		return
	}
	h.mu.Lock()
	defer h.mu.Unlock()''')]),
("resp-unbuffered","P01 P02",[(R,'ch := make(chan V, 1)','ch := make(chan V)')]),
("resp-wait-under-lock","P01",[(R,'''	h.listeners = append(h.listeners, ch)
	h.mu.Unlock()
	return <-ch''','''	h.listeners = append(h.listeners, ch)
	defer h.mu.Unlock()
	return <-ch''')]),
("resp-goroutine-leaves","P01",[(R,'''				h.listeners = nil
				h.mu.Unlock()
			}''','''				h.listeners = nil
				h.mu.Unlock()
				return
			}''')]),
("resp-closed-not-set","P01",[(R,'				h.isClosed = true\n','')]),
("resp-holder-no-recheck","P01 P02",[(R,'''	holder, ok = r.m[key]
	if ok {
		return holder
	}
	holder = new''','''	holder = new''')]),
("resp-holder-not-stored","P01",[(R,'	r.m[key] = holder\n','')]),
("resp-no-ctx","P01 P03",[(R,'newChansHolder[K, V](r.ctx, key','newChansHolder[K, V](context.Background(), key')]),
("resp-clear-timeout-mixed","P01",[(R,'newChansHolder[K, V](r.ctx, key, r.responseTimeout)','newChansHolder[K, V](r.ctx, key, r.clearTimeout)')]),
("resp-clean-wrong-age","P03",[(R,'holder.createdAt.Add(r.clearTimeout)','holder.createdAt.Add(r.responseTimeout)')]),
("resp-clean-before","P03",[(R,'time.Now().After(holder','time.Now().Before(holder')]),
("resp-clean-no-cancel","P03",[(R,'				holder.cancelCtx()\n','')]),
("resp-clean-break","P03",[(R,'''					remove = append(remove, holder)
''','''					remove = append(remove, holder)
				} else {
					break
''')]),
("resp-clean-ctx-ignored","P03",[(R,'''		case <-ctx.Done():
			return
		case <-t.C:
			var''','''		case <-t.C:
			var''')]),
("resp-no-clean","P03",[(R,'	go rm.clear(b.ctx)\n','	_ = rm.clear\n')]),
("resp-created-not-set","P03",[(R,'		createdAt: time.Now(),\n','')]),
("resp-trx-not-set","P03",[(R,'		trx:       trx,\n','')]),
("resp-wrong-data-on-timeout","P01",[(R,'''			case <-h.t.C:
				h.mu.Lock()
				for _, ch := range h.listeners {
					close(ch)''','''			case <-h.t.C:
				h.mu.Lock()
				for _, ch := range h.listeners[1:] {
					close(ch)''')]),
("resp-return-unlocked-data","P01 P02",[(R,'''	e, data := h.isExist, h.data
	h.mu.RUnlock()
	if e {
		return data''','''	e, data := h.isExist, h.data
	h.mu.RUnlock()
	data = h.data
	if e {
		return data''')]),
("resp-timer-leak","P03",[(R,'		defer h.t.Stop()\n','')]),
# ---- refactorings
("same-resp-drain-helper","",[(R,'''				for _, ch := range h.listeners {
					close(ch)
				}
				h.listeners = nil
				h.isClosed = true
				h.mu.Unlock()
				return''','''				h.wake()
				h.isClosed = true
				h.mu.Unlock()
				return'''),(R,'''				for _, ch := range h.listeners {
					close(ch)
				}
				h.listeners = nil
				h.mu.Unlock()
''','''				h.wake()
				h.mu.Unlock()
'''),(R,'''func (h *chansHolder[K, V]) set(''','''func (h *chansHolder[K, V]) wake() {
	for i := range h.listeners {
		close(h.listeners[i])
	}
	h.listeners = nil
}

func (h *chansHolder[K, V]) set(''')]),
("same-resp-set-order","",[(R,'''	h.data = data
	h.isExist = true
	for _, ch := range h.listeners {
		ch <- data
	}
	h.listeners = nil
}''','''	waiting := h.listeners
	h.listeners = nil
	h.isExist = true
	h.data = data
	for i := 0; i < len(waiting); i++ {
		waiting[i] <- h.data
	}
}''')]),
("same-resp-wait-ifs","",[(R,'''	e, data = h.isExist || h.isClosed, h.data
	if e {
		h.mu.Unlock()
		return data
	}
''','''	if h.isExist {
		data = h.data
		h.mu.Unlock()
		return data
	}
	if h.isClosed {
		defer h.mu.Unlock()
		return h.data
	}
''')]),
("same-resp-clean-directly","",[(R,'''			var remove []*chansHolder[K, V]
			r.mu.RLock()
			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
			for _, holder := range r.m {
				if time.Now().After(holder.createdAt.Add(r.clearTimeout)) {
					remove = append(remove, holder)
				}
			}
			r.mu.RUnlock()
			r.logger.Debug().Int("should remove", len(remove)).Msg("collect expired holders")
			r.mu.Lock()
			for _, holder := range remove {
				holder.cancelCtx()
				delete(r.m, holder.trx)
			}
			count''','''			r.mu.Lock()
			for key, holder := range r.m {
				if time.Since(holder.createdAt) > r.clearTimeout {
					holder.cancelCtx()
					delete(r.m, key)
				}
			}
			count''')]),
("same-resp-clean-after","",[(R,'''				holder.cancelCtx()
				delete(r.m, holder.trx)
''','''				delete(r.m, holder.trx)
				holder.cancelCtx()
''')]),
("same-resp-timeout-settle-helper","",[(R,'''func (r *ResponseMap[K, V]) Set(key K, value V) {
	holder := r.getHolder(key)
	holder.set(value)
}''','''func (r *ResponseMap[K, V]) Set(key K, value V) {
	r.getHolder(key).set(value)
}''')]),
("same-resp-getholder-single-lock","",[(R,'''	r.mu.RLock()
	holder, ok := r.m[key]
	r.mu.RUnlock()
	if ok {
		return holder
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	holder, ok = r.m[key]
	if ok {
		return holder
	}
	holder = new''','''	r.mu.Lock()
	defer r.mu.Unlock()
	if holder, ok := r.m[key]; ok {
		return holder
	}
	holder := new''')]),
("same-resp-nil-timer-chan","",[(R,'''		defer h.t.Stop()
		for {
			select {
			case <-h.ctx.Done():''','''		defer h.t.Stop()
		done := h.ctx.Done()
		for {
			select {
			case <-done:''')]),
# ---- HolderMap breaks
("hold-no-recheck-release","D01",[(H,'''	if h.released {
		defer h.mu.Unlock()
		return h.Err
	}
	waitChan''','''	waitChan''')]),
("hold-err-after-unlock","D01",[(H,'''				for _, ch := range h.releaseChanList {
					ch <- h.Err
				}
				h.mu.Unlock()''','''				for _, ch := range h.releaseChanList {
					ch <- nil
				}
				h.mu.Unlock()''')]),
("hold-released-not-set-ctx","D01",[(H,'''				case <-c.ctx.Done():
					h.mu.Lock()
					h.released = true
''','''				case <-c.ctx.Done():
					h.mu.Lock()
''')]),
("hold-two-sections","D01",[(H,'''				case errInChan := <-h.inChan:
					h.mu.Lock()
					h.released = true
					h.Err = errInChan
''','''				case errInChan := <-h.inChan:
					h.mu.Lock()
					h.released = true
					h.mu.Unlock()
					h.mu.Lock()
					h.Err = errInChan
''')]),
("hold-timeout-nil","D01",[(H,'h.Err = errors.New("timeout")','h.Err = nil')]),
("hold-ctx-err","D01",[(H,'h.Err = c.ctx.Err()','h.Err = nil')]),
("hold-inchan-unbuffered","D01",[(H,'inChan:          make(chan error, 1)','inChan:          make(chan error)')]),
("hold-blocking-release","D02",[(H,'''	select {
	case h.inChan <- err:
	default:
	}''','''	h.inChan <- err''')]),
("hold-release-absent-ok","D02",[(H,'''		h.verdict(nil)
		return nil
	} else {
		return errors.New("not found")
	}''','''		h.verdict(nil)
	}
	return nil''')]),
("hold-error-nil","D01 D02",[(H,'h.verdict(err)','h.verdict(nil)')]),
("hold-update-absent","D02",[(H,'''		h.Object = target
		h.mu.Unlock()
		return nil
	} else {
		return errors.New("not found")
	}''','''		h.Object = target
		h.mu.Unlock()
	}
	return nil''')]),
("hold-get-err-missing","D02",[(H,'return h.Object, h.Err','return h.Object, nil')]),
("hold-no-delete","D02",[(H,'					delete(c.m, trx)\n','')]),
("hold-delete-early","D02",[(H,'					time.Sleep(c.destroyElementDuration)\n','					time.Sleep(c.timeoutDuration)\n')]),
("hold-creator-not-rechecked","D01",[(H,'''		h, ok = c.m[trx]
		if ok {
			c.mu.Unlock()
			return h.wait()
		} else {''','''		{''')]),
("hold-creator-not-listed","D01",[(H,'				releaseChanList: []chan error{waitChan},\n','')]),
("hold-list-taken-before","D01",[(H,'''				defer h.timeOutTimer.Stop()
				select {''','''				defer h.timeOutTimer.Stop()
				list := h.releaseChanList
				select {'''),(H,'range h.releaseChanList','range list')]),
("hold-no-timeout-case","D01",[(H,'''				case <-h.timeOutTimer.C:
					h.mu.Lock()
					h.released = true
					h.Err = errors.New("timeout")
''','')]),
# refactorings
("same-hold-verdict-var","",[(H,'''				select {
				case <-h.timeOutTimer.C:
					h.mu.Lock()
					h.released = true
					h.Err = errors.New("timeout")
				case <-c.ctx.Done():
					h.mu.Lock()
					h.released = true
					h.Err = c.ctx.Err()
				case errInChan := <-h.inChan:
					h.mu.Lock()
					h.released = true
					h.Err = errInChan
				}
				for _, ch := range h.releaseChanList {
					ch <- h.Err
				}
				h.mu.Unlock()
''','''				var verdict error
				select {
				case <-h.timeOutTimer.C:
					verdict = errors.New("timeout")
				case <-c.ctx.Done():
					verdict = c.ctx.Err()
				case verdict = <-h.inChan:
				}
				h.settle(verdict)
'''),(H,'''func (c *HolderMap[K, V]) Wait(''','''func (h *holderMapHolder[V]) settle(err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.Err = err
	h.released = true
	for _, ch := range h.releaseChanList {
		ch <- err
	}
	h.releaseChanList = nil
}

func (c *HolderMap[K, V]) Wait(''')]),
("same-hold-afterfunc","",[(H,'''				go func() {
					time.Sleep(c.destroyElementDuration)
					c.mu.Lock()
					delete(c.m, trx)
					c.mu.Unlock()
				}()
''','''				time.AfterFunc(c.destroyElementDuration, func() {
					c.mu.Lock()
					defer c.mu.Unlock()
					delete(c.m, trx)
				})
''')]),
("same-hold-sleep-inline","",[(H,'''				go func() {
					time.Sleep(c.destroyElementDuration)
					c.mu.Lock()
					delete(c.m, trx)
					c.mu.Unlock()
				}()
''','''				<-time.After(c.destroyElementDuration)
				c.mu.Lock()
				delete(c.m, trx)
				c.mu.Unlock()
''')]),
("same-hold-wait-flat","",[(H,'''	if ok { // Has holder
		return h.wait()
	} else {
		c.mu.Lock()''','''	if ok { // Has holder
		return h.wait()
	}
	{
		c.mu.Lock()''')]),
("same-hold-lookup-helper","",[(H,'''func (c *HolderMap[K, V]) Release(trx K) error {
	c.mu.RLock()
	h, ok := c.m[trx]
	c.mu.RUnlock()
	if ok {
		h.verdict(nil)
		return nil
	} else {
		return errors.New("not found")
	}
}''','''var errNotFound = errors.New("not found")

func (c *HolderMap[K, V]) find(trx K) *holderMapHolder[V] {
	c.mu.RLock()
	defer c.mu.RUnlock()
	return c.m[trx]
}

func (c *HolderMap[K, V]) Release(trx K) error {
	return c.Error(trx, nil)
}'''),(H,'''	c.mu.RLock()
	h, ok := c.m[trx]
	c.mu.RUnlock()
	if ok {
		h.verdict(err)
		return nil
	} else {
		return errors.New("not found")
	}''','''	h := c.find(trx)
	if h == nil {
		return errNotFound
	}
	h.verdict(err)
	return nil''')]),
("same-hold-released-chan-nil","",[(H,'''				h.mu.Unlock()
				go func() {
					time.Sleep''','''				h.releaseChanList = nil
				h.mu.Unlock()
				go func() {
					time.Sleep''')]),
]

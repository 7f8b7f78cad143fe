"""Further rewrites that keep the behaviour: several sites of a file at once, other splits into helpers."""
from round2 import F
from round8 import CC,SC,SK,G,HS,HO,RQ,RS,SU,TK,SM,WM,LM,RU,FP,MP,ST,CM,FS,NB,NR,Z,AE,HA,MM,DI,imp,addimp
SENDH='''
func offer[T any](ctx context.Context, ch chan<- T, v T) bool {
	select {
	case ch <- v:
		return true
	case <-ctx.Done():
		return false
	}
}
'''
CSEL="""				select {
				case <-c.ctx.Done():
					return
				case c.outgoingChan <- chunk:
				}
"""
M=[
("x-offer-everywhere","",[(CC,CSEL,"				if !offer(c.ctx, c.outgoingChan, chunk) {\n					return\n				}\n"),
	F(CC,"func (c *ChunkChan[T]) Add(",'''
func (c *ChunkChan[T]) Add(item T) {
	offer(c.ctx, c.incomingChan, item)
}
'''+SENDH),
	F(SC,"func (s *ShardChan[T]) Add(",'''
func (s *ShardChan[T]) Add(msg T) error {
	if !offer(s.ctx, s.incomingChan, msg) {
		return s.ctx.Err()
	}
	return nil
}
'''),(SC,"""				select {
				case <-res.ctx.Done():
					return
				case res.outgoingChans[key] <- msg:
				}
""","""				if !offer(res.ctx, res.outgoingChans[key], msg) {
					return
				}
""")]),
("x-chunk-buffer-type","",[F(CC,"func (c *ChunkChan[T]) run()",'''
type chunkBuffer[T any] struct {
	items []T
	size  int
}

func (b *chunkBuffer[T]) put(item T) bool {
	b.items = append(b.items, item)
	return len(b.items) >= b.size
}

func (b *chunkBuffer[T]) take() []T {
	res := b.items
	b.items = make([]T, 0, b.size)
	return res
}

func (c *ChunkChan[T]) send(chunk []T) bool {
	select {
	case <-c.ctx.Done():
		return false
	case c.outgoingChan <- chunk:
		return true
	}
}

func (c *ChunkChan[T]) run() {
	t := time.NewTicker(c.chunkTimeout)
	defer t.Stop()
	buf := chunkBuffer[T]{items: make([]T, 0, c.chunkSize), size: c.chunkSize}
	for {
		ready := false
		select {
		case <-c.ctx.Done():
			return
		case <-t.C:
			ready = len(buf.items) > 0
		case item := <-c.incomingChan:
			ready = buf.put(item)
		}
		if ready && !c.send(buf.take()) {
			return
		}
	}
}
''')]),
("x-chunk-step","",[F(CC,"func (c *ChunkChan[T]) run()",'''
func (c *ChunkChan[T]) next(tick <-chan time.Time, chunk []T) ([]T, bool, bool) {
	select {
	case <-c.ctx.Done():
		return chunk, false, false
	case <-tick:
		return chunk, len(chunk) > 0, true
	case item := <-c.incomingChan:
		chunk = append(chunk, item)
		return chunk, len(chunk) >= c.chunkSize, true
	}
}

func (c *ChunkChan[T]) run() {
	t := time.NewTicker(c.chunkTimeout)
	defer t.Stop()
	chunk := make([]T, 0, c.chunkSize)
	for {
		var full, live bool
		chunk, full, live = c.next(t.C, chunk)
		if !live {
			return
		}
		if !full {
			continue
		}
		select {
		case <-c.ctx.Done():
			return
		case c.outgoingChan <- chunk:
		}
		chunk = make([]T, 0, c.chunkSize)
	}
}
''')]),
("x-chunk-consume-method","",[(CC,"""		go func() {
			for {
				select {
				case <-res.ctx.Done():
					return
				case chunk := <-res.outgoingChan:
					chunkFunc(chunk)
				}
			}
		}()
""","		go res.consume(chunkFunc)\n"),(CC,"type ChunkChanBuilder[","""func (c *ChunkChan[T]) consume(fn ChunkFunc[T]) {
	done := c.ctx.Done()
	for {
		select {
		case chunk := <-c.outgoingChan:
			fn(chunk)
		case <-done:
			return
		}
	}
}

type ChunkChanBuilder["""),]),
("x-shard-slice","",[(SC,"	outgoingChans map[int]chan T\n","	outgoingChans []chan T\n"),(SC,"make(map[int]chan T, b.shardCount)","make([]chan T, b.shardCount)"),
	(SC,"	if key < 0 || key >= s.shardCount {\n		return nil\n	}\n	return s.outgoingChans[key]\n","	if 0 <= key && key < len(s.outgoingChans) {\n		return s.outgoingChans[key]\n	}\n	return nil\n"),
	(SC,"	for i := 0; i < s.shardCount; i++ {\n		sizes[i] = len(s.outgoingChans[i])\n	}\n","	for i, ch := range s.outgoingChans {\n		sizes[i] = len(ch)\n	}\n")]),
("x-shard-slice-append","",[(SC,"	outgoingChans map[int]chan T\n","	outgoingChans []chan T\n"),(SC,"make(map[int]chan T, b.shardCount)","make([]chan T, 0, b.shardCount)"),
	(SC,"		res.outgoingChans[i] = make(chan T, b.outgoingBufferSize)\n","		res.outgoingChans = append(res.outgoingChans, make(chan T, b.outgoingBufferSize))\n")]),
("x-shard-methods","",[(SC,"""	go func() {
		for {
			select {
			case <-res.ctx.Done():
				return
			case msg := <-res.incomingChan:
				key := res.shardFunc(msg) % res.shardCount
				if key < 0 {
					key += res.shardCount
				}
				select {
				case <-res.ctx.Done():
					return
				case res.outgoingChans[key] <- msg:
				}
			}
		}
	}()
""","	go res.route()\n"),(SC,"""			go func(k int) {
				for {
					select {
					case <-res.ctx.Done():
						return
					case msg := <-res.outgoingChans[k]:
						workerFunc(k, msg)
					}
				}
			}(i)
""","			go res.work(i, workerFunc)\n"),(SC,"type ShardChanBuilder[","""func (s *ShardChan[T]) indexOf(msg T) int {
	n := s.shardCount
	return (s.shardFunc(msg)%n + n) % n
}

func (s *ShardChan[T]) route() {
	for {
		select {
		case <-s.ctx.Done():
			return
		case msg := <-s.incomingChan:
			target := s.C(s.indexOf(msg))
			select {
			case target <- msg:
			case <-s.ctx.Done():
				return
			}
		}
	}
}

func (s *ShardChan[T]) work(k int, fn WorkerFunc[T]) {
	in := s.outgoingChans[k]
	for {
		select {
		case <-s.ctx.Done():
			return
		case msg := <-in:
			fn(k, msg)
		}
	}
}

type ShardChanBuilder[""")]),
("x-shardchunk-methods","",[(SK,"""		go func(k int) {
			for {
				select {
				case <-ctx.Done():
					return
				case m := <-sharder.C(k):
					chunkers[k].Add(m)
				}
			}
		}(i)
""","		go relay(ctx, sharder.C(i), chunkers[i])\n"),(SK,"type ShardChunkBuilder[","""func relay[T any](ctx context.Context, in <-chan T, out *ChunkChan[T]) {
	for {
		select {
		case item := <-in:
			out.Add(item)
		case <-ctx.Done():
			return
		}
	}
}

type ShardChunkBuilder["""),(SK,"""			go func(k int) {
				for {
					select {
					case <-ctx.Done():
						return
					case batch := <-chunkers[k].C():
						shardWorker(k, batch)
					}
				}
			}(i)
""","			go consumeShard(ctx, i, chunkers[i].C(), shardWorker)\n"),(SK,"type ShardChunkFunc[","""func consumeShard[T any](ctx context.Context, k int, in <-chan []T, fn ShardChunkFunc[T]) {
	for {
		select {
		case <-ctx.Done():
			return
		case batch := <-in:
			fn(k, batch)
		}
	}
}

type ShardChunkFunc[""")]),
("x-shardchunk-one-loop","",[(SK,"""	}
	if shardWorker != nil {
		for i := 0; i < b.shardCount; i++ {
			go func""","""		if shardWorker != nil {
			go func"""),(SK,"""						shardWorker(k, batch)
					}
				}
			}(i)
		}
	}
""","""						shardWorker(k, batch)
					}
				}
			}(i)
		}
	}
""")]),
("x-shardchunk-chunkfunc","",[(SK,"""		chunkers[i] = NewChunkChan[T]().WithContext(b.ctx).WithChunkSize(b.chunkSize).WithOutgoingBufferSize(b.outgoingBufferSize).WithChunkTimeout(b.chunkTimeout).Build()
""","""		cb := NewChunkChan[T]().WithContext(b.ctx).WithChunkSize(b.chunkSize).WithOutgoingBufferSize(b.outgoingBufferSize).WithChunkTimeout(b.chunkTimeout)
		if shardWorker != nil {
			k := i
			cb = cb.WithChunkFunc(func(batch []T) { shardWorker(k, batch) })
		}
		chunkers[i] = cb.Build()
"""),(SK,"""	if shardWorker != nil {
		for i := 0; i < b.shardCount; i++ {
			go func(k int) {
				for {
					select {
					case <-ctx.Done():
						return
					case batch := <-chunkers[k].C():
						shardWorker(k, batch)
					}
				}
			}(i)
		}
	}
""","")]),
("x-runner-work","",[(RU,"""		go func() {
			for {
				select {
				case <-r.ctx.Done():
					return
				case fn := <-r.runners:
					fn()
				case fn := <-r.runnersCtx:
					fn(r.ctx)
				}
			}
		}()
""","		go r.work()\n"),(RU,"type RunnerBuilder ","""func (r *Runner) next() (func(), bool) {
	select {
	case <-r.ctx.Done():
		return nil, false
	case fn := <-r.runners:
		return fn, true
	case fn := <-r.runnersCtx:
		return func() { fn(r.ctx) }, true
	}
}

func (r *Runner) work() {
	for task, ok := r.next(); ok; task, ok = r.next() {
		task()
	}
}

type RunnerBuilder """)]),
("x-runner-range-int","",[(RU,"	for i := 0; i < b.workerCount; i++ {\n","	for n := b.workerCount; n > 0; n-- {\n")]),
("x-request-expire","",[(RQ,"""		rm.mu.Lock()
		defer rm.mu.Unlock()
		for i, r := range rm.resultSlice {
			if time.Since(r.resultTime) < rm.deleteAfter {
				rm.resultSlice = rm.resultSlice[i:]
				return
			}
			delete(rm.response, r.key)
		}
		rm.resultSlice = nil
""","""		rm.mu.Lock()
		defer rm.mu.Unlock()
		n := 0
		for n < len(rm.resultSlice) && time.Since(rm.resultSlice[n].resultTime) >= rm.deleteAfter {
			delete(rm.response, rm.resultSlice[n].key)
			n++
		}
		rm.resultSlice = rm.resultSlice[n:]
""")]),
("x-request-pop","",[(RQ,"""		for i, r := range rm.resultSlice {
			if time.Since(r.resultTime) < rm.deleteAfter {
				rm.resultSlice = rm.resultSlice[i:]
				return
			}
			delete(rm.response, r.key)
		}
		rm.resultSlice = nil
""","""		for len(rm.resultSlice) > 0 {
			r := rm.resultSlice[0]
			if time.Since(r.resultTime) < rm.deleteAfter {
				return
			}
			delete(rm.response, r.key)
			rm.resultSlice = rm.resultSlice[1:]
		}
""")]),
("x-request-lookup-register","",[F(RQ,"func (rm *RequestMap[K, V]) GetOrCreate(",'''
func (rm *RequestMap[K, V]) cached(key K) (resultHolder[K, V], bool) {
	rm.mu.RLock()
	defer rm.mu.RUnlock()
	v, ok := rm.response[key]
	return v, ok
}

func (rm *RequestMap[K, V]) finish(r resultHolder[K, V]) {
	rm.mu.Lock()
	defer rm.mu.Unlock()
	r.resultTime = time.Now()
	rm.response[r.key] = r
	for _, c := range rm.waiters[r.key] {
		c <- r
	}
	delete(rm.waiters, r.key)
	rm.resultSlice = append(rm.resultSlice, r)
}

func (rm *RequestMap[K, V]) request(key K, call func() (V, error)) resultHolder[K, V] {
	if v, ok := rm.cached(key); ok {
		return v
	}
	rm.mu.Lock()
	if v, ok := rm.response[key]; ok {
		rm.mu.Unlock()
		return v
	}
	ch := make(chan resultHolder[K, V], 1)
	list, running := rm.waiters[key]
	rm.waiters[key] = append(list, ch)
	rm.mu.Unlock()
	if !running {
		go func() {
			vx, err := call()
			rm.finish(resultHolder[K, V]{key: key, result: vx, err: err})
		}()
	}
	return <-ch
}

func (rm *RequestMap[K, V]) GetOrCreate(key K, f func(k K) V) V {
	return rm.request(key, func() (V, error) { return f(key), nil }).result
}
'''),F(RQ,"func (rm *RequestMap[K, V]) GetOrCreateWithErr(",'''
func (rm *RequestMap[K, V]) GetOrCreateWithErr(key K, f func(k K) (V, error)) (V, error) {
	res := rm.request(key, func() (V, error) { return f(key) })
	return res.result, res.err
}
''')]),
("x-request-init-fn","",[(RQ,"""	if len(init) > 0 {
		for _, i := range init {
			r := resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: time.Now()}
			if _, ok := res.response[i.Key]; !ok {
				res.resultSlice = append(res.resultSlice, r)
			}
			res.response[i.Key] = r
		}
	}
	go res.rmWorker()
""","""	res.preload(init)
	go res.rmWorker()
"""),(RQ,"func (rm *RequestMap[K, V]) rmWorker() {","""func (rm *RequestMap[K, V]) preload(init []*RequestMapInitializer[K, V]) {
	now := time.Now()
	for _, i := range init {
		_, known := rm.response[i.Key]
		r := resultHolder[K, V]{key: i.Key, result: i.Result, err: i.Err, resultTime: now}
		rm.response[i.Key] = r
		if known {
			continue
		}
		rm.resultSlice = append(rm.resultSlice, r)
	}
}

func (rm *RequestMap[K, V]) rmWorker() {""")]),
("x-response-release","",[(RS,"""				for _, ch := range h.listeners {
					close(ch)
				}
				h.listeners = nil
				h.isClosed = true
				h.mu.Unlock()
				return
			case <-h.t.C:
				h.mu.Lock()
				for _, ch := range h.listeners {
					close(ch)
				}
				h.listeners = nil
				h.mu.Unlock()
""","""				h.isClosed = true
				h.dismiss()
				h.mu.Unlock()
				return
			case <-h.t.C:
				h.mu.Lock()
				h.dismiss()
				h.mu.Unlock()
"""),(RS,"func (h *chansHolder[K, V]) set(","""// dismiss must be called with the lock held
func (h *chansHolder[K, V]) dismiss() {
	waiting := h.listeners
	h.listeners = nil
	for i := range waiting {
		close(waiting[i])
	}
}

func (h *chansHolder[K, V]) set("""),F(RS,"func (h *chansHolder[K, V]) wait() V",'''
func (h *chansHolder[K, V]) listen() (V, chan V) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.isExist || h.isClosed {
		return h.data, nil
	}
	ch := make(chan V, 1)
	h.listeners = append(h.listeners, ch)
	return h.data, ch
}

func (h *chansHolder[K, V]) wait() V {
	data, ch := h.listen()
	if ch == nil {
		return data
	}
	return <-ch
}
''')]),
("x-response-sweep","",[(RS,"""			var remove []*chansHolder[K, V]
			r.mu.RLock()
			r.logger.Debug().Int("holders count", len(r.m)).Msg("start cleaning response map")
			for _, holder := range r.m {
				if time.Now().After(holder.createdAt.Add(r.clearTimeout)) {
					remove = append(remove, holder)
				}
			}
			r.mu.RUnlock()
			r.logger.Debug().Int("should remove", len(remove)).Msg("collect expired holders")
			r.mu.Lock()
			for _, holder := range remove {
				holder.cancelCtx()
				delete(r.m, holder.trx)
			}
			count := len(r.m)
			r.mu.Unlock()
			r.logger.Debug().Int("holders count", count).Msg("successfully cleaned expired holders")
""","""			count := r.sweep()
			r.logger.Debug().Int("holders count", count).Msg("successfully cleaned expired holders")
"""),(RS,"func (r *ResponseMap[K, V]) clear(","""func (r *ResponseMap[K, V]) sweep() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	now := time.Now()
	for key, holder := range r.m {
		if age := now.Sub(holder.createdAt); age <= r.clearTimeout {
			continue
		}
		delete(r.m, key)
		holder.cancelCtx()
	}
	return len(r.m)
}

func (r *ResponseMap[K, V]) clear(""")]),
("x-response-get-or-make","",[F(RS,"func (r *ResponseMap[K, V]) getHolder(",'''
func (r *ResponseMap[K, V]) getHolder(key K) *chansHolder[K, V] {
	r.mu.Lock()
	defer r.mu.Unlock()
	holder, ok := r.m[key]
	if !ok {
		holder = newChansHolder[K, V](r.ctx, key, r.responseTimeout)
		r.m[key] = holder
	}
	return holder
}
''')]),
("x-holder-find","",[(HO,"""	c.mu.RLock()
	h, ok := c.m[trx]
	c.mu.RUnlock()
""","	h, ok := c.find(trx)\n"),(HO,"func (c *HolderMap[K, V]) Count() ","""func (c *HolderMap[K, V]) find(trx K) (*holderMapHolder[V], bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	h, ok := c.m[trx]
	return h, ok
}

func (c *HolderMap[K, V]) Count() """)]),
("x-holder-settle","",[(HO,"""				select {
				case <-h.timeOutTimer.C:
					h.mu.Lock()
					h.released = true
					h.Err = errors.New("timeout")
				case <-c.ctx.Done():
					h.mu.Lock()
					h.released = true
					h.Err = c.ctx.Err()
				case errInChan := <-h.inChan:
					h.mu.Lock()
					h.released = true
					h.Err = errInChan
				}
				for _, ch := range h.releaseChanList {
					ch <- h.Err
				}
				h.mu.Unlock()
""","""				var res error
				select {
				case <-h.timeOutTimer.C:
					res = errors.New("timeout")
				case <-c.ctx.Done():
					res = c.ctx.Err()
				case res = <-h.inChan:
				}
				h.settle(res)
"""),(HO,"func (h *holderMapHolder[V]) verdict(","""func (h *holderMapHolder[V]) settle(err error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.Err, h.released = err, true
	for _, ch := range h.releaseChanList {
		ch <- err
	}
	h.releaseChanList = nil
}

func (h *holderMapHolder[V]) verdict(""")]),
("x-holder-method-goroutine","",[(HO,"""				go func() {
					time.Sleep(c.destroyElementDuration)
					c.mu.Lock()
					delete(c.m, trx)
					c.mu.Unlock()
				}()
""","				go c.destroy(trx)\n"),(HO,"func (c *HolderMap[K, V]) Count() ","""func (c *HolderMap[K, V]) destroy(trx K) {
	time.Sleep(c.destroyElementDuration)
	c.mu.Lock()
	defer c.mu.Unlock()
	delete(c.m, trx)
}

func (c *HolderMap[K, V]) Count() """)]),
("x-holder-afterfunc","",[(HO,"""				go func() {
					time.Sleep(c.destroyElementDuration)
					c.mu.Lock()
					delete(c.m, trx)
					c.mu.Unlock()
				}()
""","""				time.AfterFunc(c.destroyElementDuration, func() {
					c.mu.Lock()
					delete(c.m, trx)
					c.mu.Unlock()
				})
""")]),
("x-holder-same-goroutine","",[(HO,"""				go func() {
					time.Sleep(c.destroyElementDuration)
					c.mu.Lock()
					delete(c.m, trx)
					c.mu.Unlock()
				}()
			}()
""","""				time.Sleep(c.destroyElementDuration)
				c.mu.Lock()
				delete(c.m, trx)
				c.mu.Unlock()
			}()
"""),(HO,"				defer h.timeOutTimer.Stop()\n",""),(HO,"				for _, ch := range h.releaseChanList {\n","				h.timeOutTimer.Stop()\n				for _, ch := range h.releaseChanList {\n")]),
("x-wait-expire","",[(WM,"""			wm.mu.Lock()
			delete(wm.dataHolder, key)
			wm.mu.Unlock()
			return
		case <-time.After(wm.responseTtl):
			wm.mu.Lock()
			delete(wm.dataHolder, key)
			wm.mu.Unlock()
		}
""","""		case <-time.After(wm.responseTtl):
		}
		wm.mu.Lock()
		defer wm.mu.Unlock()
		delete(wm.dataHolder, key)
""")]),
("x-wait-answer","",[(WM,"""		for _, ch := range chans {
			ch <- value
			close(ch) // Закрываем канал после отправки значения
		}
		delete(wm.waiterChannels, key)
	}
""","""		delete(wm.waiterChannels, key)
		answer(chans, value)
	}
"""),(WM,"""				if chans, exists := wm.waiterChannels[key]; exists {
					var v V
					for _, ch := range chans {
						ch <- v
						close(ch)
					}
					delete(wm.waiterChannels, key)
				}
				wm.mu.Unlock()
""","""				defer wm.mu.Unlock()
				var v V
				answer(wm.waiterChannels[key], v)
				delete(wm.waiterChannels, key)
"""),(WM,"type WaitMapBuilder[","""func answer[V any](chans []chan V, value V) {
	for _, ch := range chans {
		ch <- value
		close(ch)
	}
}

type WaitMapBuilder[""")]),
("x-wait-register","",[F(WM,"func (wm *WaitMap[K, V]) Wait(",'''
func (wm *WaitMap[K, V]) Wait(key K) V {
	value, ch := wm.register(key)
	if ch != nil {
		value = <-ch
	}
	return value
}

func (wm *WaitMap[K, V]) register(key K) (V, chan V) {
	wm.mu.Lock()
	defer wm.mu.Unlock()
	if value, ok := wm.dataHolder[key]; ok {
		return value, nil
	}
	ch := make(chan V, 1)
	if len(wm.waiterChannels[key]) == 0 {
		go wm.watch(key, ch)
	}
	wm.waiterChannels[key] = append(wm.waiterChannels[key], ch)
	var none V
	return none, ch
}

func (wm *WaitMap[K, V]) watch(key K, first chan V) {
	var zero V
	timer := time.NewTimer(wm.requestTimeout)
	defer timer.Stop()
	select {
	case <-wm.ctx.Done():
		wm.mu.Lock()
		defer wm.mu.Unlock()
		for _, ch := range wm.waiterChannels[key] {
			ch <- zero
			close(ch)
		}
		delete(wm.waiterChannels, key)
	case <-timer.C:
		wm.mu.Lock()
		defer wm.mu.Unlock()
		if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == first {
			wm.set(key, zero)
		}
	}
}
''')]),
("x-struct-cleanup","",[(SU,"""				res.elementsMu.RLock()
				if len(res.ttlElements) == 0 {
					res.elementsMu.RUnlock()
					continue
				}
				first := res.ttlElements[0]
				res.elementsMu.RUnlock()
				if time.Since(first.createdAt) < res.ttl {
					continue
				}
				res.elementsMu.Lock()
				expired := len(res.ttlElements)
				for i, el := range res.ttlElements {
					if time.Since(el.createdAt) < res.ttl {
						expired = i
						break
					}
					if res.elements[el.hash] == el {
						delete(res.elements, el.hash)
					}
				}
				res.ttlElements = res.ttlElements[expired:]
				res.elementsMu.Unlock()
""","				res.cleanup(time.Now())\n"),(SU,"func (s *StructUniqSet[V]) getHashCode(","""func (e *structUniqSetElement) expired(now time.Time, ttl time.Duration) bool {
	return now.Sub(e.createdAt) >= ttl
}

func (s *StructUniqSet[V]) cleanup(now time.Time) {
	s.elementsMu.Lock()
	defer s.elementsMu.Unlock()
	n := 0
	for ; n < len(s.ttlElements); n++ {
		el := s.ttlElements[n]
		if !el.expired(now, s.ttl) {
			break
		}
		if s.elements[el.hash] == el {
			delete(s.elements, el.hash)
		}
	}
	s.ttlElements = s.ttlElements[n:]
}

func (s *StructUniqSet[V]) getHashCode(""")]),
("x-struct-filter","",[(SU,"""				expired := len(res.ttlElements)
				for i, el := range res.ttlElements {
					if time.Since(el.createdAt) < res.ttl {
						expired = i
						break
					}
					if res.elements[el.hash] == el {
						delete(res.elements, el.hash)
					}
				}
				res.ttlElements = res.ttlElements[expired:]
""","""				kept := make([]*structUniqSetElement, 0, len(res.ttlElements))
				for _, el := range res.ttlElements {
					if time.Since(el.createdAt) < res.ttl {
						kept = append(kept, el)
					} else if res.elements[el.hash] == el {
						delete(res.elements, el.hash)
					}
				}
				res.ttlElements = kept
""")]),
("x-guava-insert","",[F(G,"func (m *GuavaMap[K, V]) HasOrCreate(",'''
func (m *GuavaMap[K, V]) insert(key K, value V) {
	if m.maxCount > 0 {
		for len(m.storedSlice) >= m.maxCount {
			m.safeDelete(m.storedSlice[0])
		}
		m.storedSlice = append(m.storedSlice, key)
	}
	m.stored[key] = m.createHolder(key, value)
}

func (m *GuavaMap[K, V]) touch(h *guavaHolder[V]) {
	if h.timer == nil || m.readTimeout <= 0 {
		return
	}
	h.timer.Reset(m.readTimeout)
}

func (m *GuavaMap[K, V]) read(key K) (value V, ok bool) {
	m.mu.RLock()
	defer m.mu.RUnlock()
	h, ok := m.stored[key]
	if !ok {
		return value, false
	}
	m.touch(h)
	return h.v, true
}

func (m *GuavaMap[K, V]) HasOrCreate(key K, value V) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	h, ok := m.stored[key]
	if ok {
		m.touch(h)
		return true
	}
	m.insert(key, value)
	return false
}
'''),F(G,"func (m *GuavaMap[K, V]) Has(",'''
func (m *GuavaMap[K, V]) Has(key K) bool {
	_, ok := m.read(key)
	return ok
}
'''),F(G,"func (m *GuavaMap[K, V]) Get(",'''
func (m *GuavaMap[K, V]) Get(key K) (V, error) {
	if v, ok := m.read(key); ok {
		return v, nil
	}
	var zero V
	if m.loadFunc == nil {
		return zero, nil
	}
	if m.lockLoad != nil {
		m.lockLoad.Lock(key)
		defer m.lockLoad.Unlock(key)
		if v, ok := m.read(key); ok {
			return v, nil
		}
	}
	loaded, err := m.loadFunc(key)
	if err != nil {
		return zero, err
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if h, ok := m.stored[key]; ok {
		m.touch(h)
		return h.v, nil
	}
	m.insert(key, loaded)
	return loaded, nil
}
'''),F(G,"func (m *GuavaMap[K, V]) safeSet(",'''
func (m *GuavaMap[K, V]) safeSet(key K, val V) {
	h, ok := m.stored[key]
	if !ok {
		m.insert(key, val)
		return
	}
	h.v = val
	if h.timer == nil {
		return
	}
	d := m.readTimeout
	if m.writeTimeout > 0 {
		d = m.writeTimeout
	}
	h.timer.Reset(d)
}
''')]),
("x-guava-timer-fn","",[(G,"""		if m.writeTimeout > 0 {
			res.timer = time.NewTimer(m.writeTimeout)
		} else {
			res.timer = time.NewTimer(m.readTimeout)
		}
""","		res.timer = time.NewTimer(m.lifetime())\n"),(G,"""			if m.writeTimeout > 0 {
				v.timer.Reset(m.writeTimeout)
			} else {
				v.timer.Reset(m.readTimeout)
			}
""","			v.timer.Reset(m.lifetime())\n"),(G,"func (m *GuavaMap[K, V]) createHolder(","""func (m *GuavaMap[K, V]) lifetime() time.Duration {
	if m.writeTimeout > 0 {
		return m.writeTimeout
	}
	return m.readTimeout
}

func (m *GuavaMap[K, V]) createHolder(""")]),
("x-guava-expire-method","",[(G,"""		go func() {
			defer res.timer.Stop()
			select {
			case <-ctx.Done():
				return
			case <-res.timer.C:
				m.mu.Lock()
				if m.stored[key] == res {
					m.safeDelete(key)
				}
				m.mu.Unlock()

			}
		}()
""","		go m.expire(ctx, key, res)\n"),(G,"func (m *GuavaMap[K, V]) Has(","""func (m *GuavaMap[K, V]) expire(ctx context.Context, key K, h *guavaHolder[V]) {
	defer h.timer.Stop()
	select {
	case <-h.timer.C:
	case <-ctx.Done():
		return
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if current, ok := m.stored[key]; ok && current == h {
		m.safeDelete(key)
	}
}

func (m *GuavaMap[K, V]) Has(""")]),
("x-guava-drop","",[F(G,"func (m *GuavaMap[K, V]) safeDelete(",'''
func (m *GuavaMap[K, V]) drop(key K, h *guavaHolder[V]) {
	if h.cancelFn != nil {
		h.cancelFn()
	}
	if m.unloadFunc != nil {
		go m.unloadFunc(key, h.v)
	}
}

func (m *GuavaMap[K, V]) forget(key K) {
	for i := range m.storedSlice {
		if m.storedSlice[i] == key {
			m.storedSlice = append(m.storedSlice[:i], m.storedSlice[i+1:]...)
			return
		}
	}
}

func (m *GuavaMap[K, V]) safeDelete(key K) {
	h, ok := m.stored[key]
	if !ok {
		return
	}
	delete(m.stored, key)
	m.forget(key)
	m.drop(key, h)
}
'''),F(G,"func (m *GuavaMap[K, V]) Clear(",'''
func (m *GuavaMap[K, V]) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for key, h := range m.stored {
		m.drop(key, h)
	}
	m.stored = make(map[K]*guavaHolder[V])
	m.storedSlice = nil
}
''')]),
("x-guava-clear-delete","",[F(G,"func (m *GuavaMap[K, V]) Clear(",'''
func (m *GuavaMap[K, V]) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	for key := range m.stored {
		m.safeDelete(key)
	}
}
''')]),
("x-guava-with-lock","",[F(G,"func (m *GuavaMap[K, V]) Delete(",'''
func (m *GuavaMap[K, V]) locked(fn func()) {
	m.mu.Lock()
	defer m.mu.Unlock()
	fn()
}

func (m *GuavaMap[K, V]) Delete(key K) {
	m.locked(func() { m.safeDelete(key) })
}
'''),F(G,"func (m *GuavaMap[K, V]) Set(",'''
func (m *GuavaMap[K, V]) Set(key K, val V) {
	m.locked(func() { m.safeSet(key, val) })
}
''')]),
]
def mut(name, base, want, *subs):
    for n,w,ed in M:
        if n==base:
            out=[]
            left=list(subs)
            for f,o,nw in ed:
                for a,b in subs:
                    if a in nw:
                        nw=nw.replace(a,b); left=[x for x in left if x[0]!=a]
                out.append((f,o,nw))
            assert not left,(name,left)
            M.append((name,want,out)); return
    raise Exception(base)

# a rotated loop whose task is carried over the back edge is not followed: only the plain form is kept
M.append(("x-runner-next","",[(f,o,nw.replace("""	for task, ok := r.next(); ok; task, ok = r.next() {
		task()
	}
""","""	for {
		task, ok := r.next()
		if !ok {
			return
		}
		task()
	}
""")) for n,w,ed in M if n=="x-runner-work" for f,o,nw in ed]))
mut("y-filter-inverted","x-struct-filter","U02",("< res.ttl {\n						kept","> res.ttl {\n						kept"))
mut("y-filter-loses","x-struct-filter","U02",("					} else if","					} else if len(kept) == 0 && "),)
mut("y-struct-cleanup-skip","x-struct-cleanup","U02",("s.ttlElements[n:]","s.ttlElements[n+1:]"))
mut("y-struct-cleanup-any","x-struct-cleanup","U02",("		if s.elements[el.hash] == el {\n			delete(s.elements, el.hash)\n		}\n","		delete(s.elements, el.hash)\n"))
mut("y-guava-touch-write","x-guava-insert","G04",("h.timer.Reset(m.readTimeout)","h.timer.Reset(m.writeTimeout)"))
mut("y-guava-room-late","x-guava-insert","G01",("len(m.storedSlice) >= m.maxCount","len(m.storedSlice) > m.maxCount"))
mut("y-guava-expire-any","x-guava-expire-method","G04",("ok && current == h","ok && current != nil"))
mut("y-guava-drop-late","x-guava-drop","G02",("		m.drop(key, h)\n","		if h.timer != nil {\n			m.drop(key, h)\n		}\n"))
mut("y-wait-any-first","x-wait-register","V02",(" && chans[0] == first",""))
mut("y-wait-answer-keep","x-wait-answer","V01",("				answer(wm.waiterChannels[key], v)\n				delete(wm.waiterChannels, key)\n","				answer(wm.waiterChannels[key], v)\n"))
mut("y-response-no-cancel","x-response-sweep","P03",("		holder.cancelCtx()\n",""))
mut("y-response-sweep-young","x-response-sweep","P03",("age <= r.clearTimeout","age > r.clearTimeout"))
mut("y-response-listen-late","x-response-release","P01",("h.isExist || h.isClosed {","h.isExist {"))
mut("y-request-no-time","x-request-lookup-register","R03",("	r.resultTime = time.Now()\n",""))
mut("y-request-no-queue","x-request-lookup-register","R03",("	rm.resultSlice = append(rm.resultSlice, r)\n",""))
mut("y-request-pop-two","x-request-pop","R03",("resultSlice[1:]","resultSlice[min(2, len(rm.resultSlice)):]"))
mut("y-request-expire-one-more","x-request-expire","R03",("		rm.resultSlice = rm.resultSlice[n:]\n","		if n < len(rm.resultSlice) {\n			n++\n		}\n		rm.resultSlice = rm.resultSlice[n:]\n"))
mut("y-preload-known","x-request-init-fn","R03",("		if known {\n			continue\n		}\n","		if !known {\n			continue\n		}\n"))
mut("y-chunk-reuse","x-chunk-buffer-type","C02",("	b.items = make([]T, 0, b.size)\n","	b.items = b.items[:0]\n"))
mut("y-chunk-step-lost","x-chunk-step","C01",("		return chunk, len(chunk) > 0, true\n","		return chunk[:0], len(chunk) > 1, true\n"))
mut("y-shard-neg","x-shard-methods","C03",("(s.shardFunc(msg)%n + n) % n","(s.shardFunc(msg) + n) % n"))
mut("y-relay-shard","x-shardchunk-methods","C04",("chunkers[i])","chunkers[(i+1)%len(chunkers)])"))
mut("y-holder-settle-unlocked","x-holder-settle","D01",("	h.mu.Lock()\n	defer h.mu.Unlock()\n	h.Err, h.released = err, true\n","	h.mu.Lock()\n	h.Err, h.released = err, true\n	h.mu.Unlock()\n"))
mut("y-holder-destroy-now","x-holder-method-goroutine","D02",("	time.Sleep(c.destroyElementDuration)\n	c.mu.Lock()","	c.mu.Lock()"))
M=[m for m in M if m[0]!="x-runner-work"]

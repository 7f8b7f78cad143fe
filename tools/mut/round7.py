"""Breaking edits written from the property texts alone."""
from round2 import F
CC="chans/chunk_chan.go"; SC="chans/shard_chan.go"; SK="chans/shard_chunk_chan.go"
G="collections/guava_map.go"; HS="collections/hash_set.go"; HO="collections/holder_map.go"; RQ="collections/request_map.go"
RS="collections/response_map.go"; SU="collections/struct_uniq_set.go"; TK="collections/two_key_map.go"; SM="collections/shard_map.go"
WM="collections/wait_map.go"; LM="collections/lock_map.go"; RU="workers/runner.go"; FP="flow/processor.go"
FS="crypto_fs/crypto_fs.go"; Z="zip/gzip.go"; NR="net/read.go"; NB="net/to_bytes.go"; MM="math/minmax.go"; AE="crypto/aes.go"; CM="comparer/comparer.go"
M=[
("two-runs","C01",[(CC,"	go res.run()\n","	go res.run()\n	if b.incomingBufferSize > 100000 {\n		go res.run()\n	}\n")]),
("consume-async","C01",[(CC,"					chunkFunc(chunk)\n","					go chunkFunc(chunk)\n")]),
("add-drop-full","C01",[F(CC,"func (c *ChunkChan[T]) Add(",'''
func (c *ChunkChan[T]) Add(item T) {
	select {
	case <-c.ctx.Done():
	case c.incomingChan <- item:
	case <-time.After(time.Minute):
	}
}
''')]),
("flush-done","C01",[(CC,"""			chunk = append(chunk, item)
""","""			if len(chunk) == cap(chunk) {
				chunk = make([]T, 0, c.chunkSize)
			}
			chunk = append(chunk, item)
""")]),
("abs-shard","C03",[(SC,"""				key := res.shardFunc(msg) % res.shardCount
				if key < 0 {
					key += res.shardCount
				}
""","""				key := res.shardFunc(msg)
				if key < 0 {
					key = -key
				}
				key %= res.shardCount
""")]),
("sign-shift","C03",[(SC,"""				key := res.shardFunc(msg) % res.shardCount
				if key < 0 {
					key += res.shardCount
				}
""","""				key := (res.shardFunc(msg) + res.shardCount) % res.shardCount
""")]),
("loop-var","C03",[(SC,"			go func(k int) {","			go func(int) {\n				k := i"),]),
("loop-var-feed","C04",[(SK,"		go func(k int) {\n			for {\n				select {\n				case <-ctx.Done():\n					return\n				case m := <-sharder.C(k):\n					chunkers[k].Add(m)","		go func(k int) {\n			for {\n				select {\n				case <-ctx.Done():\n					return\n				case m := <-sharder.C(k):\n					chunkers[i].Add(m)")]),
("feed-when-room","C04",[(SK,"				case m := <-sharder.C(k):\n					chunkers[k].Add(m)","				case m := <-sharder.C(k):\n					if in, _ := chunkers[k].Sizes(); in < b.incomingBufferSize {\n						chunkers[k].Add(m)\n					}")]),
("fast-add","C05",[F(CC,"func (c *ChunkChan[T]) Add(",'''
func (c *ChunkChan[T]) Add(item T) {
	if len(c.incomingChan) < cap(c.incomingChan) {
		c.incomingChan <- item
		return
	}
	select {
	case <-c.ctx.Done():
	case c.incomingChan <- item:
	}
}
''')]),
("idle-stop","C05",[(RU,"				case <-r.ctx.Done():\n					return\n","				case <-r.ctx.Done():\n					return\n				case <-time.After(time.Hour):\n					return\n"),(RU,'import "context"','import (\n	"context"\n	"time"\n)')]),
("shard-closes","C05",[(SC,"			case <-res.ctx.Done():\n				return\n			case msg := <-res.incomingChan:","			case <-res.ctx.Done():\n				if len(res.incomingChan) > 0 {\n					continue\n				}\n				return\n			case msg := <-res.incomingChan:")]),
("sizes-swapped","C06",[(CC,"	return len(c.incomingChan), len(c.outgoingChan)","	return cap(c.incomingChan) - len(c.incomingChan), len(c.outgoingChan)")]),
("worker-recover","W01",[(RU,"		go func() {\n			for {","		go func() {\n			defer func() { recover() }()\n			for {")]),
("ctx-background","W01",[(RU,"					fn(r.ctx)","					fn(context.WithoutCancel(r.ctx))")]),
("run-inline","W01",[F(RU,"func (r *Runner) Run(",'''
func (r *Runner) Run(fn RunnerFn) {
	select {
	case <-r.ctx.Done():
	case r.runners <- fn:
	default:
		fn()
	}
}
''')]),
("unlock-drop","L01",[F(LM,"func (mm *MapMutex[K]) Unlock(",'''
func (mm *MapMutex[K]) Unlock(k K) {
	mm.mu.Lock()
	defer mm.mu.Unlock()
	m, ok := mm.m[k]
	if ok {
		delete(mm.m, k)
		m.Unlock()
	}
}
''')]),
("lock-try","L01",[(LM,"		m, ok = mm.m[k]\n		if !ok {\n			m = &sync.Mutex{}\n			mm.m[k] = m\n		}\n		mm.mu.Unlock()\n	}\n	m.Lock()","		m, ok = mm.m[k]\n		if !ok || m.TryLock() {\n			m = &sync.Mutex{}\n			mm.m[k] = m\n		}\n		mm.mu.Unlock()\n	}\n	m.Lock()")]),
("sm-func-unlocked","M01",[(SM,"	v := fn()\n	m.shards[shard][key] = v\n","	m.shardsLock[shard].Unlock()\n	v := fn()\n	m.shardsLock[shard].Lock()\n	m.shards[shard][key] = v\n")]),
("sm-has-recompute","M02",[(SM,"	_, ok := m.shards[shard][key]\n	return ok\n","	_, ok := m.shards[m.shardsFunc(key)%len(m.shards)][key]\n	return ok\n")]),
("sm-size-sample","M02",[(SM,"	for i := 0; i < m.shardsCount; i++ {\n		m.shardsLock[i].RLock()\n		count","	for i := 0; i < m.shardsCount && i < 64; i++ {\n		m.shardsLock[i].RLock()\n		count")]),
("tk-late","T01",[(TK,"	if oldK1, ok := m.k2Tok1[k2]; ok && oldK1 != k1 {\n		delete(m.data, oldK1)\n		delete(m.k1Tok2, oldK1)\n	}\n	m.data[k1] = v\n	m.k1Tok2[k1] = k2\n	m.k2Tok1[k2] = k1\n","	m.data[k1] = v\n	m.k1Tok2[k1] = k2\n	m.k2Tok1[k2] = k1\n	if oldK1, ok := m.k2Tok1[k2]; ok && oldK1 != k1 {\n		delete(m.data, oldK1)\n		delete(m.k1Tok2, oldK1)\n	}\n")]),
("hs-lru","H01",[(HS,"	if _, ok := s.m[key]; ok {\n		return\n	}\n","	if _, ok := s.m[key]; ok {\n		for i, k := range s.ml {\n			if k == key {\n				s.ml = append(append(s.ml[:i], s.ml[i+1:]...), key)\n				break\n			}\n		}\n		return\n	}\n")]),
("hs-evict-two","H01",[(HS,"	s.ml = append(s.ml, key)\n	if s.maxCount > 0 && len(s.m) > s.maxCount {\n		delete(s.m, s.ml[0])\n		s.ml = s.ml[1:]\n	}\n}","	s.ml = append(s.ml, key)\n	if s.maxCount > 0 && len(s.ml) >= s.maxCount {\n		delete(s.m, s.ml[0])\n		s.ml = s.ml[1:]\n	}\n}")]),
("hs-keys-alias","H02",[F(HS,"func (s *HashSet[K]) Keys(",'''
func (s *HashSet[K]) Keys() []K {
	s.mu.RLock()
	defer s.mu.RUnlock()
	return s.ml
}
''')]),
("g-get-lru","G01",[(G,"	val, ok := m.stored[key]\n	if ok {\n		if val.timer","	val, ok := m.stored[key]\n	if ok && m.maxCount > 1 && m.storedSlice[0] == key {\n		m.storedSlice = append(m.storedSlice[1:], key)\n	}\n	if ok {\n		if val.timer")]),
("g-set-unloads","G02",[(G,"		v.v = val\n		return\n","		if m.unloadFunc != nil {\n			go m.unloadFunc(key, v.v)\n		}\n		v.v = val\n		return\n")]),
("g-clear-capture","G02",[(G,"		for k, v := range m.stored {\n			go m.unloadFunc(k, v.v)\n		}","		for k, v := range m.stored {\n			go func() {\n				m.unloadFunc(k, v.v)\n			}()\n		}")]),
("g-delete-late-value","G02",[(G,"		go m.unloadFunc(key, v.v)\n	}\n	if v.cancelFn","		go func() {\n			m.unloadFunc(key, m.stored[key].v)\n		}()\n	}\n	if v.cancelFn")]),
("g-expire-rlock","G04",[(G,"				m.mu.Lock()\n				if m.stored[key] == res {\n					m.safeDelete(key)\n				}\n				m.mu.Unlock()","				m.mu.RLock()\n				same := m.stored[key] == res\n				m.mu.RUnlock()\n				if same {\n					m.Delete(key)\n				}")]),
("g-has-write-timeout","G04",[(G,"		if v.timer != nil && m.readTimeout > 0 {\n			v.timer.Reset(m.readTimeout)\n		}\n	}\n	return ok","		if v.timer != nil && m.readTimeout >= 0 {\n			v.timer.Reset(m.readTimeout)\n		}\n	}\n	return ok")]),
("g-refs-off","G05",[(G,"	if lock.refs == 0 {","	if lock.refs <= 1 {")]),
("g-refs-late","G05",[(G,"	lock := m.getKeyLock(key)\n	defer m.releaseKeyLock(key, lock)\n	lock.Lock()\n	defer lock.Unlock()","	lock := m.getKeyLock(key)\n	lock.Lock()\n	defer lock.Unlock()\n	m.releaseKeyLock(key, lock)")]),
("g-load-negative","G03",[(G,"	if err != nil {\n		var v V\n		return v, err\n	}\n	m.mu.Lock()","	if err != nil && m.lockLoad == nil {\n		var v V\n		return v, err\n	}\n	m.mu.Lock()")]),
("g-clear-keeps-timers","G07",[(G,"	for _, v := range m.stored {\n		if v.cancelFn != nil {","	for _, v := range m.stored {\n		if v.cancelFn != nil && m.writeTimeout > 0 {")]),
("rq-time-before","R03",[(RQ,"			vx := f(key)\n			rm.mu.Lock()\n			r := resultHolder[K, V]{key: key, result: vx, resultTime: time.Now()}","			started := time.Now()\n			vx := f(key)\n			rm.mu.Lock()\n			r := resultHolder[K, V]{key: key, result: vx, resultTime: started}")]),
("rq-no-cache-err","R01",[(RQ,"			r := resultHolder[K, V]{key: key, result: vx, err: err, resultTime: time.Now()}\n			rm.response[key] = r","			r := resultHolder[K, V]{key: key, result: vx, err: err, resultTime: time.Now()}\n			if err == nil {\n				rm.response[key] = r\n			}")]),
("rq-err-shared","R02",[(RQ,"		return v.result, v.err\n	}\n	ch :=","		return v.result, nil\n	}\n	ch :=")]),
("rq-count-two","I01",[(RQ,"	a := len(rm.waiters)\n	b := len(rm.response)","	a := len(rm.waiters)\n	rm.mu.RUnlock()\n	rm.mu.RLock()\n	b := len(rm.response)")]),
("rq-preload-dup","R03",[(RQ,"			if _, ok := res.response[i.Key]; !ok {\n				res.resultSlice = append(res.resultSlice, r)\n			}\n			res.response[i.Key] = r","			if old, ok := res.response[i.Key]; !ok || old.resultTime.Before(r.resultTime) {\n				res.resultSlice = append(res.resultSlice, r)\n			}\n			res.response[i.Key] = r")]),
("rs-created-refresh","P03",[(RS,"	holder, ok := r.m[key]\n	r.mu.RUnlock()\n	if ok {\n		return holder","	holder, ok := r.m[key]\n	r.mu.RUnlock()\n	if ok {\n		holder.createdAt = time.Now()\n		return holder")]),
("rs-timeout-once","P01",[(RS,"			case <-h.t.C:\n				h.mu.Lock()\n				for _, ch := range h.listeners {\n					close(ch)\n				}\n				h.listeners = nil\n				h.mu.Unlock()\n","			case <-h.t.C:\n				h.mu.RLock()\n				list := h.listeners\n				h.mu.RUnlock()\n				for _, ch := range list {\n					close(ch)\n				}\n				h.mu.Lock()\n				h.listeners = nil\n				h.mu.Unlock()\n")]),
("rs-set-overwrite","P02",[(RS,"	if h.isExist || h.isClosed {\n		return\n	}\n	h.data = data","	if h.isClosed {\n		return\n	}\n	h.data = data")]),
("ho-ttl-from-create","D02",[(HO,"					time.Sleep(c.destroyElementDuration)","					time.Sleep(c.destroyElementDuration - c.timeoutDuration)")]),
("ho-get-error-lost","D02",[(HO,"		return h.Object, h.Err\n","		if h.released {\n			return h.Object, h.Err\n		}\n		return h.Object, nil\n")]),
("ho-late-waiter","D01",[(HO,"				for _, ch := range h.releaseChanList {\n					ch <- h.Err\n				}\n				h.mu.Unlock()","				list := h.releaseChanList\n				h.mu.Unlock()\n				for _, ch := range list {\n					ch <- h.Err\n				}"),(HO,"					h.released = true\n					h.Err = errInChan","					h.Err = errInChan")]),
("wm-ttl-each","V02",[(WM,"	if _, ok := wm.dataHolder[key]; ok {\n		return\n	}\n\n	wm.dataHolder[key] = value\n","	if _, ok := wm.dataHolder[key]; !ok {\n		wm.dataHolder[key] = value\n	}\n")]),
("wm-timeout-any","V02",[(WM,"len(chans) > 0 && chans[0] == ch {","len(chans) > 0 {")]),
("wm-timeout-first","V01",[(WM,"len(chans) > 0 && chans[0] == ch {","len(chans) == 1 && chans[0] == ch {")]),
("su-add-check-outside","U01",[(SU,"	s.elementsMu.Lock()\n	_, ok = s.elements[hash]\n	if !ok {\n		s.elements[hash] = &","	s.elementsMu.Lock()\n	if !ok {\n		s.elements[hash] = &")]),
("su-empty-hash","U01",[(SU,"	err := enc.Encode(v)\n	if err != nil {","	err := enc.Encode(v)\n	if err != nil && buffer.Len() == 0 {")]),
("su-sweep-len","Q03",[(SU,"				expired := len(res.ttlElements)\n","				expired := len(res.ttlElements) - 1\n")]),
("b-shared-slice","B01",[(HS,"	return &HashSet[K]{\n		m:        make(map[K]bool),\n		maxCount: b.maxCount,","	return &HashSet[K]{\n		m:        make(map[K]bool, b.maxCount),\n		maxCount: max(b.maxCount, 1),")]),
("f-empty-secret","F01",[(FS,"	if b.aesSecret != nil {","	if len(b.aesSecret) >= 16 {")]),
("f-load-empty-secret","F03",[(FS,"	if aesSecret != nil {","	if len(aesSecret) > 0 {")]),
("f-write-short","F01",[(FS,"	_, err = target.Write(data)\n	if err != nil {\n		target.Close()\n		return err\n	}\n	return target.Close()","	defer target.Close()\n	_, err = target.Write(data)\n	return err")]),
("f-shared-reader","F02",[(FS,"	return &openFile{file: f, reader: bytes.NewReader(f.Data)}, nil","	if f.IsDirFlag {\n		return nil, fs.ErrNotExist\n	}\n	return &openFile{file: f, reader: bytes.NewReader(f.Data)}, nil")]),
("f-skip-dotfiles","F04",[(FS,"		content, err := os.ReadFile(root)","		if !info.Mode().IsRegular() {\n			return nil\n		}\n		content, err := os.ReadFile(root)")]),
("z-single-stream","Z01",[F(Z,"func GUnzipData(",None)] if False else [(Z,"gzip.NewReader(b)","gzip.NewReader(b)")] ),
("n-deadline-success","N01",[(NR,"	defer conn.SetReadDeadline(time.Time{})\n	buff := make([]byte, n)\n	nRead, err := io.ReadFull(conn, buff)\n	if err != nil {\n		return nil, err\n	}\n	if","	buff := make([]byte, n)\n	nRead, err := io.ReadFull(conn, buff)\n	if err != nil {\n		return nil, err\n	}\n	conn.SetReadDeadline(time.Time{})\n	if")]),
("n-atleast","N01",[(NR,"	buff := make([]byte, n)\n	nRead, err := io.ReadFull(conn, buff)\n	if err != nil {\n		return nil, err\n	}\n	if nRead != n {\n		return buff, fmt.Errorf(\"failed to read packet in full\")\n	}\n	return buff, nil\n}\nfunc ReadNBytesWithTimeout" if False else "	buff := make([]byte, n)\n	nRead, err := io.ReadFull(conn, buff)\n	if err != nil {\n		return nil, err\n	}","	buff := make([]byte, n)\n	nRead, err := io.ReadAtLeast(conn, buff, n)\n	if err != nil && nRead == 0 {\n		return nil, err\n	}")]),
("b-uint16","N02",[(NB,"	ld := uint16(len(data))\n	return append(GetBytesFromUInt16(ld), data...)","	ld := uint16(len(data) + 2)\n	return append(GetBytesFromUInt16(ld), data...)")]),
("b-int-sign","N02",[(NB,"		res |= int(b) << uint(i*8)","		res |= int(int8(b)) << uint(i*8)")]),
("b-chunk-drop","N03",[(NB,"	for i := 0; i < len(data); i += size {\n		end","	for i := 0; i < len(data) || i == 0; i += size {\n		end")]),
("k-seen","K01",[(CM,"return","return")]),
("e-shared-chain","E01",[(FP,"	rb.chain = append(rb.chain, do)\n	return rb","	if do != nil && len(rb.chain) == 0 {\n		rb.chain = append([]func(event E, state S) error{do}, rb.chain...)\n		return rb\n	}\n	rb.chain = append(rb.chain, do)\n	return rb")]),
("e-on-event-early","E01",[(FP,"		for _, fn := range do {\n			rb.OnEvent(cond).Do(fn)\n		}","		for _, fn := range do {\n			rb.Do(fn).OnEvent(cond)\n		}")]),
("e-continue-route","E01",[(FP,"				if err := fn(event, state); err != nil {\n					return err\n				}","				if err := fn(event, state); err != nil {\n					if len(fb.routes) > 1 && route.chain == nil {\n						break\n					}\n					return err\n				}")]),
]
M=[m for m in M if m[0] not in ("z-single-stream","k-seen")]

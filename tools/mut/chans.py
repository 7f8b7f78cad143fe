F = "chans/chunk_chan.go"
S = "chans/shard_chan.go"
H = "chans/shard_chunk_chan.go"
R = "workers/runner.go"
FULL = '''			chunk = append(chunk, item)
			if len(chunk) >= c.chunkSize {
				select {
				case <-c.ctx.Done():
					return
				case c.outgoingChan <- chunk:
				}
				chunk = make([]T, 0, c.chunkSize)
			}
'''
TICK = '''			if len(chunk) > 0 {
				select {
				case <-c.ctx.Done():
					return
				case c.outgoingChan <- chunk:
				}
				chunk = make([]T, 0, c.chunkSize)
			}
		case item'''
RUN = '''	t := time.NewTicker(c.chunkTimeout)
	defer t.Stop()
	chunk := make([]T, 0, c.chunkSize)
	for {
		select {
		case <-c.ctx.Done():
			return
		case <-t.C:
'''+TICK+''' := <-c.incomingChan:
'''+FULL+'''		}
	}
'''
M = [
 # --- C01 ---
 ("c1-drop-chunk-when-out-full", "C01", [(F, TICK, '''			if len(chunk) > 0 {
				select {
				case <-c.ctx.Done():
					return
				case c.outgoingChan <- chunk:
				default:
				}
				chunk = make([]T, 0, c.chunkSize)
			}
		case item''')]),
 ("c1-forget-reset-after-tick", "C01", [(F, TICK, '''			if len(chunk) > 0 {
				select {
				case <-c.ctx.Done():
					return
				case c.outgoingChan <- chunk:
				}
				if len(chunk) == c.chunkSize {
					chunk = make([]T, 0, c.chunkSize)
				}
			}
		case item''')]),
 ("c1-lose-item-when-full", "C01", [(F, FULL, '''			if len(chunk) >= c.chunkSize-1 {
				select {
				case <-c.ctx.Done():
					return
				case c.outgoingChan <- chunk:
				}
				chunk = make([]T, 0, c.chunkSize)
			} else {
				chunk = append(chunk, item)
			}
''')]),
 ("c1-send-async", "C01", [(F, FULL, '''			chunk = append(chunk, item)
			if len(chunk) >= c.chunkSize {
				full := chunk
				go func() {
					select {
					case <-c.ctx.Done():
					case c.outgoingChan <- full:
					}
				}()
				chunk = make([]T, 0, c.chunkSize)
			}
''')]),
 ("c1-callback-async", "C01", [(F, "					chunkFunc(chunk)", "					go chunkFunc(chunk)")]),
 ("c1-two-consumers", "C01", [(F, '''		go func() {
			for {
				select {
				case <-res.ctx.Done():
					return
				case chunk := <-res.outgoingChan:
					chunkFunc(chunk)
				}
			}
		}()
''', '''		for i := 0; i < 2; i++ {
			go func() {
				for {
					select {
					case <-res.ctx.Done():
						return
					case chunk := <-res.outgoingChan:
						chunkFunc(chunk)
					}
				}
			}()
		}
''')]),
 ("c1-add-drops-when-full", "C01", [(F, '''	case c.incomingChan <- item:
	}''', '''	case c.incomingChan <- item:
	default:
	}''')]),
 ("c1-prepend", "C01", [(F, "			chunk = append(chunk, item)", "			chunk = append([]T{item}, chunk...)")]),
 ("c1-mover-quits-when-idle", "C01", [(F, '''		case <-t.C:
			if len(chunk) > 0 {''', '''		case <-t.C:
			if len(chunk) == 0 && len(c.incomingChan) > 0 {
				return
			}
			if len(chunk) > 0 {''')]),
 ("c1-two-movers", "C01", [(F, "	go res.run()\n", "	go res.run()\n	if b.incomingBufferSize > 10000 {\n		go res.run()\n	}\n")]),
 # --- C02 ---
 ("c2-reuse-buffer", "C02", [(F, TICK, TICK.replace("chunk = make([]T, 0, c.chunkSize)", "chunk = chunk[:0]"))]),
 ("c2-gt", "C02", [(F, "if len(chunk) >= c.chunkSize {", "if len(chunk) > c.chunkSize {")]),
 ("c2-empty-flush", "C02", [(F, "			if len(chunk) > 0 {", "			if len(chunk) >= 0 {")]),
 ("c2-no-flush-single", "C02", [(F, "			if len(chunk) > 0 {", "			if len(chunk) > 1 {")]),
 ("c2-timer-once", "C02", [(F, "	t := time.NewTicker(c.chunkTimeout)", "	t := time.NewTimer(c.chunkTimeout)")]),
 ("c2-wrong-timeout", "C02", [(F, "	t := time.NewTicker(c.chunkTimeout)", "	t := time.NewTicker(2 * c.chunkTimeout)")]),
 ("c2-early-partial", "C02", [(F, "if len(chunk) >= c.chunkSize {", "if len(chunk) >= c.chunkSize || len(c.incomingChan) == 0 && len(chunk) > 10 {")]),
 ("c2-double-buffer", "C02", [(F, RUN, RUN.replace("	chunk := make([]T, 0, c.chunkSize)\n", "	a, b := make([]T, 0, c.chunkSize), make([]T, 0, c.chunkSize)\n	chunk := a\n").replace("				chunk = make([]T, 0, c.chunkSize)\n", "				a, b = b, a\n				chunk = a[:0]\n"))]),
 # --- C03 ---
 ("c3-abs-min", "C03", [(S, '''				key := res.shardFunc(msg) % res.shardCount
				if key < 0 {
					key += res.shardCount
				}
''', '''				key := res.shardFunc(msg)
				if key < 0 {
					key = -key
				}
				key %= res.shardCount
''')]),
 ("c3-no-negative", "C03", [(S, '''				if key < 0 {
					key += res.shardCount
				}
''', "")]),
 ("c3-default-drop", "C03", [(S, '''				case res.outgoingChans[key] <- msg:
				}''', '''				case res.outgoingChans[key] <- msg:
				default:
					if len(res.outgoingChans) > 64 {
						continue
					}
					res.outgoingChans[key] <- msg
				}''')]),
 ("c3-least-loaded", "C03", [(S, '''				if key < 0 {
					key += res.shardCount
				}
''', '''				if key < 0 {
					key += res.shardCount
				}
				if n := (key + 1) % res.shardCount; len(res.outgoingChans[key]) == cap(res.outgoingChans[key]) && n != key {
					key = n
				}
''')]),
 ("c3-shared-channel", "C03", [(S, '''	for i := 0; i < b.shardCount; i++ {
		res.outgoingChans[i] = make(chan T, b.outgoingBufferSize)
	}
''', '''	last := make(chan T, b.outgoingBufferSize)
	for i := 0; i < b.shardCount; i++ {
		if i != 64 {
			last = make(chan T, b.outgoingBufferSize)
		}
		res.outgoingChans[i] = last
	}
''')]),
 ("c3-worker-wrong-index", "C03", [(S, "						workerFunc(k, msg)", "						workerFunc(res.shardFunc(msg), msg)")]),
 ("c3-worker-missing-last", "C03", [(S, '''	if workerFunc != nil {
		for i := 0; i < b.shardCount; i++ {''', '''	if workerFunc != nil {
		for i := 0; i < b.shardCount && i < 64; i++ {''')]),
 ("c3-c-range", "C03", [(S, "	if key < 0 || key >= s.shardCount {\n		return nil\n	}\n	return s.out", "	if key <= 0 || key >= s.shardCount {\n		return nil\n	}\n	return s.out")]),
 # --- refactorings ---
 ("same-c-flush-method", "", [(F, "func (c *ChunkChan[T]) run() {\n" + RUN + "}\n", '''func (c *ChunkChan[T]) flush(chunk []T) bool {
	select {
	case <-c.ctx.Done():
		return false
	case c.outgoingChan <- chunk:
		return true
	}
}

func (c *ChunkChan[T]) run() {
	t := time.NewTicker(c.chunkTimeout)
	defer t.Stop()
	chunk := make([]T, 0, c.chunkSize)
	for {
		select {
		case <-c.ctx.Done():
			return
		case <-t.C:
			if len(chunk) == 0 {
				continue
			}
		case item := <-c.incomingChan:
			chunk = append(chunk, item)
			if len(chunk) < c.chunkSize {
				continue
			}
		}
		if !c.flush(chunk) {
			return
		}
		chunk = make([]T, 0, c.chunkSize)
	}
}
''')]),
 ("same-c-flush-closure", "", [(F, RUN, '''	t := time.NewTicker(c.chunkTimeout)
	defer t.Stop()
	var chunk []T
	flush := func() bool {
		select {
		case <-c.ctx.Done():
			return false
		case c.outgoingChan <- chunk:
			chunk = nil
			return true
		}
	}
	for {
		select {
		case <-c.ctx.Done():
			return
		case <-t.C:
			if len(chunk) > 0 && !flush() {
				return
			}
		case item := <-c.incomingChan:
			chunk = append(chunk, item)
			if len(chunk) >= c.chunkSize && !flush() {
				return
			}
		}
	}
''')]),
 ("same-c-copy-out", "", [(F, RUN, '''	t := time.NewTicker(c.chunkTimeout)
	defer t.Stop()
	chunk := make([]T, 0, c.chunkSize)
	for {
		full := false
		select {
		case <-c.ctx.Done():
			return
		case <-t.C:
			full = len(chunk) > 0
		case item := <-c.incomingChan:
			chunk = append(chunk, item)
			full = len(chunk) >= c.chunkSize
		}
		if full {
			out := make([]T, len(chunk))
			copy(out, chunk)
			select {
			case <-c.ctx.Done():
				return
			case c.outgoingChan <- out:
			}
			chunk = chunk[:0]
		}
	}
''')]),
 ("same-c-timer-reset", "", [(F, RUN, '''	t := time.NewTimer(c.chunkTimeout)
	defer t.Stop()
	chunk := make([]T, 0, c.chunkSize)
	for {
		select {
		case <-c.ctx.Done():
			return
		case <-t.C:
			t.Reset(c.chunkTimeout)
'''+TICK+''' := <-c.incomingChan:
'''+FULL+'''		}
	}
''')]),
 ("same-c-lazy-timer", "", [(F, RUN, '''	var fire <-chan time.Time
	chunk := make([]T, 0, c.chunkSize)
	for {
		select {
		case <-c.ctx.Done():
			return
		case <-fire:
			fire = nil
'''+TICK+''' := <-c.incomingChan:
			if len(chunk) == 0 {
				fire = time.After(c.chunkTimeout)
			}
			chunk = append(chunk, item)
			if len(chunk) >= c.chunkSize {
				select {
				case <-c.ctx.Done():
					return
				case c.outgoingChan <- chunk:
				}
				chunk = make([]T, 0, c.chunkSize)
				fire = nil
			}
		}
	}
''')]),
 ("same-c-labels", "", [(F, RUN, '''	t := time.NewTicker(c.chunkTimeout)
	defer t.Stop()
	done := c.ctx.Done()
outer:
	for {
		chunk := make([]T, 0, c.chunkSize)
		for len(chunk) < c.chunkSize {
			select {
			case <-done:
				return
			case <-t.C:
				if len(chunk) == 0 {
					continue
				}
				select {
				case <-done:
					return
				case c.outgoingChan <- chunk:
				}
				continue outer
			case item := <-c.incomingChan:
				chunk = append(chunk, item)
			}
		}
		select {
		case <-done:
			return
		case c.outgoingChan <- chunk:
		}
	}
''')]),
 ("same-c-eq-size", "", [(F, "if len(chunk) >= c.chunkSize {", "if len(chunk) == c.chunkSize {")]),
 ("same-c-consumer-method", "", [(F, '''		go func() {
			for {
				select {
				case <-res.ctx.Done():
					return
				case chunk := <-res.outgoingChan:
					chunkFunc(chunk)
				}
			}
		}()
	}
	return res
}
''', '''		go consume(b.ctx, res.C(), b.chunkFunc)
	}
	return res
}

func consume[T any](ctx context.Context, from chan []T, fn ChunkFunc[T]) {
	for {
		select {
		case chunk := <-from:
			fn(chunk)
		case <-ctx.Done():
			return
		}
	}
}
''')]),
 ("same-c-mod-twice", "", [(S, '''				key := res.shardFunc(msg) % res.shardCount
				if key < 0 {
					key += res.shardCount
				}
''', '''				key := (res.shardFunc(msg)%res.shardCount + res.shardCount) % res.shardCount
''')]),
 ("same-c-abs-after-mod", "", [(S, '''				if key < 0 {
					key += res.shardCount
				}
''', '''				if key < 0 {
					key = -key
				}
''')]),
 ("same-c-uint", "", [(S, '''				key := res.shardFunc(msg) % res.shardCount
				if key < 0 {
					key += res.shardCount
				}
''', '''				key := int(uint(res.shardFunc(msg)) % uint(res.shardCount))
''')]),
 ("same-c-shard-helpers", "", [(S, '''				key := res.shardFunc(msg) % res.shardCount
				if key < 0 {
					key += res.shardCount
				}
				select {
				case <-res.ctx.Done():
					return
				case res.outgoingChans[key] <- msg:
				}
''', '''				if !res.route(msg) {
					return
				}
'''), (S, '''func (s *ShardChan[T]) ShardCount()''', '''func (s *ShardChan[T]) index(msg T) int {
	k := s.shardFunc(msg) % s.shardCount
	if k >= 0 {
		return k
	}
	return k + s.shardCount
}

func (s *ShardChan[T]) route(msg T) bool {
	out := s.outgoingChans[s.index(msg)]
	select {
	case out <- msg:
		return true
	case <-s.ctx.Done():
		return false
	}
}

func (s *ShardChan[T]) ShardCount()''')]),
 ("same-c-shard-slice", "", [(S, "	outgoingChans map[int]chan T", "	outgoingChans []chan T"), (S, "		outgoingChans: make(map[int]chan T, b.shardCount),", "		outgoingChans: make([]chan T, b.shardCount),")]),
 ("same-c-shard-append", "", [(S, "	outgoingChans map[int]chan T", "	outgoingChans []chan T"), (S, "		outgoingChans: make(map[int]chan T, b.shardCount),", "		outgoingChans: make([]chan T, 0, b.shardCount),"), (S, "		res.outgoingChans[i] = make(chan T, b.outgoingBufferSize)", "		res.outgoingChans = append(res.outgoingChans, make(chan T, b.outgoingBufferSize))")]),
 ("same-c-shard-range", "", [(S, "	outgoingChans map[int]chan T", "	outgoingChans []chan T"), (S, "		outgoingChans: make(map[int]chan T, b.shardCount),", "		outgoingChans: make([]chan T, b.shardCount),"), (S, '''	for i := 0; i < b.shardCount; i++ {
		res.outgoingChans[i] =''', '''	for i := range res.outgoingChans {
		res.outgoingChans[i] =''')]),
 ("same-c-worker-method", "", [(S, '''			go func(k int) {
				for {
					select {
					case <-res.ctx.Done():
						return
					case msg := <-res.outgoingChans[k]:
						workerFunc(k, msg)
					}
				}
			}(i)
''', '''			go res.work(i, res.outgoingChans[i], b.workerFunc)
'''), (S, '''func (s *ShardChan[T]) ShardCount()''', '''func (s *ShardChan[T]) work(k int, ch <-chan T, fn WorkerFunc[T]) {
	for {
		select {
		case <-s.ctx.Done():
			return
		case msg := <-ch:
			fn(k, msg)
		}
	}
}

func (s *ShardChan[T]) ShardCount()''')]),
 ("same-c-worker-in-make-loop", "", [(S, '''		res.outgoingChans[i] = make(chan T, b.outgoingBufferSize)
	}
''', '''		ch := make(chan T, b.outgoingBufferSize)
		res.outgoingChans[i] = ch
		if workerFunc != nil {
			k := i
			go func() {
				for {
					select {
					case <-res.ctx.Done():
						return
					case msg := <-ch:
						workerFunc(k, msg)
					}
				}
			}()
		}
	}
'''), (S, '''	if workerFunc != nil {
		for i := 0; i < b.shardCount; i++ {
			go func(k int) {
				for {
					select {
					case <-res.ctx.Done():
						return
					case msg := <-res.outgoingChans[k]:
						workerFunc(k, msg)
					}
				}
			}(i)
		}
	}
''', "")]),
]

"""Behaviour-preserving rewrites of single functions (and a few that break a property)."""
import os
R="/repo/"
def F(file, head, new):
    s=open(R+file).read()
    i=s.index(head)
    j=s.index("\n}\n", i)+3
    return (file, s[i:j], new.lstrip("\n"))
CC="chans/chunk_chan.go"; SC="chans/shard_chan.go"; SK="chans/shard_chunk_chan.go"
M=[
("cc-run-flush-closure","",[F(CC,"func (c *ChunkChan[T]) run()",'''
func (c *ChunkChan[T]) run() {
	t := time.NewTicker(c.chunkTimeout)
	defer t.Stop()
	var chunk []T
	flush := func() bool {
		select {
		case c.outgoingChan <- chunk:
			chunk = nil
			return true
		case <-c.ctx.Done():
			return false
		}
	}
	for {
		select {
		case <-c.ctx.Done():
			return
		case item := <-c.incomingChan:
			chunk = append(chunk, item)
			if len(chunk) < c.chunkSize {
				continue
			}
		case <-t.C:
			if len(chunk) == 0 {
				continue
			}
		}
		if !flush() {
			return
		}
	}
}
''')]),
("cc-run-method-flush","",[F(CC,"func (c *ChunkChan[T]) run()",'''
func (c *ChunkChan[T]) emit(chunk []T) error {
	select {
	case c.outgoingChan <- chunk:
	case <-c.ctx.Done():
		return c.ctx.Err()
	}
	return nil
}

func (c *ChunkChan[T]) run() {
	t := time.NewTicker(c.chunkTimeout)
	defer t.Stop()
	chunk := c.newChunk()
	for {
		var due bool
		select {
		case <-c.ctx.Done():
			return
		case <-t.C:
			due = len(chunk) != 0
		case item := <-c.incomingChan:
			chunk = append(chunk, item)
			due = len(chunk) >= c.chunkSize
		}
		if due {
			if err := c.emit(chunk); err != nil {
				return
			}
			chunk = c.newChunk()
		}
	}
}

func (c *ChunkChan[T]) newChunk() []T {
	return make([]T, 0, c.chunkSize)
}
''')]),
("cc-run-outchan-nil","",[F(CC,"func (c *ChunkChan[T]) run()",'''
func (c *ChunkChan[T]) run() {
	ticker := time.NewTicker(c.chunkTimeout)
	defer ticker.Stop()
	done := c.ctx.Done()
	for {
		chunk, ok := c.collect(ticker.C, done)
		if !ok {
			return
		}
		select {
		case <-done:
			return
		case c.outgoingChan <- chunk:
		}
	}
}

func (c *ChunkChan[T]) collect(tick <-chan time.Time, done <-chan struct{}) ([]T, bool) {
	chunk := make([]T, 0, c.chunkSize)
	for {
		select {
		case <-done:
			return nil, false
		case <-tick:
			if len(chunk) > 0 {
				return chunk, true
			}
		case item := <-c.incomingChan:
			if chunk = append(chunk, item); len(chunk) >= c.chunkSize {
				return chunk, true
			}
		}
	}
}
''')]),
("cc-build-consumer-method","",[F(CC,"func (b *ChunkChanBuilder[T]) Build()",'''
func (b *ChunkChanBuilder[T]) Build() *ChunkChan[T] {
	res := &ChunkChan[T]{
		ctx:          b.ctx,
		chunkSize:    b.chunkSize,
		chunkTimeout: b.chunkTimeout,
		incomingChan: b.incomingChan,
	}
	if res.incomingChan == nil {
		res.incomingChan = make(chan T, b.incomingBufferSize)
	}
	res.outgoingChan = make(chan []T, b.outgoingBufferSize)
	if b.chunkFunc != nil {
		go res.consume(b.chunkFunc)
	}
	go res.run()
	return res
}

func (c *ChunkChan[T]) consume(chunkFunc ChunkFunc[T]) {
	for {
		select {
		case chunk := <-c.outgoingChan:
			chunkFunc(chunk)
		case <-c.ctx.Done():
			return
		}
	}
}
''')]),
("cc-add-method-err","",[F(CC,"func (c *ChunkChan[T]) Add(",'''
func (c *ChunkChan[T]) Add(item T) {
	done := c.ctx.Done()
	in := c.incomingChan
	select {
	case in <- item:
		return
	case <-done:
		return
	}
}
''')]),
("sc-slice","",[(SC,"outgoingChans map[int]chan T","outgoingChans []chan T"),(SC,"outgoingChans: make(map[int]chan T, b.shardCount)","outgoingChans: make([]chan T, b.shardCount)")]),
("sc-slice-append","",[(SC,"outgoingChans map[int]chan T","outgoingChans []chan T"),(SC,"outgoingChans: make(map[int]chan T, b.shardCount)","outgoingChans: make([]chan T, 0, b.shardCount)"),
 (SC,"res.outgoingChans[i] = make(chan T, b.outgoingBufferSize)","res.outgoingChans = append(res.outgoingChans, make(chan T, b.outgoingBufferSize))")]),
("sc-build-methods","",[F(SC,"func (b *ShardChanBuilder[T]) Build()",'''
func (b *ShardChanBuilder[T]) Build() (*ShardChan[T], error) {
	if b.shardFunc == nil {
		return nil, ErrShardFuncIsNil
	}
	s := &ShardChan[T]{
		ctx:           b.ctx,
		shardFunc:     b.shardFunc,
		shardCount:    b.shardCount,
		incomingChan:  b.incomingChan,
		outgoingChans: make(map[int]chan T, b.shardCount),
	}
	if s.incomingChan == nil {
		s.incomingChan = make(chan T, b.incomingBufferSize)
	}
	for shard := 0; shard < s.shardCount; shard++ {
		s.outgoingChans[shard] = make(chan T, b.outgoingBufferSize)
	}
	go s.dispatch()
	if b.workerFunc == nil {
		return s, nil
	}
	for shard := 0; shard < s.shardCount; shard++ {
		go s.work(shard, s.outgoingChans[shard], b.workerFunc)
	}
	return s, nil
}

func (s *ShardChan[T]) shardOf(msg T) int {
	key := s.shardFunc(msg) % s.shardCount
	if key < 0 {
		return key + s.shardCount
	}
	return key
}

func (s *ShardChan[T]) dispatch() {
	for {
		select {
		case msg := <-s.incomingChan:
			out := s.outgoingChans[s.shardOf(msg)]
			select {
			case out <- msg:
			case <-s.ctx.Done():
				return
			}
		case <-s.ctx.Done():
			return
		}
	}
}

func (s *ShardChan[T]) work(shard int, in <-chan T, worker WorkerFunc[T]) {
	for {
		select {
		case <-s.ctx.Done():
			return
		case msg := <-in:
			worker(shard, msg)
		}
	}
}
''')]),
("sc-mod-double","",[(SC,'''				key := res.shardFunc(msg) % res.shardCount
				if key < 0 {
					key += res.shardCount
				}
''','''				n := res.shardCount
				key := (res.shardFunc(msg)%n + n) % n
''')]),
("sc-mod-neg-literal-mut","C03",[(SC,'''				if key < 0 {
					key += res.shardCount
				}
''','''				if key < 0 {
					key = -key
				}
''')] if False else [(SC,'''				if key < 0 {
					key += res.shardCount
				}
''','''				if key < -1 {
					key += res.shardCount
				}
''')]),
("sc-abs","",[(SC,'''				if key < 0 {
					key += res.shardCount
				}
''','''				if key < 0 {
					key = -key
				}
''')]),
("sc-loop-break-label","",[F(SC,"func (s *ShardChan[T]) Sizes()",'''
func (s *ShardChan[T]) Sizes() []int {
	sizes := make([]int, 0, s.shardCount)
	for i := 0; i < s.shardCount; i++ {
		sizes = append(sizes, len(s.outgoingChans[i]))
	}
	return sizes
}
''')]),
("sk-build-methods","",[F(SK,"func (b *ShardChunkBuilder[T]) Build()",'''
func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
	in := b.incomingChan
	if in == nil {
		in = make(chan T, b.incomingBufferSize)
	}
	sharder, err := NewShardChan[T]().
		WithContext(b.ctx).
		WithIncomingChan(in).
		WithShardFunc(b.shardFunc).
		WithShardCount(b.shardCount).
		WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount).
		Build()
	if err != nil {
		return nil, err
	}
	res := &ShardChunk[T]{sharder: sharder}
	for i := 0; i < b.shardCount; i++ {
		chunker := NewChunkChan[T]().
			WithContext(b.ctx).
			WithChunkSize(b.chunkSize).
			WithChunkTimeout(b.chunkTimeout).
			WithOutgoingBufferSize(b.outgoingBufferSize).
			Build()
		res.chunkers = append(res.chunkers, chunker)
		go feed(b.ctx, sharder.C(i), chunker)
	}
	if b.shardWorker != nil {
		for i, chunker := range res.chunkers {
			go drain(b.ctx, i, chunker.C(), b.shardWorker)
		}
	}
	return res, nil
}

func feed[T any](ctx context.Context, from <-chan T, to *ChunkChan[T]) {
	for {
		select {
		case <-ctx.Done():
			return
		case m := <-from:
			to.Add(m)
		}
	}
}

func drain[T any](ctx context.Context, shard int, from <-chan []T, worker ShardChunkFunc[T]) {
	for {
		select {
		case <-ctx.Done():
			return
		case batch := <-from:
			worker(shard, batch)
		}
	}
}
''')]),
("sk-one-loop-mut","C04",[(SK,"case batch := <-chunkers[k].C():","case batch := <-chunkers[b.shardCount-1-k].C():")]),
("sk-direct-incoming","",[F(SK,"func (b *ShardChunkBuilder[T]) Build()",'''
func (b *ShardChunkBuilder[T]) Build() (*ShardChunk[T], error) {
	shardBuilder := NewShardChan[T]()
	shardBuilder.WithContext(b.ctx)
	shardBuilder.WithShardFunc(b.shardFunc)
	shardBuilder.WithShardCount(b.shardCount)
	shardBuilder.WithIncomingBufferSize(b.incomingBufferSize)
	shardBuilder.WithOutgoingBufferSize(b.incomingBufferSize / b.shardCount)
	shardBuilder.WithIncomingChan(b.incomingChan)
	sharder, err := shardBuilder.Build()
	if err != nil {
		return nil, err
	}
	res := &ShardChunk[T]{
		sharder:  sharder,
		chunkers: make([]*ChunkChan[T], b.shardCount),
	}
	for i := range res.chunkers {
		cb := NewChunkChan[T]().
			WithContext(b.ctx).
			WithChunkSize(b.chunkSize).
			WithChunkTimeout(b.chunkTimeout).
			WithOutgoingBufferSize(b.outgoingBufferSize).
			WithIncomingChan(sharder.C(i))
		if worker := b.shardWorker; worker != nil {
			shard := i
			cb.WithChunkFunc(func(batch []T) { worker(shard, batch) })
		}
		res.chunkers[i] = cb.Build()
	}
	return res, nil
}
''')]),
]

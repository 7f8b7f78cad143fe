H = "chans/shard_chunk_chan.go"
F = "chans/chunk_chan.go"
S = "chans/shard_chan.go"
R = "workers/runner.go"
RELAY = '''		go func(k int) {
			for {
				select {
				case <-ctx.Done():
					return
				case m := <-sharder.C(k):
					chunkers[k].Add(m)
				}
			}
		}(i)
'''
CHUNK = '''		chunkers[i] = NewChunkChan[T]().WithContext(b.ctx).WithChunkSize(b.chunkSize).WithOutgoingBufferSize(b.outgoingBufferSize).WithChunkTimeout(b.chunkTimeout).Build()
'''
WORK = '''		for i := 0; i < b.shardCount; i++ {
			go func(k int) {
				for {
					select {
					case <-ctx.Done():
						return
					case batch := <-chunkers[k].C():
						shardWorker(k, batch)
					}
				}
			}(i)
		}
'''
RW = '''		go func() {
			for {
				select {
				case <-r.ctx.Done():
					return
				case fn := <-r.runners:
					fn()
				case fn := <-r.runnersCtx:
					fn(r.ctx)
				}
			}
		}()
'''
M = [
 ("c4-relay-next", "C04", [(H, "chunkers[k].Add(m)", "chunkers[(k+1)%b.shardCount].Add(m)")]),
 ("c4-relay-zero", "C04", [(H, "chunkers[k].Add(m)", "chunkers[0].Add(m)")]),
 ("c4-relay-twice", "C04", [(H, "chunkers[k].Add(m)", "chunkers[k].Add(m)\n\t\t\t\t\tif k > 7 {\n\t\t\t\t\t\tchunkers[k].Add(m)\n\t\t\t\t\t}")]),
 ("c4-relay-skips", "C04", [(H, "chunkers[k].Add(m)", "if len(chunkers[k].C()) < b.outgoingBufferSize {\n\t\t\t\t\t\tchunkers[k].Add(m)\n\t\t\t\t\t}")]),
 ("c4-worker-index", "C04", [(H, "shardWorker(k, batch)", "shardWorker(b.shardCount-1-k, batch)")]),
 ("c4-worker-missing-last", "C04", [(H, WORK, WORK.replace("i := 0; i < b.shardCount; i++", "i := 0; i < b.shardCount && i < 64; i++"))]),
 ("c4-worker-spawn", "C04", [(H, "shardWorker(k, batch)", "if len(batch) > 1 {\n\t\t\t\t\t\t\tshardWorker(k, batch)\n\t\t\t\t\t\t}")]),
 ("c4-chunksize-dropped", "C04", [(H, ".WithChunkSize(b.chunkSize)", "")]),
 ("c4-timeout-dropped", "C04", [(H, ".WithChunkTimeout(b.chunkTimeout)", "")]),
 ("c4-shared-in", "C04", [(H, RELAY, RELAY.replace("}(i)", "}(i / 2 * 2)"))]),
 ("c4-shardfunc-dropped", "C04", [(H, ".WithShardFunc(b.shardFunc)", "")]),
 ("c4-get-range", "C06", [(H, "if key < 0 || key >= s.sharder.ShardCount() {\n\t\treturn nil\n\t}\n\treturn s.chunkers[key].C()", "if key <= 0 || key >= s.sharder.ShardCount() {\n\t\treturn nil\n\t}\n\treturn s.chunkers[key].C()")]),
 ("same-c4-direct", "", [(H, CHUNK+RELAY, '''		chunkers[i] = NewChunkChan[T]().WithContext(b.ctx).WithIncomingChan(sharder.C(i)).WithChunkSize(b.chunkSize).WithOutgoingBufferSize(b.outgoingBufferSize).WithChunkTimeout(b.chunkTimeout).Build()
''')]),
 ("c4-direct-wrong", "C04", [(H, CHUNK+RELAY, '''		chunkers[i] = NewChunkChan[T]().WithContext(b.ctx).WithIncomingChan(sharder.C(b.shardCount-1-i)).WithChunkSize(b.chunkSize).WithOutgoingBufferSize(b.outgoingBufferSize).WithChunkTimeout(b.chunkTimeout).Build()
''')]),
 ("same-c4-locals", "", [(H, CHUNK+RELAY, '''		i := i
		ch := NewChunkChan[T]().WithContext(b.ctx).WithChunkSize(b.chunkSize).WithChunkTimeout(b.chunkTimeout).WithOutgoingBufferSize(b.outgoingBufferSize).Build()
		chunkers[i] = ch
		src := sharder.C(i)
		go func() {
			for {
				select {
				case <-ctx.Done():
					return
				case m := <-src:
					ch.Add(m)
				}
			}
		}()
''')]),
 ("same-c4-helper", "", [(H, RELAY, "\t\tgo relay(ctx, sharder.C(i), chunkers[i])\n"), (H, "func (b *ShardChunkBuilder[T]) Build()", '''func relay[T any](ctx context.Context, from chan T, to *ChunkChan[T]) {
	for {
		select {
		case <-ctx.Done():
			return
		case m := <-from:
			to.Add(m)
		}
	}
}

func (b *ShardChunkBuilder[T]) Build()''')]),
 ("same-c4-onego", "", [(H, WORK, '''		for i, ch := range chunkers {
			go work(ctx, shardWorker, i, ch)
		}
'''), (H, "func (b *ShardChunkBuilder[T]) Build()", '''func work[T any](ctx context.Context, shardWorker ShardChunkFunc[T], k int, ch *ChunkChan[T]) {
	for {
		select {
		case <-ctx.Done():
			return
		case batch := <-ch.C():
			shardWorker(k, batch)
		}
	}
}

func (b *ShardChunkBuilder[T]) Build()''')]),
 ("same-c4-split-loops", "", [(H, CHUNK+RELAY, CHUNK+"\t}\n\tfor i := range chunkers {\n"+RELAY)]),
 ("same-c4-method", "", [(H, "shardWorker(k, batch)", "work(k, batch)"), (H, "\tif shardWorker != nil {\n", "\tif work := shardWorker; work != nil {\n")]),
 ("same-c4-const", "", [(H, "\tif incomingChan == nil {\n\t\tincomingChan = make(chan T, b.incomingBufferSize)\n\t}\n", "\tif incomingChan == nil {\n\t\tmade := make(chan T, b.incomingBufferSize)\n\t\tincomingChan = made\n\t}\n")]),
 # --- C05 ---
 ("c5-relay-noctx", "C05", [(H, RELAY, '''		go func(k int) {
			for m := range sharder.C(k) {
				chunkers[k].Add(m)
			}
		}(i)
''')]),
 ("c5-chunk-noctx", "C05", [(H, "NewChunkChan[T]().WithContext(b.ctx)", "NewChunkChan[T]()")]),
 ("c5-shard-noctx", "C05", [(H, "NewShardChan[T]().WithContext(b.ctx)", "NewShardChan[T]()")]),
 ("c5-break", "C05", [(R, "case <-r.ctx.Done():\n\t\t\t\t\treturn\n\t\t\t\tcase fn := <-r.runners:", "case <-r.ctx.Done():\n\t\t\t\t\tbreak\n\t\t\t\tcase fn := <-r.runners:")]),
 ("c5-drain", "C05", [(R, "case <-r.ctx.Done():\n\t\t\t\t\treturn\n\t\t\t\tcase fn := <-r.runners:", "case <-r.ctx.Done():\n\t\t\t\t\tif len(r.runners) == 0 {\n\t\t\t\t\t\treturn\n\t\t\t\t\t}\n\t\t\t\tcase fn := <-r.runners:")]),
 ("c5-runner-run-blocks", "C05", [(R, "	select {\n	case <-r.ctx.Done():\n	case r.runners <- fn:\n	}", "\tif r.ctx.Err() != nil {\n\t\treturn\n\t}\n\tr.runners <- fn")]),
 ("c5-wrongctx", "C05", [(R, "		ctx:        b.ctx,", "		ctx:        context.WithoutCancel(b.ctx),")]),
 ("c5-flush-on-done", "C05", [(F, "\t\tcase <-c.ctx.Done():\n\t\t\treturn\n\t\tcase <-t.C:", "\t\tcase <-c.ctx.Done():\n\t\t\tif len(chunk) > 0 {\n\t\t\t\tc.outgoingChan <- chunk\n\t\t\t}\n\t\t\treturn\n\t\tcase <-t.C:")]),
 ("same-c5-done-var", "", [(R, RW, '''		go func() {
			done := r.ctx.Done()
			for {
				select {
				case <-done:
					return
				case fn := <-r.runners:
					fn()
				case fn := <-r.runnersCtx:
					fn(r.ctx)
				}
			}
		}()
''')]),
 ("same-c5-precheck", "", [(R, "\t\t\tfor {\n\t\t\t\tselect {", "\t\t\tfor r.ctx.Err() == nil {\n\t\t\t\tselect {")]),
 ("same-c5-method", "", [(R, RW, "\t\tgo r.work()\n"), (R, "func (b *RunnerBuilder) Build()", '''func (r *Runner) work() {
	for {
		select {
		case <-r.ctx.Done():
			return
		case fn := <-r.runners:
			fn()
		case fn := <-r.runnersCtx:
			fn(r.ctx)
		}
	}
}

func (b *RunnerBuilder) Build()''')]),
 ("same-c5-label", "", [(R, RW, '''		go func() {
		loop:
			for {
				select {
				case <-r.ctx.Done():
					break loop
				case fn := <-r.runners:
					fn()
				case fn := <-r.runnersCtx:
					fn(r.ctx)
				}
			}
		}()
''')]),
 # --- W01 ---
 ("w1-go", "W01", [(R, "\t\t\t\t\tfn()\n", "\t\t\t\t\tgo fn()\n")]),
 ("w1-extra", "W01", [(R, "i := 0; i < b.workerCount; i++", "i := 0; i <= b.workerCount; i++")]),
 ("w1-fewer", "W01", [(R, "i := 0; i < b.workerCount; i++", "i := 1; i < b.workerCount; i++")]),
 ("w1-ctx", "W01", [(R, "fn(r.ctx)", "fn(context.Background())")]),
 ("w1-twice", "W01", [(R, "\t\t\t\t\tfn()\n", "\t\t\t\t\tfn()\n\t\t\t\t\tif len(r.runners) > 50 {\n\t\t\t\t\t\tfn()\n\t\t\t\t\t}\n")]),
 ("w1-drop", "W01", [(R, "case r.runners <- fn:\n\t}", "case r.runners <- fn:\n\tdefault:\n\t}")]),
 ("w1-drop-worker", "W01", [(R, "\t\t\t\t\tfn()\n", "\t\t\t\t\tif len(r.runnersCtx) == 0 {\n\t\t\t\t\t\tfn()\n\t\t\t\t\t}\n")]),
 ("w1-batch", "W01", [(R, "\t\t\t\t\tfn()\n", "\t\t\t\t\tselect {\n\t\t\t\t\tcase g := <-r.runners:\n\t\t\t\t\t\tg()\n\t\t\t\t\tdefault:\n\t\t\t\t\t}\n\t\t\t\t\tfn()\n")]),
 ("w1-dedicated", "W01", [(R, RW, '''		go func(k int) {
			for {
				select {
				case <-r.ctx.Done():
					return
				case fn := <-r.runners:
					fn()
				}
			}
		}(i)
		go func(k int) {
			for {
				select {
				case <-r.ctx.Done():
					return
				case fn := <-r.runnersCtx:
					fn(r.ctx)
				}
			}
		}(i)
''')]),
 ("w1-inline", "W01", [(R, "	case r.runners <- fn:\n	}", "	case r.runners <- fn:\n	default:\n\t\tfn()\n\t}")]),
 ("same-w1-down", "", [(R, "i := 0; i < b.workerCount; i++", "i := b.workerCount; i > 0; i--")]),
 ("same-w1-nil", "", [(R, "\t\t\t\t\tfn()\n", "\t\t\t\t\tif fn != nil {\n\t\t\t\t\t\tfn()\n\t\t\t\t\t}\n")]),
 ("same-w1-ctxlocal", "B01", [(R, "fn(r.ctx)", "fn(b.ctx)")]),
 ("same-w1-wrapper", "", [(R, "\t\t\t\t\tfn()\n", "\t\t\t\t\tr.exec(fn)\n"), (R, "func (r *Runner) Run(", "func (r *Runner) exec(fn RunnerFn) {\n\tfn()\n}\n\nfunc (r *Runner) Run(")]),
]

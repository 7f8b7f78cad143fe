# Edits about builder options (B01).
M = []
CC, SC, SK, RU = "chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", "workers/runner.go"
GM, HS, HM, RM, SM, SU, WM = ["collections/%s.go" % n for n in ("guava_map", "hash_set", "holder_map", "response_map", "shard_map", "struct_uniq_set", "wait_map")]
FS = "crypto_fs/crypto_fs.go"
def m(name, want, *edits):
    M.append((name, want, list(edits)))

# -- a setter stores into the wrong place, nothing, or more than its own field
for f, o, a, b in [
    (CC, "WithContext", "b.ctx = ctx", ""), (CC, "WithChunkSize", "b.chunkSize = chunkSize", "b.incomingBufferSize = chunkSize"),
    (CC, "WithChunkFunc", "b.chunkFunc = chunkFunc", ""), (CC, "WithChunkTimeout", "b.chunkTimeout = chunkTimeout", "_ = chunkTimeout"),
    (CC, "WithIncomingBufferSize", "b.incomingBufferSize = incomingBufferSize", "b.outgoingBufferSize = incomingBufferSize"),
    (CC, "WithOutgoingBufferSize", "b.outgoingBufferSize = outgoingBufferSize", "b.outgoingBufferSize = outgoingBufferSize + 1"),
    (CC, "WithIncomingChan", "b.incomingChan = incomingChan", "b.incomingChan = incomingChan\n\tb.incomingBufferSize = cap(incomingChan)\n\tb.chunkSize = cap(incomingChan)"),
    (SC, "WithContext", "b.ctx = ctx", ""), (SC, "WithShardFunc", "b.shardFunc = shardFunc", "if b.shardFunc == nil {\n\t\tb.shardFunc = shardFunc\n\t}"),
    (SC, "WithShardCount", "b.shardCount = shardCount", "b.incomingBufferSize = shardCount"), (SC, "WithIncomingBufferSize", "b.incomingBufferSize = incomingBufferSize", "b.outgoingBufferSize = incomingBufferSize"),
    (SC, "WithOutgoingBufferSize", "b.outgoingBufferSize = outgoingBufferSize", "b.incomingBufferSize = outgoingBufferSize"),
    (SC, "WithIncomingChan", "b.incomingChan = incomingChan", "b.incomingChan = incomingChan\n\tb.workerFunc = nil"),
    (SC, "WithWorkerFunc", "b.workerFunc = workerFunc", ""),
    (SK, "WithShardWorker", "b.shardWorker = shardWorker", "b.shardWorker = shardWorker\n\tb.chunkSize = 1"), (SK, "WithContext", "b.ctx = ctx", ""),
    (SK, "WithChunkSize", "b.chunkSize = chunkSize", "b.shardCount = chunkSize"), (SK, "WithChunkTimeout", "b.chunkTimeout = chunkTimeout", "if chunkTimeout > time.Second {\n\t\tb.chunkTimeout = chunkTimeout\n\t}"),
    (SK, "WithShardCount", "b.shardCount = shardCount", "b.chunkSize = shardCount"), (SK, "WithShardFunc", "b.shardFunc = shardFunc", ""),
    (SK, "WithIncomingBufferSize", "b.incomingBufferSize = incomingBufferSize", "b.outgoingBufferSize = incomingBufferSize"),
    (SK, "WithOutgoingBufferSize", "b.outgoingBufferSize = outgoingBufferSize", ""), (SK, "WithIncomingChan", "b.incomingChan = incomingChan", "b.incomingChan = make(chan T, cap(incomingChan))"),
    (RU, "WithContext", "b.ctx = ctx", ""), (RU, "WithWorkerCount", "b.workerCount = workerCount", "b.workerCount = workerCount\n\tb.bufferSize = workerCount"),
    (GM, "WithContext", "b.ctx = ctx", ""), (GM, "WithLockLoad", "b.lockLoad = lockLoad", "b.lockLoad = true"), (GM, "WithLoadFunc", "b.loadFunc = loadFunc", ""),
    (GM, "WithMaxCount", "b.maxCount = maxCount", "b.maxCount = maxCount\n\tb.lockLoad = false"), (GM, "WithUnloadFunc", "b.unloadFunc = unloadFunc", ""),
    (GM, "WithWriteTimeout", "b.writeTimeout = writeTimeout", "b.writeTimeout = writeTimeout\n\tb.readTimeout = writeTimeout"), (GM, "WithReadTimeout", "b.readTimeout = readTimeout", "b.writeTimeout = readTimeout"),
    (HS, "WithMaxCount", "b.maxCount = maxCount", ""),
    (HM, "WithContext", "c.ctx = ctx", ""), (HM, "WithTimeout", "c.timeoutDuration = d", "c.destroyElementDuration = d"), (HM, "WithTTL", "c.destroyElementDuration = d", "c.timeoutDuration = d"),
    (RM, "WithResponseTimeout", "b.responseTimeout = timeout", "b.clearTimeout = timeout"), (RM, "WithClearTimeout", "b.clearTimeout = timeout", "b.clearTimeout = timeout\n\tb.responseTimeout = timeout"), (RM, "WithLogger", "b.logger = l", ""),
    (SM, "WithShardsCount", "b.shardsCount = shardsCount", ""), (SM, "WithShardsFunc", "b.shardsFunc = shardsFunc", ""),
    (SU, "WithBuildFunc", "b.build = buildFn", ""), (SU, "WithContext", "b.ctx = ctx", ""), (SU, "WithElementTtl", "b.ttl = ttl", "b.checkInterval = ttl"), (SU, "WithCheckInterval", "b.checkInterval = interval", "b.ttl = interval"),
    (WM, "WithRequestTimeout", "b.requestTimeout = timeout", "b.responseTtl = timeout"), (WM, "WithResponseTtl", "b.responseTtl = ttl", "b.requestTimeout = ttl"), (WM, "WithContext", "b.ctx = ctx", ""),
]:
    m("set-%s-%s" % (f.split("/")[1][:-3], o), "B01", (f, "\t" + a + "\n", "\t" + b + "\n"))
m("set-fs-save", "B01", (FS, "b.savePath = path", "b.rootDir = path"))
m("set-newobj", "B01", (GM, "\tb.maxCount = maxCount\n\treturn b", "\tb.maxCount = maxCount\n\tc := *b\n\tc.loadFunc = nil\n\treturn &c"))

# -- Build loses, swaps or alters a value
for n, f, a, b in [
    ("cc-timeout", CC, "chunkTimeout: b.chunkTimeout,", "chunkTimeout: 50 * time.Millisecond,"),
    ("cc-size", CC, "chunkSize:    b.chunkSize,", "chunkSize:    max(b.chunkSize, 2),"),
    ("cc-ctx", CC, "ctx:          b.ctx,", "ctx:          context.Background(),"),
    ("cc-buf-swap", CC, "outgoingChan: make(chan []T, b.outgoingBufferSize)", "outgoingChan: make(chan []T, b.incomingBufferSize)"),
    ("cc-buf-fixed", CC, "make(chan T, b.incomingBufferSize)", "make(chan T, 1000)"),
    ("cc-buf-none", CC, "make(chan T, b.incomingBufferSize)", "make(chan T)"),
    ("cc-inchan", CC, "if incomingChan == nil {", "if incomingChan == nil || cap(incomingChan) < b.incomingBufferSize {"),
    ("cc-funcdrop", CC, "if chunkFunc != nil {", "if chunkFunc != nil && b.incomingChan == nil {"),
    ("sc-buf-out", SC, "make(chan T, b.outgoingBufferSize)", "make(chan T, b.outgoingBufferSize/b.shardCount)"),
    ("sc-buf-in", SC, "make(chan T, b.incomingBufferSize)", "make(chan T, b.outgoingBufferSize)"),
    ("sc-ctx", SC, "ctx:           b.ctx,", "ctx:           context.Background(),"),
    ("sk-ctx", SK, "NewChunkChan[T]().WithContext(b.ctx).", "NewChunkChan[T]()."),
    ("sk-size", SK, ".WithChunkSize(b.chunkSize)", ""),
    ("sk-timeout", SK, ".WithChunkTimeout(b.chunkTimeout)", ""),
    ("sk-outbuf", SK, ".WithOutgoingBufferSize(b.outgoingBufferSize)", ""),
    ("sk-inbuf", SK, "make(chan T, b.incomingBufferSize)", "make(chan T, b.outgoingBufferSize)"),
    ("sk-inchan", SK, ".WithIncomingChan(incomingChan)", ""),
    ("sk-func", SK, "if shardWorker != nil {", "if shardWorker != nil && b.shardCount > 1 {"),
    ("ru-count", RU, "i < b.workerCount", "i < 5"),
    ("gm-ctx", GM, "\t\tctx:          b.ctx,\n", "\t\tctx:          context.Background(),\n"),
    ("gm-lock", GM, "if b.lockLoad {", "if b.lockLoad && b.loadFunc == nil {"),
    ("gm-load", GM, "\t\tloadFunc:     b.loadFunc,\n", ""),
    ("gm-max", GM, "maxCount:     b.maxCount,", "maxCount:     b.maxCount + 1,"),
    ("gm-unload", GM, "\t\tunloadFunc:   b.unloadFunc,\n", ""),
    ("gm-swap", GM, "writeTimeout: b.writeTimeout,\n\t\treadTimeout:  b.readTimeout,", "writeTimeout: b.readTimeout,\n\t\treadTimeout:  b.writeTimeout,"),
    ("gm-both", GM, "\t\treadTimeout:  b.readTimeout,", "\t\treadTimeout:  b.writeTimeout,"),
    ("gm-wmin", GM, "\tif b.lockLoad {", "\tif res.writeTimeout > 0 && res.writeTimeout < res.readTimeout {\n\t\tres.writeTimeout = res.readTimeout\n\t}\n\tif b.lockLoad {"),
    ("hs-max", HS, "\t\tmaxCount: b.maxCount,\n", ""),
    ("hm-swap", HM, "timeoutDuration:        c.timeoutDuration,\n\t\tdestroyElementDuration: c.destroyElementDuration,", "timeoutDuration:        c.destroyElementDuration,\n\t\tdestroyElementDuration: c.timeoutDuration,"),
    ("hm-ctx", HM, "\t\tctx:                    c.ctx,\n", "\t\tctx:                    context.Background(),\n"),
    ("rm-timeout", RM, "responseTimeout: b.responseTimeout,", "responseTimeout: b.clearTimeout,"),
    ("rm-clear", RM, "clearTimeout:    b.clearTimeout,", "clearTimeout:    time.Second * 100,"),
    ("rm-logger", RM, "\t\tlogger:          b.logger,\n", ""),
    ("rm-ctx", RM, "\t\tctx:             b.ctx,\n", "\t\tctx:             context.Background(),\n"),
    ("rm-ctxclear", RM, "go rm.clear(b.ctx)", "go rm.clear(context.Background())"),
    ("sm-func", SM, "shardsFunc:  b.shardsFunc,", "shardsFunc:  func(K) int { return 0 },"),
    ("sm-count", SM, "shardsCount: b.shardsCount,\n\t}\n\tfor", "shardsCount: 6,\n\t}\n\tfor"),
    ("su-build", SU, "build:         b.build,\n\t\telements", "build:         func(v V, keys ...any) ([16]byte, error) { return getHashCode(v) },\n\t\telements"),
    ("su-interval", SU, "time.After(res.checkInterval)", "time.After(time.Second)"),
    ("su-interval2", SU, "checkInterval: b.checkInterval,\n\t}\n\tgo", "checkInterval: b.ttl,\n\t}\n\tgo"),
    ("su-ttl", SU, "ttl:           b.ttl,\n\t\tcheckInterval: b.checkInterval,\n\t}\n\tgo", "ttl:           b.ttl + b.checkInterval,\n\t\tcheckInterval: b.checkInterval,\n\t}\n\tgo"),
    ("wm-swap", WM, "requestTimeout: b.requestTimeout,\n\t\tresponseTtl:    b.responseTtl,", "requestTimeout: b.responseTtl,\n\t\tresponseTtl:    b.requestTimeout,"),
    ("wm-ctx", WM, "ctx:            b.ctx,", "ctx:            context.Background(),"),
]:
    m("build-" + n, "B01", (f, a, b))

# -- defaults
for n, f, a, b in [
    ("cc-size", CC, "chunkSize:          100,", "chunkSize:          10,"), ("cc-timeout", CC, "chunkTimeout:       50 * time.Millisecond", "chunkTimeout:       50 * time.Second"),
    ("cc-in", CC, "incomingBufferSize: 1000,", "incomingBufferSize: 0,"), ("cc-out", CC, "outgoingBufferSize: 100,", "outgoingBufferSize: 1000,"),
    ("cc-ctx", CC, "\t\tctx:                context.Background(),\n", ""),
    ("sc-count", SC, "shardCount:         4,", "shardCount:         1,"), ("sk-size", SK, "chunkSize:          500,", "chunkSize:          100,"),
    ("sk-count", SK, "shardCount:         4,", "shardCount:         8,"),
    ("ru-count", RU, "workerCount: 5,", "workerCount: 1,"), ("hs-max", HS, "maxCount: 0,", "maxCount: 1000,"),
    ("gm-max", GM, "\t\tctx: context.Background(),\n", "\t\tctx: context.Background(),\n\t\tmaxCount: 10000,\n"),
    ("gm-lock", GM, "\t\tctx: context.Background(),\n", "\t\tctx: context.Background(),\n\t\tlockLoad: true,\n"),
    ("hm-timeout", HM, "time.Second * 10", "time.Minute * 10"), ("hm-ttl", HM, "time.Minute * 5", "time.Second * 5"),
    ("rm-ctx", RM, "\t\tctx:             ctx,\n", "\t\tctx:             context.Background(),\n"),
    ("rm-clear", RM, "clearTimeout:    time.Second * 100", "clearTimeout:    time.Second * 10"),
    ("sm-count", SM, "shardsCount: 6,", "shardsCount: 4,"), ("su-ttl", SU, "time.Minute * 30", "time.Minute * 3"),
    ("su-int", SU, "checkInterval: time.Second * 1", "checkInterval: time.Minute * 1"), ("wm-req", WM, "time.Second * 10", "time.Second * 1"), ("wm-ttl", WM, "time.Minute * 5", "time.Minute * 50"),
]:
    m("def-" + n, "B01", (f, a, b))

# -- the built object shares its builder
m("share-cc", "B01", (CC, "\t\t\t\t\tchunkFunc(chunk)", "\t\t\t\t\tb.chunkFunc(chunk)"))
m("share-cc-in", "B01", (CC, "\t\tincomingChan = make(chan T, b.incomingBufferSize)\n", "\t\tb.incomingChan = make(chan T, b.incomingBufferSize)\n\t\tincomingChan = b.incomingChan\n"))
m("share-sc", "B01", (SC, "\t\t\t\t\t\tworkerFunc(k, msg)", "\t\t\t\t\t\tb.workerFunc(k, msg)"))
m("share-ru", "B01", (RU, "case <-r.ctx.Done():\n\t\t\t\t\treturn", "case <-b.ctx.Done():\n\t\t\t\t\treturn"))
m("share-gm", "B01", (GM, "\tif b.maxCount > 0 {\n\t\tres.storedSlice", "\tif b.loadFunc != nil {\n\t\tres.loadFunc = func(k K) (V, error) { return b.loadFunc(k) }\n\t}\n\tif b.maxCount > 0 {\n\t\tres.storedSlice"))
m("share-reset", "B01", (GM, "\tif b.maxCount > 0 {\n\t\tres.storedSlice", "\tb.loadFunc = nil\n\tif b.maxCount > 0 {\n\t\tres.storedSlice"))
m("share-su", "B01", (SU, "time.After(res.checkInterval)", "time.After(b.checkInterval)"))

# -- quiet
m("q-copy-locals", "", (GM, "\tres := &GuavaMap[K, V]{\n\t\tstored: ", "\tmaxCount := b.maxCount\n\tres := &GuavaMap[K, V]{\n\t\tstored: "), (GM, "maxCount:     b.maxCount,", "maxCount:     maxCount,"))
m("q-assign", "", (GM, "\t\tmaxCount:     b.maxCount,\n", ""), (GM, "\tif b.lockLoad {\n", "\tres.maxCount = b.maxCount\n\tif b.lockLoad {\n"))
m("q-guarded", "", (GM, "\t\tmaxCount:     b.maxCount,\n", ""), (GM, "\tif b.maxCount > 0 {\n", "\tif b.maxCount > 0 {\n\t\tres.maxCount = b.maxCount\n"))
m("q-helper", "", (HS, "\treturn &HashSet[K]{\n\t\tm:        make(map[K]bool),\n\t\tmaxCount: b.maxCount,\n\t}\n}", "\treturn newHashSet[K](b.maxCount)\n}\n\nfunc newHashSet[K comparable](max int) *HashSet[K] {\n\ts := new(HashSet[K])\n\ts.m = make(map[K]bool)\n\ts.maxCount = max\n\treturn s\n}"))
m("q-clamp", "", (HS, "\tb.maxCount = maxCount\n", "\tif maxCount < 0 {\n\t\tmaxCount = 0\n\t}\n\tb.maxCount = maxCount\n"))
m("q-clamp-build", "", (CC, "\tres := &ChunkChan[T]{", "\tout := b.outgoingBufferSize\n\tif out < 0 {\n\t\tout = 0\n\t}\n\tres := &ChunkChan[T]{"), (CC, "make(chan []T, b.outgoingBufferSize)", "make(chan []T, out)"))
m("q-rename-setter", "", (HM, "WithTTL(d time.Duration) *HolderMapBuilder[K, V] {\n\tc.destroyElementDuration = d", "WithTTL(ttl time.Duration) *HolderMapBuilder[K, V] {\n\tc.destroyElementDuration = ttl"))
m("q-const", "", (HM, "time.Second * 10", "10000 * time.Millisecond"))
m("q-snapshot", "", (CC, "\tincomingChan, chunkFunc := b.incomingChan, b.chunkFunc\n", "\tcfg := *b\n\tincomingChan, chunkFunc := cfg.incomingChan, cfg.chunkFunc\n"), (CC, "chunkSize:    b.chunkSize,", "chunkSize:    cfg.chunkSize,"))
m("q-inchan-if", "", (CC, "\tif incomingChan == nil {\n\t\tincomingChan = make(chan T, b.incomingBufferSize)\n\t}\n", "\tif b.incomingChan == nil {\n\t\tincomingChan = make(chan T, b.incomingBufferSize)\n\t}\n"))
m("q-worker-helper", "", (RU, "\t\tgo func() {\n\t\t\tfor {\n\t\t\t\tselect {\n\t\t\t\tcase <-r.ctx.Done():\n\t\t\t\t\treturn\n\t\t\t\tcase fn := <-r.runners:\n\t\t\t\t\tfn()\n\t\t\t\tcase fn := <-r.runnersCtx:\n\t\t\t\t\tfn(r.ctx)\n\t\t\t\t}\n\t\t\t}\n\t\t}()\n\t}\n\treturn r\n}",
  "\t\tgo r.work()\n\t}\n\treturn r\n}\n\nfunc (r *Runner) work() {\n\tfor {\n\t\tselect {\n\t\tcase <-r.ctx.Done():\n\t\t\treturn\n\t\tcase fn := <-r.runners:\n\t\t\tfn()\n\t\tcase fn := <-r.runnersCtx:\n\t\t\tfn(r.ctx)\n\t\t}\n\t}\n}"))
m("q-zero-default", "", (HS, "\t\tmaxCount: 0,\n", ""))
m("q-rm-fieldless", "", (RM, "go rm.clear(b.ctx)", "go rm.clear(rm.ctx)"))
m("q-with-calls", "", (CC, "\tb.chunkSize = chunkSize\n\treturn b", "\tb.setSize(chunkSize)\n\treturn b"), (CC, "func (b *ChunkChanBuilder[T]) WithChunkTimeout", "func (b *ChunkChanBuilder[T]) setSize(n int) {\n\tb.chunkSize = n\n}\n\nfunc (b *ChunkChanBuilder[T]) WithChunkTimeout"))
m("q-default-ctx-nil", "", (GM, "\treturn &GuavaMapBuilder[K, V]{\n\t\tctx: context.Background(),\n\t}", "\tb := new(GuavaMapBuilder[K, V])\n\tb.ctx = context.Background()\n\treturn b"))

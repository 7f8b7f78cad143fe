#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSON lines are awkward to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

# ---------------------------------------------------------------- chans / workers
p("C01", "ChunkChan delivers every accepted item exactly once and in order",
  "While its context is live, every item a ChunkChan accepts comes out on its outgoing side (or reaches the chunk function) exactly once and in the order it was accepted, whatever the interleaving of full chunks, timeouts and slow consumers. No item and no chunk is dropped, duplicated or overtaken.",
  ["schedules", "inputs", "histories"], "All item streams, chunk sizes, timeouts, and every interleaving of producer, chunker and consumer.",
  "The tests read a stream until its last item and never check that each item arrived once; they exercise one schedule and never a slow consumer.",
  ["chans/chunk_chan.go"],
  [("single chunking goroutine, append then send", "ChunkChan.run"), ("consumer goroutine", "ChunkChanBuilder.Build"), ("blocking hand-over", "ChunkChan.Add")],
  [("pending chunk", "items accepted and not yet handed over", "ChunkChan.run")], ["ChunkChan.C", "chunk function"])
p("C02", "ChunkChan chunks are bounded, non-empty, flushed, and never change once sent",
  "Every chunk a ChunkChan delivers holds between one item and the configured chunk size, and a chunk that reaches that size is delivered before any further item is taken in. A partial chunk is delivered once the configured timeout passes with no further item, and no other partial chunk is delivered. A delivered chunk is never modified or reused by the library.",
  ["schedules", "inputs", "histories"], "All chunk sizes of at least one, all timeouts, all arrival patterns.",
  "Tests use two arrival patterns and never look at a chunk again after later items arrived.",
  ["chans/chunk_chan.go"], [("size comparison after append, ticker case in the select, fresh slice after send", "ChunkChan.run")],
  [("pending chunk", "items accepted and not yet handed over", "ChunkChan.run")], ["ChunkChan.C"])
p("C03", "ShardChan sends each item to exactly one shard, fixed by its shard key",
  "For every shard function result, negative and oversized ones included, each item a ShardChan accepts is delivered exactly once to one existing shard, the shard depends only on that result and the shard count, and items of one shard keep their order. A worker function is called once per item with the index of the shard the item was routed to, and C returns an existing distinct channel for exactly the valid shard indexes.",
  ["inputs", "schedules", "histories"], "All int results of the shard function, all shard counts of at least one, all item streams and schedules.",
  "Tests use small non-negative keys and never compare the shard an item comes out of with its key.",
  ["chans/shard_chan.go"], [("key reduced to the shard range, then a synchronous send", "ShardChanBuilder.Build"), ("one channel per shard", "ShardChanBuilder.Build")],
  [("outgoing channels", "one per shard index", "ShardChan.outgoingChans")], ["ShardChan.C", "worker function"])
p("C04", "ShardChunk keeps shards apart from routing to chunk delivery",
  "Every item accepted by a ShardChunk is handed, once and in order, from its shard to the chunker of that same shard, and every chunk is reported with the index of the shard it was built for. All shards from zero to the configured count are served, with the chunk size, chunk timeout and shard function the builder was given.",
  ["inputs", "schedules", "configurations"], "All shard counts of at least one, builder settings, streams and schedules.",
  "The only test logs the chunks and asserts nothing about their shard or content.",
  ["chans/shard_chunk_chan.go", "chans/shard_chan.go", "chans/chunk_chan.go"],
  [("per-shard forwarding goroutine", "ShardChunkBuilder.Build"), ("per-shard worker goroutine", "ShardChunkBuilder.Build")],
  [("chunkers", "chunker of each shard", "ShardChunk.chunkers")], ["ShardChunk.C", "shard worker"])
p("C05", "Cancelling the context stops every channel and worker goroutine",
  "Once the configured context is cancelled, every goroutine started by ChunkChan, ShardChan, ShardChunk and Runner returns; from then on it waits for nothing but a callback it is running, even if nobody reads the outgoing channels. No producer call on them (Add, Run, RunWithContext) stays blocked after cancellation, and none of these goroutines stops while the context is live.",
  ["schedules", "fault_sequences"], "All moments of cancellation relative to every blocking operation.",
  "Tests either never cancel or cancel at the very end without looking for stuck goroutines.",
  ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", "workers/runner.go"],
  [("ctx.Done case in every blocking select of a goroutine", "run loops of chans and workers")], (), ["goroutine exit"])
p("C06", "Channel accessors report the configured shards and the queued items",
  "ShardCount returns the configured number of shards. ChunkChan.Sizes returns the numbers of items waiting on its incoming and outgoing side, ShardChan.Sizes the number waiting in each shard in shard order, and ShardChunk.Sizes those shard sizes plus the totals over all chunkers. ShardChunk.C returns the channel of that shard's chunks for every valid index and nil, without failing, for every other one.",
  ["inputs", "configurations", "histories"], "All shard counts of at least one, all int indexes including negative and oversized ones, all queue states.",
  "No test calls these accessors; the totals and the index bounds break only for counts and indexes the tests never use.",
  ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go"],
  [("loops over all shards, index bounds", "ChunkChan.Sizes, ShardChan.Sizes, ShardChan.ShardCount, ShardChunk.Sizes, ShardChunk.ShardCount, ShardChunk.C")],
  [("outgoing channels", "one per shard index", "ShardChan.outgoingChans"), ("chunkers", "chunker of each shard", "ShardChunk.chunkers")], ["Sizes", "ShardCount", "C"])
p("W01", "Runner executes each submitted task exactly once on a bounded pool",
  "While its context is live, every function submitted to a Runner is called exactly once, by one of exactly the configured number of worker goroutines, so no more than that many tasks ever run at the same time. Functions submitted with context receive the runner's context.",
  ["schedules", "inputs", "configurations"], "All worker counts, task streams of both kinds and schedules.",
  "The test runs ten tasks of one kind on one schedule and never measures concurrency.",
  ["workers/runner.go"], [("receive then synchronous call", "RunnerBuilder.Build"), ("worker start loop", "RunnerBuilder.Build")], (), ["submitted function"])
# ---------------------------------------------------------------- locks, maps, sets
p("L01", "Keyed mutexes give mutual exclusion per key and independence between keys",
  "For MapMutex and MapRWMutex, at most one caller holds a given key exclusively at any time, shared holders of a key never overlap an exclusive holder, and Unlock or RUnlock releases the lock taken for that same key and mode. A caller waiting for one key never makes callers of other keys wait.",
  ["schedules", "inputs", "histories"], "All keys, all interleavings of lock and unlock calls, first use of a key included.",
  "No test touches these types directly; a lost race on first use of a key needs a particular interleaving.",
  ["collections/lock_map.go"], [("double-checked creation of the per-key mutex under the table lock", "MapMutex.Lock, MapRWMutex.Lock, MapRWMutex.RLock"), ("lookup and unlock", "MapMutex.Unlock, MapRWMutex.Unlock, MapRWMutex.RUnlock")],
  [("per-key mutex table", "one mutex per key, never replaced", "MapMutex.m, MapRWMutex.m")], ["MapMutex", "MapRWMutex"])
p("M01", "SimpleMap and ShardMap honour the Map contract atomically",
  "In every implementation of Map, Get and Has report exactly the current binding of the key, Set and Delete take effect for that key only, and the SetIfNotExists variants never replace an existing binding, report truthfully whether they stored, and call the value function at most once and only when the key is absent. Check and store are one atomic step, so of any number of concurrent SetIfNotExists calls on an absent key exactly one stores.",
  ["inputs", "schedules", "histories"], "All keys, values, operation histories and interleavings.",
  "No test covers these types, and atomicity of check-then-store is a statement about all schedules.",
  ["collections/map.go", "collections/shard_map.go"], [("whole operation inside one critical section", "SimpleMap.*, ShardMap.*")],
  [("bindings", "current key/value pairs", "SimpleMap.m, ShardMap.shards")], ["Map interface"])
p("M02", "ShardMap uses one shard per key, under that shard's own lock",
  "Every ShardMap operation on a key uses the shard the shard function names for that key and is protected by the lock of exactly that shard, for any shard function with results in range. Size and Clear cover every shard, each under its own lock, and every shard exists from construction on.",
  ["inputs", "schedules", "configurations"], "All shard counts, in-range shard functions, keys and interleavings.",
  "No test covers ShardMap.",
  ["collections/shard_map.go"], [("shard index computed once and used for lock and data", "ShardMap.Get/Set/Delete/Has/SetIfNotExists*"), ("counted loops over all shards", "ShardMap.Clear, ShardMap.Size, ShardMapBuilder.Build")],
  [("shards", "bindings per shard", "ShardMap.shards"), ("shard locks", "one lock per shard", "ShardMap.shardsLock")], ["ShardMap"])
p("T01", "TwoKeyMap keeps both key views consistent",
  "After any history of Put, Remove and RemoveByK2, every first key is linked to exactly one second key and back, so Get and GetByK2 of linked keys return the same value and both key lists have as many entries as Len. A Put that reuses either key replaces the old link entirely, and removing a key that is not present changes nothing.",
  ["inputs", "histories", "schedules"], "All histories of operations, zero-valued keys and reused keys included.",
  "There is no test for TwoKeyMap.",
  ["collections/two_key_map.go"], [("all three tables updated in one critical section", "TwoKeyMap.Put, Remove, RemoveByK2")],
  [("value table and the two link tables", "value by first key, first-to-second and second-to-first links", "TwoKeyMap.data, k1Tok2, k2Tok1")], ["TwoKeyMap"])
p("H01", "A bounded HashSet never exceeds its limit and evicts only the oldest key",
  "With a maximum count configured, a HashSet never holds more keys than that maximum after any operation, and a key disappears only by Delete, Clear, or because adding a new key to a full set evicts the key that was added longest ago. Without a maximum, nothing is ever evicted and nothing is retained about keys that are gone.",
  ["inputs", "histories", "schedules"], "All maxima, all histories of Add, HasOrCreate, Delete and Clear, repeated keys included.",
  "There is no test for HashSet; the bound breaks only after particular histories such as repeated adds.",
  ["collections/hash_set.go"], [("order list kept in step with the key table, eviction of its head when over the limit", "HashSet.Add, HashSet.HasOrCreate, HashSet.Delete")],
  [("key table", "current keys", "HashSet.m"), ("order list", "keys by age", "HashSet.ml")], ["HashSet"])
p("H02", "HashSet operations are atomic and HasOrCreate has one winner",
  "Every HashSet operation behaves as one atomic step on the set of keys: Add makes the key present, Delete makes it absent, Clear empties the set, and Has, Count and Keys report exactly the present keys. HasOrCreate returns true exactly if the key was already present and otherwise adds it, so of concurrent calls for an absent key exactly one returns false.",
  ["schedules", "inputs", "histories"], "All keys, histories and interleavings.",
  "There is no test for HashSet, and the one-winner guarantee quantifies over schedules.",
  ["collections/hash_set.go"], [("recheck under the write lock", "HashSet.HasOrCreate"), ("critical sections", "HashSet.*")],
  [("key table", "current keys", "HashSet.m")], ["HashSet"])
p("S01", "Set implements mathematical set operations and independent clones",
  "For every history, a Set reports as members exactly the values added and not removed or cleared since, HasAll and HasAny are the conjunction and disjunction of membership over their arguments, and two sets are Equal exactly if they have the same members. A Clone has the same members and shares no state with its original.",
  ["inputs", "histories"], "All value types, arguments and histories.",
  "The one test samples a handful of values, is flaky, and covers neither HasAll, HasAny, Equals nor Clone.",
  ["collections/set.go"], [("direct map operations", "Set.*")], [("members", "current members", "Set.m")], ["Set"])
# ---------------------------------------------------------------- GuavaMap
p("G01", "A bounded GuavaMap never exceeds its limit and evicts oldest entries first",
  "With a maximum count configured, a GuavaMap never holds more entries than that maximum once an operation returns, whichever operation inserts (Get with a loader, Set, HasOrCreate, LockForUpdate). An entry is evicted only to make room for a new key in a full map, and it is the entry inserted longest ago; without a maximum nothing is evicted and the insertion order of keys that are gone is not kept.",
  ["inputs", "histories", "schedules"], "All maxima, all histories and interleavings of inserting and removing operations and expiries.",
  "Tests insert distinct keys in sequence through single operations; mixed histories and LockForUpdate are never bounded-checked.",
  ["collections/guava_map.go"], [("order list kept in step with the entries, eviction of its head when full", "GuavaMap.Get, Set, HasOrCreate, LockForUpdate, safeDelete, Clear")],
  [("entries", "current key/holder pairs", "GuavaMap.stored"), ("order list", "keys by insertion age", "GuavaMap.storedSlice")], ["GuavaMap"])
p("G02", "GuavaMap unloads each removed entry exactly once, with its own value",
  "Whenever an entry leaves a GuavaMap, by Delete, Clear, eviction or expiry, the unload function (if configured) is called exactly once with that entry's key and the value it held, and never for a key that was not present. Removing an absent key has no effect and does not fail.",
  ["inputs", "histories", "schedules"], "All removal causes, keys present or absent, with and without an unload function.",
  "Tests count unload calls on present keys only; the absent-key case with an unload function and Clear are not covered.",
  ["collections/guava_map.go"], [("unload call next to the removal", "GuavaMap.safeDelete, GuavaMap.Clear")],
  [("entries", "current key/holder pairs", "GuavaMap.stored")], ["unload function"])
p("G03", "GuavaMap loads a missing key through its loader and caches only successes",
  "Get returns the stored value without calling the loader when the key is present; otherwise it calls the loader with that key, returns the loader's error without storing anything, or stores and returns what the map then holds for the key. With load locking enabled, concurrent Gets of one missing key make a single successful load, and the per-key load lock is released on every path.",
  ["schedules", "inputs", "fault_sequences"], "All interleavings of Gets, loader results and loader failures.",
  "The load-locking test is flaky because of exactly this race; failures under load locking are not tested.",
  ["collections/guava_map.go", "collections/lock_map.go"], [("per-key load lock held from recheck to store", "GuavaMap.Get")],
  [("entries", "current key/holder pairs", "GuavaMap.stored")], ["load function", "GuavaMap.Get"])
p("G04", "GuavaMap expiry removes only the entry it was armed for",
  "If a read or write timeout is configured every entry gets an expiry timer when it is created, the timer of an entry only ever removes that very entry and never a newer entry stored under the same key, and no entry expires when no timeout is configured. A write restarts the write timeout (or, without one, the read timeout), and a successful read restarts the read timeout if one is configured.",
  ["histories", "schedules", "configurations"], "All timeout settings and all interleavings of expiry with Delete, Clear, Set and re-insertion.",
  "Tests let entries expire undisturbed; replacing an entry around the moment of expiry needs a particular interleaving.",
  ["collections/guava_map.go"], [("identity check and cancellation in the timer goroutine", "GuavaMap.createHolder"), ("timer reset on access", "GuavaMap.Get, Has, HasOrCreate, Set")],
  [("entry timer", "expiry of one entry", "guavaHolder.timer")], ["GuavaMap"])
p("G05", "LockForUpdate serialises updates of one key and publishes the result",
  "Two LockForUpdate calls for the same key never run their update functions at the same time, even if the key is deleted or expires or the map is cleared meanwhile. The result of the update function is stored under the key before another update of that key can start and is what the call returns, and the update function runs exactly once, without blocking operations on other keys.",
  ["schedules", "inputs", "histories"], "All interleavings of LockForUpdate with itself and with removals.",
  "LockForUpdate has no test.",
  ["collections/guava_map.go"], [("per-key update lock held over update and store", "GuavaMap.LockForUpdate")],
  [("per-key update locks", "serialise updates", "GuavaMap.updateLockMap")], ["GuavaMap.LockForUpdate"])
p("G06", "GuavaMap point operations are atomic map operations",
  "Set makes the given value the current one for the key whether or not it was present, Delete makes it absent, Clear empties the map, and Size, Has and GetStored report exactly the stored entries. HasOrCreate returns true exactly if the key was present, leaving its value alone, and otherwise stores the given value, so of concurrent calls for an absent key exactly one returns false.",
  ["schedules", "inputs", "histories"], "All keys, values, histories and interleavings.",
  "Tests drive HasOrCreate sequentially with distinct keys and never GetStored or Clear.",
  ["collections/guava_map.go"], [("critical sections around each operation", "GuavaMap.Set, HasOrCreate, Has, Delete, Clear, Size, GetStored")],
  [("entries", "current key/holder pairs", "GuavaMap.stored")], ["GuavaMap"])
p("G07", "GuavaMap keeps no goroutine, timer or lock for a key that is gone",
  "When an entry leaves a GuavaMap by Delete, Clear or eviction, its expiry goroutine is told to end at once instead of waiting for the timeout. The per-key lock LockForUpdate uses is kept only while some update of that key is waiting or running and is dropped after the last one, a panicking update function included.",
  ["histories", "schedules", "fault_sequences"], "All histories of insertion, removal and update, panicking update functions included.",
  "Tests never look at goroutines or at memory retained per key; the leak shows only after many keys.",
  ["collections/guava_map.go"], [("cancel function kept in the entry", "GuavaMap.createHolder, safeDelete, Clear"), ("use count of the per-key update lock", "GuavaMap.LockForUpdate, acquireKeyLock, releaseKeyLock")],
  [("entry cancel function", "ends the expiry goroutine of one entry", "guavaHolder.cancelFn"), ("per-key update locks", "locks of keys under update", "GuavaMap.updateLockMap")], ["goroutine exit", "retained memory"])
# ---------------------------------------------------------------- RequestMap
p("R01", "RequestMap runs the function at most once per key and cached result",
  "For each key, from the first GetOrCreate or GetOrCreateWithErr until its result expires, the creating function is called exactly once however many callers arrive concurrently, through either method, and it is called with that key. A caller finding a cached or preloaded result never causes a call.",
  ["schedules", "inputs", "histories"], "All interleavings of callers, completion and expiry.",
  "Tests sample schedules with sleeps; the deduplication window around completion is never forced.",
  ["collections/request_map.go"], [("check of results and waiters and registration in one critical section", "RequestMap.GetOrCreate, GetOrCreateWithErr"), ("result published in the section that removes the waiters", "RequestMap.GetOrCreate, GetOrCreateWithErr")],
  [("in-flight waiters", "callers waiting per key", "RequestMap.waiters"), ("results", "finished results per key", "RequestMap.response")], ["creating function"])
p("R02", "RequestMap hands every caller of a key the one result, and none waits forever",
  "Every caller of GetOrCreate or GetOrCreateWithErr for a key receives the value, and with the latter also the error, that the single call for that key produced, or the cached pair. Once the creating function returns, every caller registered for the key is woken exactly once, whenever it registered, and waking them never blocks the map.",
  ["schedules", "inputs", "histories"], "All interleavings of registration and completion, all results and errors.",
  "Error delivery is untested and the lost-wakeup window is schedule-dependent.",
  ["collections/request_map.go"], [("buffered per-caller channel registered under the lock", "RequestMap.GetOrCreate, GetOrCreateWithErr"), ("send to all registered channels, then removal, under the lock", "RequestMap.GetOrCreate, GetOrCreateWithErr")],
  [("in-flight waiters", "callers waiting per key", "RequestMap.waiters")], ["RequestMap.GetOrCreate", "RequestMap.GetOrCreateWithErr"])
p("R03", "RequestMap results expire after their lifetime, never earlier",
  "Every cached result, preloaded ones included, becomes eligible for removal once it is older than the configured lifetime and is then removed by the periodic cleanup while the map's context is live. A result younger than its lifetime is never removed, in particular not because an older result of the same key expired before.",
  ["histories", "schedules"], "All histories of creation, expiry and re-creation, and all relations of cleanup ticks to them.",
  "One test expires a key once; repeated expiry of one key and preloaded results are not covered.",
  ["collections/request_map.go"], [("age-ordered result list walked by the cleaner", "RequestMap.rmWorker"), ("every result appended to that list", "RequestMap.GetOrCreate, GetOrCreateWithErr, NewRequestMap")],
  [("expiry list", "results by age", "RequestMap.resultSlice"), ("results", "finished results per key", "RequestMap.response")], ["RequestMap.Count", "creating function calls"])
p("R04", "RequestMap.Timeout returns the function's result or ErrTimeout and leaks nothing",
  "The wrapped function calls the original exactly once with the given key and returns its value and error if they arrive within the duration, else the zero value with ErrTimeout. A late result never blocks the goroutine producing it.",
  ["schedules", "inputs"], "All durations, results and orders of completion and timeout.",
  "The test covers the timeout branch once and does not look for the leaked goroutine.",
  ["collections/request_map.go"], [("buffered result channel and select against a timer", "RequestMap.Timeout")], (), ["wrapped function"])
# ---------------------------------------------------------------- ResponseMap / HolderMap / WaitMap
p("I01", "Count of the waiting maps is the number of their entries at one moment",
  "RequestMap.Count and WaitMap.Count return the number of keys with waiters plus the number of keys with a kept result, and HolderMap.Count the number of keys with an entry, all as of one moment, so no key in transition is missed or counted twice.",
  ["schedules", "histories"], "All states and interleavings with registrations, completions and expiries.",
  "Tests read Count only in quiescent states.",
  ["collections/request_map.go", "collections/wait_map.go", "collections/holder_map.go"], [("both tables read in one critical section", "RequestMap.Count, WaitMap.Count, HolderMap.Count")],
  [("waiters and results", "keys waiting and keys settled", "RequestMap.waiters, RequestMap.response, WaitMap.waiterChannels, WaitMap.dataHolder, HolderMap.m")], ["Count"])
p("P01", "ResponseMap wakes every waiter with the response or a zero value",
  "Every Wait on a ResponseMap returns: with the value set for the key if one is set before the key times out or is cleaned up, and with the zero value once the response timeout fires, the entry is cleaned up, or the context ends. No interleaving of Wait with Set, timeout or cleanup leaves a waiter registered that nobody will wake.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of Wait, Set, timeout, cleanup and cancellation.",
  "Tests separate registration and wakeup by sleeps, so the windows between them are never hit.",
  ["collections/response_map.go"], [("registration and wakeup under the entry's lock", "chansHolder.wait, newChansHolder"), ("cleanup loop", "ResponseMap.clear")],
  [("listeners", "waiters of one key", "chansHolder.listeners")], ["ResponseMap.Wait"])
p("P02", "ResponseMap.Set never blocks or panics and the first value wins",
  "Set on a ResponseMap returns promptly and never panics, however often it is called for a key and whatever timeouts or cleanups happen meanwhile. All waiters of a key, present and later, see the first value set until the entry is cleaned up.",
  ["schedules", "histories"], "All interleavings of any number of Set calls with waits, timeouts and cleanup.",
  "The one repeated-Set test uses a single schedule without waiters or cleanup in between.",
  ["collections/response_map.go"], [("existence check and store in one critical section", "chansHolder.set")],
  [("value and existence flag", "response of one key", "chansHolder.data, isExist")], ["ResponseMap.Set", "ResponseMap.Wait"])
p("P03", "ResponseMap drops entries after the clear timeout and releases their resources",
  "While the context is live, an entry older than the clear timeout is removed by the periodic cleanup, its goroutine ends and its timer is stopped, and a younger entry is never removed. When the context ends, the cleanup goroutine and all entry goroutines end as well.",
  ["histories", "schedules", "fault_sequences"], "All ages of entries relative to cleanup ticks and all moments of cancellation.",
  "Tests check that the table is empty at the end, not that young entries survive or goroutines end.",
  ["collections/response_map.go"], [("cleanup loop cancelling and deleting expired entries", "ResponseMap.clear"), ("entry goroutine ending on its context", "newChansHolder")],
  [("entries", "one holder per key", "ResponseMap.m")], ["goroutine exit", "ResponseMap.Wait"])
p("D01", "HolderMap.Wait returns the one verdict of its key to every waiter",
  "Every HolderMap.Wait for a key returns the same verdict: nil after Release, the given error after Error, a timeout error if neither comes in time, or the context's error if the context ends first. This includes waiters that arrive while or after the verdict is given, as long as the key exists; none waits forever.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of Wait, Release, Error, timeout and cancellation.",
  "The only test is flaky and never overlaps Wait with Release or cancels the context.",
  ["collections/holder_map.go"], [("registration under the entry's lock after checking the released flag", "HolderMap.Wait"), ("verdict goroutine waking all registered waiters under the lock", "HolderMap.Wait")],
  [("waiters and verdict", "registered waiters, released flag and error of one key", "holderMapHolder")], ["HolderMap.Wait"])
p("D02", "HolderMap calls never block on a settled key and report missing keys",
  "Release and Error return promptly however often they are called for a key, Update, Release and Error report an error exactly if the key is not held, and Get fails with a not-found error for such a key. Get on a held key returns the object given by the latest Update, or else by the Wait that created the key, together with the error verdict given so far; the key disappears a fixed time after its verdict.",
  ["schedules", "histories"], "All histories of calls on a key, repeated Release and Error included.",
  "Tests release a key once.",
  ["collections/holder_map.go"], [("non-blocking hand-over of the verdict", "HolderMap.Release, HolderMap.Error"), ("delayed removal", "HolderMap.Wait")],
  [("held keys", "holders by key", "HolderMap.m")], ["HolderMap.Release", "HolderMap.Error", "HolderMap.Get", "HolderMap.Update"])
p("V01", "WaitMap delivers one value to every waiter and none waits forever",
  "Every WaitMap.Wait returns: with the value present or set for the key, or with the zero value once the request timeout passes or the context ends. Every waiter registered when a value is set is woken exactly once with that value, and waking never blocks the map.",
  ["schedules", "histories", "fault_sequences"], "All interleavings of Wait, Set, timeout and cancellation.",
  "Tests sample schedules with sleeps and never cancel.",
  ["collections/wait_map.go"], [("registration in the section that checked for a value", "WaitMap.Wait"), ("send, close and removal of all waiters under the lock", "WaitMap.Set, WaitMap.Wait")],
  [("waiters", "waiting callers per key", "WaitMap.waiterChannels"), ("values", "values per key", "WaitMap.dataHolder")], ["WaitMap.Wait"])
p("V02", "WaitMap keeps the first value until its lifetime ends, and timeouts stay local",
  "The first value set for a key stays until its response lifetime passes (or the context ends), later Sets in between are ignored, and then it is removed so that the key starts afresh. A request timeout only ever answers the waiters it was armed for: it never stores a value for a key whose waiters were already served, nor cuts short a later wait.",
  ["histories", "schedules"], "All histories of waits, sets, lifetimes and timeouts on one key.",
  "Tests use a request timeout shorter than the lifetime, so a stale timeout never meets a fresh key.",
  ["collections/wait_map.go"], [("presence check before storing", "WaitMap.Set"), ("removal goroutine armed with each stored value", "WaitMap.Set"), ("timeout goroutine armed by the first waiter", "WaitMap.Wait")],
  [("values", "values per key", "WaitMap.dataHolder")], ["WaitMap.Wait", "WaitMap.Set"])
p("U01", "StructUniqSet.Add reports a value as new exactly once while it is present",
  "Add returns true exactly if the value's hash was absent and makes it present in the same atomic step, so of concurrent Adds of equal values exactly one returns true; Remove in one atomic step makes the hash absent and reports whether it was present; Has answers for the same hash. The hash is the one computed by the configured build function, and its error is returned without changing the set; the build function used when none is configured identifies a value by the MD5 digest of its complete gob encoding, or fails.",
  ["schedules", "inputs", "histories", "configurations"], "All values, build functions, histories and interleavings.",
  "StructUniqSet has no test.",
  ["collections/struct_uniq_set.go"], [("recheck under the write lock", "StructUniqSet.Add"), ("hash computation", "StructUniqSet.getHashCode")],
  [("elements", "present hashes", "StructUniqSet.elements")], ["StructUniqSet.Add", "Has", "Remove"])
p("U02", "StructUniqSet expiry removes exactly the elements past their lifetime",
  "An element older than the configured lifetime is removed by the periodic cleanup while the context is live, a younger one never is, not even when an older element with the same hash was removed or expired before. The cleanup never fails, in particular not on an empty set.",
  ["histories", "schedules"], "All histories of Add, Remove and expiry, empty sets included, and all cleanup ticks.",
  "StructUniqSet has no test.",
  ["collections/struct_uniq_set.go"], [("age-ordered element list walked by the cleaner", "StructUniqSetBuilder.Build")],
  [("expiry list", "elements by age", "StructUniqSet.ttlElements")], ["StructUniqSet.Has", "StructUniqSet.Count"])
# ---------------------------------------------------------------- cross-cutting
p("B01", "Every builder option takes effect",
  "For every builder in the library, the value given to an option is the one the built object uses for that option's purpose, in any order of option calls, and each option changes nothing else. An option that is not given keeps its default. A built object is independent of its builder: later option calls, or another Build, do not affect it.",
  ["configurations", "inputs"], "All builders, options and combinations.",
  "Tests set a few options and rarely observe their effect; an ignored or swapped option passes them.",
  ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", "workers/runner.go", "collections/guava_map.go", "collections/hash_set.go", "collections/holder_map.go", "collections/request_map.go", "collections/response_map.go", "collections/shard_map.go", "collections/struct_uniq_set.go", "collections/wait_map.go", "crypto_fs/crypto_fs.go"],
  [("option setters and Build", "With* and Build methods")], (), ["built objects"])
p("B02", "Sharded builders refuse to build without a shard function",
  "ShardChan and ShardChunk Build return ErrShardFuncIsNil and no object exactly if no shard function was given, and have then started no goroutine; with one given they return an object and no error.",
  ["configurations"], "All combinations of builder options.",
  "The tests always give a shard function.",
  ["chans/shard_chan.go", "chans/shard_chunk_chan.go"], [("nil test of the shard function", "ShardChanBuilder.Build, ShardChunkBuilder.Build")], (), ["Build"])
p("Q01", "The concurrent types are free of data races",
  "For every type of the library meant for concurrent use (all collections except Set, plus the channel utilities and Runner), any two concurrent method calls, and any method call concurrent with the type's own background goroutines, are free of data races on the library's state.",
  ["schedules", "histories"], "All pairs of operations and background goroutines, all interleavings.",
  "Tests do not run under the race detector and cover few pairs of operations.",
  ["collections/guava_map.go", "collections/hash_set.go", "collections/holder_map.go", "collections/lock_map.go", "collections/map.go", "collections/request_map.go", "collections/response_map.go", "collections/shard_map.go", "collections/struct_uniq_set.go", "collections/two_key_map.go", "collections/wait_map.go", "chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", "workers/runner.go"],
  [("one lock consistently guarding each mutable field", "every method and goroutine")], (), ["shared fields"])
p("Q02", "Library locks are always released and never cause deadlock",
  "Every lock the library takes internally is released on every way out of the call or goroutine that took it, a panicking user callback included; no goroutine acquires a lock it already holds, and locks are never acquired in conflicting orders. No library lock is held across an operation that can block indefinitely, and user callbacks run without library-wide locks except the value function of SetIfNotExistsWithFunc.",
  ["schedules", "inputs", "fault_sequences"], "All paths through every operation, all interleavings, panicking callbacks included.",
  "Tests take the common path of each operation and never a panicking callback.",
  ["collections/guava_map.go", "collections/hash_set.go", "collections/holder_map.go", "collections/lock_map.go", "collections/map.go", "collections/request_map.go", "collections/response_map.go", "collections/shard_map.go", "collections/struct_uniq_set.go", "collections/two_key_map.go", "collections/wait_map.go"],
  [("lock/unlock pairing", "every method and goroutine")], (), ["callers blocked forever"])
p("Q03", "No library operation or goroutine fails by itself",
  "With configured counts, sizes and durations positive and the shard function of a ShardMap in range, no call on the library and none of its goroutines panics on its own account: for every history and interleaving no index or slice bound is outside its list, no nil map is written, no nil pointer or absent optional function is used, nothing is divided by zero, and no explicit panic is reached. (The fixed-width byte helpers of the net package, which demand enough input bytes, are excepted.)",
  ["inputs", "histories", "schedules", "configurations"], "All inputs, histories, interleavings and combinations of given and absent options.",
  "A panic in a background goroutine needs one particular history, such as a cleanup tick on an empty list, and tests take few.",
  ["chans/chunk_chan.go", "chans/shard_chan.go", "chans/shard_chunk_chan.go", "workers/runner.go", "collections/guava_map.go", "collections/hash_set.go", "collections/holder_map.go", "collections/lock_map.go", "collections/map.go", "collections/request_map.go", "collections/response_map.go", "collections/set.go", "collections/shard_map.go", "collections/struct_uniq_set.go", "collections/two_key_map.go", "collections/wait_map.go", "crypto_fs/crypto_fs.go", "flow/processor.go", "comparer/comparer.go", "zip/gzip.go"],
  [("length, presence and nil tests ahead of each use", "every method and goroutine")], (), ["panics"])
p("Q04", "Tickers, timers and files of the library are released",
  "Every ticker or timer that a goroutine of the library waits on is stopped (or, for a timer, has fired) by the time that goroutine ends, and every file the library opens is closed on every way out of the call that opened it, failures included.",
  ["schedules", "fault_sequences", "histories"], "All ways out of every goroutine and call, I/O failures included.",
  "Leaked handles and tickers are invisible to assertions on results and appear only after many operations or on failures.",
  ["chans/chunk_chan.go", "collections/guava_map.go", "collections/holder_map.go", "collections/response_map.go", "crypto_fs/crypto_fs.go"],
  [("deferred Stop and Close", "ChunkChan.run, GuavaMap.createHolder, HolderMap.Wait, ResponseMap entries and cleanup, CryptoFSBuilder.AddFile, Save")], (), ["file descriptors", "runtime timers"])
# ---------------------------------------------------------------- crypto, fs, zip, net, math, comparer, flow
p("A01", "AES.Encrypt uses a fresh random nonce and authenticated encryption every time",
  "Every successful Encrypt returns the nonce followed by the AES-GCM sealing of the whole input under the instance's key, with a full-length nonce newly drawn from the operating system's secure random source for that call. If the key is unusable or randomness fails, an error and no ciphertext is returned.",
  ["inputs", "fault_sequences", "histories"], "All keys, inputs and failures, all sequences of calls.",
  "Nonce freshness is a property of all calls and the crypto package has no tests.",
  ["crypto/aes.go"], [("nonce drawn and checked before sealing", "AES.Encrypt")], (), ["AES.Encrypt"])
p("A02", "AES.Decrypt returns only authenticated plaintext and never panics",
  "For every input, however short or corrupted, Decrypt either returns the plaintext whose authentication under the instance's key succeeded or an error, and never panics. It takes the nonce from the front of the input exactly as Encrypt puts it there.",
  ["inputs", "fault_sequences"], "All byte strings, the empty one included, and all keys.",
  "The crypto package has no tests; crypto_fs only decrypts well-formed archives.",
  ["crypto/aes.go"], [("length check, split, authenticated open, error return", "AES.Decrypt")], (), ["AES.Decrypt"])
p("J01", "MD5 helpers hash exactly their argument and agree with each other",
  "For every string, GetMD5HashBytes returns the sixteen bytes of the MD5 digest of its bytes and GetMD5Hash the lower-case hexadecimal form of the same digest.",
  ["inputs"], "All strings.", "The crypto package has no tests.",
  ["crypto/hash.go"], [("digest then encoding", "GetMD5Hash, GetMD5HashBytes")], (), ["GetMD5Hash", "GetMD5HashBytes"])
p("F01", "CryptoFS.Save writes only ciphertext when a key is set and reports every failure",
  "If an AES secret is configured, everything Save puts on disk is the encryption under that secret of the serialised files, never plaintext. Save returns nil only if encoding, encryption, creation, the complete write and closing the file all succeeded.",
  ["inputs", "fault_sequences", "configurations"], "All contents and secrets, and a failure at every step.",
  "Tests save once with a key, on the success path only, and do not look at the bytes.",
  ["crypto_fs/crypto_fs.go"], [("encrypt before write, error checks", "CryptoFSBuilder.Save")], (), ["file at the save path", "Save result"])
p("F02", "Files opened from a CryptoFS read like ordinary files",
  "Opening a stored path gives a file whose successive Reads deliver its stored content once, in order, and then io.EOF, independently of any other open handle, and whose Stat reports the stored name, size and kind. Opening or listing a path that is not stored fails with fs.ErrNotExist, listing a file fails, and listing a directory gives exactly its stored entries.",
  ["inputs", "histories"], "All stored trees, paths, buffer sizes and sequences of Reads.",
  "The only running test walks the tree and never reads to the end of a file.",
  ["crypto_fs/crypto_fs.go"], [("per-handle read position", "cryptoFS.Open"), ("lookup by path", "cryptoFS.Open, cryptoFS.ReadDir")],
  [("files", "stored files by path", "cryptoFS.files")], ["CryptoFS.Open", "CryptoFS.ReadDir", "fs.File.Read"])
p("F03", "CryptoFSFromFile yields a file system only from a fully decoded archive",
  "CryptoFSFromFile returns a usable file system only if reading, decryption (whenever a secret is given) and decoding of the whole archive succeeded, and otherwise an error and no file system. With a secret given, unauthenticated archive bytes are never decoded.",
  ["inputs", "fault_sequences"], "All archive contents and secrets, and a failure at every step.",
  "Tests open archives with the right secret only.",
  ["crypto_fs/crypto_fs.go"], [("error checks and decrypt-before-decode", "CryptoFSFromFile")], (), ["CryptoFSFromFile"])
p("F04", "CryptoFS building stores each visited path once with its own content",
  "AddFile stores a readable file, and AddFolder stores every file and directory it reaches under the root directory, each under its own path with its own name, kind, full content or full directory listing. Missing or unreadable paths never crash the builder, and no entry is stored for a path whose reading failed.",
  ["inputs", "fault_sequences"], "All directory trees and paths, missing and unreadable ones included.",
  "One test adds one small folder; missing folders crash and are not tested.",
  ["crypto_fs/crypto_fs.go"], [("error checks before storing", "CryptoFSBuilder.AddFile, CryptoFSBuilder.AddFolder")],
  [("files", "collected files by path", "CryptoFSBuilder.files")], ["CryptoFS.Open after Save"])
p("Z01", "GZip helpers return complete data or an error",
  "GZipData returns success only with a complete, closed gzip stream of exactly its whole input, and GUnzipData returns success only after reading the stream to its verified end, with everything it contained. Any failure in between is returned as an error without data.",
  ["inputs", "fault_sequences"], "All byte strings, truncated and corrupted streams included.",
  "The test round-trips one text and no corrupted stream.",
  ["zip/gzip.go"], [("close before taking the bytes, error checks", "GZipData"), ("read to end, error checks", "GUnzipData")], (), ["GZipData", "GUnzipData"])
p("N01", "ReadNBytes returns exactly n bytes or an error, and a deadline covers one call",
  "ReadNBytes and ReadNBytesWithTimeout return either exactly the next n bytes of the connection in order and no error, or an error, never a short result as success. The timeout variant arms the read deadline from the given timeout before reading, fails if that cannot be done, and leaves no deadline behind for later reads.",
  ["inputs", "fault_sequences"], "All n, all fragmentations and failures of the connection, all sequences of calls.",
  "The net package has no tests.",
  ["net/read.go"], [("full read and error check", "ReadNBytes, ReadNBytesWithTimeout"), ("deadline armed and cleared", "ReadNBytesWithTimeout")], (), ["ReadNBytes", "ReadNBytesWithTimeout"])
p("N02", "Integer packing and unpacking agree on width, byte order and type",
  "For each supported unsigned type, PackUint produces exactly that type's width in the given byte order and UnpackUint reads back that width in that order into the same type; unsupported types are rejected by both. The fixed-width and variable-width helpers and the size prefixes are little-endian with matching encode and decode sides.",
  ["inputs"], "All supported types, byte orders and values of matching width.",
  "The net package has no tests.",
  ["net/to_bytes.go"], [("type switches over the unsigned types", "PackUint, UnpackUint"), ("shift by eight bits per byte", "GetBytesFromInt, GetIntFromBytes"), ("length prefix", "AddSize16, AddSize32")], (), ["net package functions"])
p("N03", "Byte-slice helpers partition and convert without loss",
  "Chunk with a positive size splits its input into consecutive pieces of that size, the last possibly shorter and none empty, whose concatenation is the input. BoolArrayToByte and ByteToBoolArray map flag i to bit i mod 8 of byte i div 8 and back, and CopyBytes and CreateAllTrueBoolArray return fresh, fully initialised slices.",
  ["inputs"], "All inputs and positive sizes.",
  "The net package has no tests.",
  ["net/to_bytes.go"], [("stepping loop with clamped end", "Chunk"), ("bit loops", "BoolArrayToByte, ByteToBoolArray")], (), ["net package functions"])
p("X01", "Every Min and Max variant returns the smaller or larger argument",
  "For every ordered pair of arguments of its type, each Min function returns an argument that is not greater than the other and each Max function one that is not less than the other; for every type both are provided and both take and return that type.",
  ["inputs"], "All argument pairs of all twelve numeric types.",
  "There is no test for these functions.",
  ["math/minmax.go"], [("comparison and return", "Min*, Max*")], (), ["math.Min*", "math.Max*"])
p("X02", "IntPointMove scales by ten once per shift step",
  "IntPointMove returns its value unchanged for shift zero, multiplied by ten exactly shift times for a positive shift, and divided by ten (truncating) exactly minus-shift times for a negative one, for all values where no intermediate result overflows.",
  ["inputs"], "All values and shifts without overflow.",
  "The test checks one step in each direction.",
  ["math/decimal_int.go"], [("counted loops", "IntPointMove")], (), ["math.IntPointMove"])
p("K01", "CompareSlice partitions by identity into deleted, created and modified",
  "CompareSlice returns, in input order and with repetitions kept, exactly the current elements whose id does not occur in the new slice, exactly the new elements whose id does not occur in the current slice, and exactly the current elements whose id occurs in both. The inputs are not modified.",
  ["inputs"], "All slices, empty, nil and repeated ids included.",
  "The test compares only the lengths of the results for one input.",
  ["comparer/comparer.go"], [("id sets and filtering loops", "CompareSlice")], (), ["CompareSlice"])
p("E01", "Processor routes run in order and stop at the first error",
  "A built processor runs the routes in the order they were added and each route's conditions and actions in the order they were declared; the first error returned, or the first condition that does not hold, ends the run, and that error (or a non-nil one for a failed condition) is returned. If every step succeeds it returns nil, and no action runs before all conditions declared ahead of it held for the same event and state. Routes added to the builder afterwards do not change a processor already built.",
  ["inputs", "histories", "programs"], "All route definitions, events and states.",
  "The processor tests do not compile at this commit.",
  ["flow/processor.go"], [("chain evaluation", "ProcessorBuilder.Build"), ("condition step", "ProcessorRouterBuilder.On"), ("route registration", "ProcessorBuilder.Route, RouteOn")],
  [("routes", "registered chains in order", "ProcessorBuilder.routes")], ["built processor function"])
# ---------------------------------------------------------------- not claimed
p("O01", "Expiry and flush timing stays within stated bounds",
  "Every expiry, timeout and partial-chunk flush happens no earlier than its configured duration and no later than that duration plus one polling interval, for every load and schedule.",
  ["schedules", "configurations"], "All durations and loads.", "Tests use coarse sleeps.",
  ["collections/guava_map.go", "collections/wait_map.go", "collections/holder_map.go", "chans/chunk_chan.go"], [("timers and tickers", "all time-driven goroutines")], (), ["wall-clock time"])
p("O02", "Archive, gzip and AES round trips restore the exact bytes",
  "For all inputs, decoding what was encoded (gzip and gunzip, encrypt and decrypt with one key, save and load of an archive) yields byte-for-byte the original data.",
  ["inputs"], "All byte strings and trees.", "Tests round-trip one text.",
  ["zip/gzip.go", "crypto/aes.go", "crypto_fs/crypto_fs.go"], [("standard library codecs", "GZipData, GUnzipData, AES, gob")], (), ["round trip results"])
p("O03", "Waiters and workers are served fairly",
  "Under continuous load every waiting caller and every non-empty shard or task queue is eventually served, with no starvation of one select case or lock waiter by others.",
  ["schedules"], "All infinite fair schedules.", "Tests are short.",
  ["workers/runner.go", "chans/shard_chan.go", "collections/lock_map.go"], [("Go runtime select and mutex fairness", "runtime")], (), ["progress of each caller"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")

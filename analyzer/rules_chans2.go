package main

import "go/token"

// ShardChunk (C04), cancellation (C05), Runner (W01) and the keyed mutexes (L01).

// chunkerOf: the channel belongs to the chunker at an index of the collection.
func (p *pipe) chunkerOf(ch *Term, field, coll string) *Term {
	if ch == nil {
		return nil
	}
	if f, b := fieldBase(ch); f == field && b != nil {
		if g, i := p.slot(b); g == coll {
			return i
		}
		return nil
	}
	for obj := range p.holders(ch, field) {
		if g, i := p.slot(obj); g == coll {
			return i
		}
	}
	return nil
}

// holders: the objects a construction stored the value in.
func (p *pipe) holders(v *Term, field string) map[*Term]bool {
	out := map[*Term]bool{}
	for _, q := range p.Procs {
		for _, t := range q.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Loc.S == field && e.Val == v {
					out[e.Loc.Args[0]] = true
				}
			}
		}
	}
	return out
}

func ruleC04(c *Chk) {
	procs := c.family("chans", "ShardChunk", "ShardChunkBuilder", "NewShardChunk")
	p := c.pipe("chans.ShardChunkBuilder.Build", procs, union2(c.optionFields("chans.ShardChunkBuilder", "WithContext"), c.optionFields("chans.ShardChanBuilder", "WithContext"), c.optionFields("chans.ChunkChanBuilder", "WithContext")))
	in, out := c.getter("chans.ChunkChan.Incoming"), c.getter("chans.ChunkChan.C")
	shards, chunkers := "", ""
	for _, t := range returns(c.P("chans.ShardChan.C")) {
		if f, _ := slotOf(t.Ret[0]); f != "" {
			shards = f
		}
	}
	get := c.P("chans.ShardChunk.C")
	for _, t := range returns(get) {
		if f, b := fieldBase(t.Ret[0]); f == out && b != nil {
			chunkers, _ = slotOf(b)
		}
	}
	if p.Build == nil || in == "" || out == "" || shards == "" || chunkers == "" {
		c.bad("anchor", "chans.ShardChunk", "the shard channels, the chunkers or their channels are not kept in known fields")
		return
	}
	c.stays(procs, p.ctx)
	count := c.optionFields("chans.ShardChunkBuilder", "WithShardCount")
	own := map[string]map[string]bool{}
	for _, o := range []string{"WithChunkSize", "WithChunkTimeout", "WithShardCount", "WithShardFunc", "WithIncomingChan", "WithContext"} {
		own[o] = c.optionFields("chans.ShardChunkBuilder", o)
	}
	for f := range c.optionFields("chans.ShardChanBuilder", "WithShardCount") {
		count[f] = true
	}
	work := c.optionFields("chans.ShardChunkBuilder", "WithShardWorker")
	sinks := map[string]map[string]bool{
		"WithChunkSize":    c.optionFields("chans.ChunkChanBuilder", "WithChunkSize"),
		"WithChunkTimeout": c.optionFields("chans.ChunkChanBuilder", "WithChunkTimeout"),
	}
	sharderSinks := map[string]map[string]bool{
		"WithShardCount":   c.optionFields("chans.ShardChanBuilder", "WithShardCount"),
		"WithShardFunc":    c.optionFields("chans.ShardChanBuilder", "WithShardFunc"),
		"WithIncomingChan": c.optionFields("chans.ShardChanBuilder", "WithIncomingChan"),
	}
	isShard := func(ch *Term) bool { f, _ := p.slot(ch); return f == shards }
	isOut := func(ch *Term) bool { return p.chunkerOf(ch, out, chunkers) != nil }
	isIn := func(ch *Term) bool { return p.chunkerOf(ch, in, chunkers) != nil }
	isRelay, isWorker, direct := map[*Proc]bool{}, map[*Proc]bool{}, map[*Proc]bool{}
	for _, q := range procs {
		for _, t := range q.Traces {
			if t.End == "cut" {
				continue
			}
			for _, e := range t.of("close") {
				c.check("open", !isShard(e.Ch) && !isIn(e.Ch) && !isOut(e.Ch), t, e, "a pipeline channel is closed under its users")
			}
			rs := t.received(isShard)
			for i, r := range rs {
				_, k := p.slot(r.Ch)
				if at := p.chunkerOf(r.Ch, in, chunkers); at != nil {
					// the chunker takes its items from the shard channel itself
					direct[q] = true
					c.check("relay", at == k, t, r, "a chunker takes items of another shard")
					continue
				}
				isRelay[q] = true
				if t.End == "panic" || t.closedRecv(r) {
					continue
				}
				next := 1 << 30
				if i+1 < len(rs) {
					next = rs[i+1].Seq
				}
				n := 0
				for _, e := range t.sends(func(*Term) bool { return true }) {
					if e.Seq < r.Seq || e.Seq > next {
						continue
					}
					n++
					v := e.Val
					if v == nil && e.Kind == "select" {
						v = e.Cases[e.Idx].Val
					}
					at := p.chunkerOf(e.Ch, in, chunkers)
					c.check("relay", v == r.Res && at != nil && t.eq(at, k), t, e, "an item of a shard is not handed to the chunker of that same shard")
				}
				c.check("relay", n == 1 || n == 0 && t.gaveUp(p.ctx, r.Seq), t, r, "an item of a shard is handed to its chunker %d times while the context is live", n)
				c.check("relay-index", c.servedIndex(p.Build, func(x *Proc) bool { return x == q }, k, count), t, r, "not every shard is served exactly once")
			}
			if len(rs) == 0 {
				for _, e := range t.sends(isIn) {
					c.check("relay", q.Kind == "go" && isRelay[q], t, e, "something else than a shard's relay puts items into its chunker")
				}
			}
			ws := t.received(isOut)
			for i, r := range ws {
				isWorker[q] = true
				if t.closedRecv(r) {
					continue
				}
				next := 1 << 30
				if i+1 < len(ws) {
					next = ws[i+1].Seq
				}
				k := p.chunkerOf(r.Ch, out, chunkers)
				c.check("work", c.handedTo(t, r, next, work, []*Term{k, r.Res}, nil) == 1 || t.gaveUp(p.ctx, r.Seq), t, r, "a chunk is not handed to the shard worker exactly once with its shard's index")
				c.check("work-index", c.servedIndex(p.Build, func(x *Proc) bool { return x == q }, k, count), t, r, "the shard workers do not serve each shard exactly once")
			}
			if q.Kind == "go" && t.End == "return" && (isRelay[q] || isWorker[q]) {
				drop := false
				for _, e := range t.received(func(*Term) bool { return true }) {
					drop = drop || t.closedRecv(e)
				}
				c.check("leaves", drop || t.ended(p.ctx, -1), t, nil, "a relay or worker ends while the context is live")
			}
		}
	}
	relay := func(q *Proc) bool { return isRelay[q] }
	worker := func(q *Proc) bool { return isWorker[q] }
	if len(isRelay) > 0 || len(direct) == 0 {
		c.perIndex("relays", "a shard's relay", p.Build, relay, count, nil)
	}
	c.perIndex("workers", "a shard's worker", p.Build, worker, count, func(t *Trace) bool {
		for _, f := range c.loadsOf(p, work, t) {
			if t.Facts.Eval(tEq(f, tNil)) == 1 {
				return true
			}
		}
		return false
	})
	c.makesAll("chunkers", p.Build, chunkers, count, "a chunker of its own", func(it *Trace, v *Term) bool {
		if v.Op != "new" {
			return false
		}
		fresh := false
		for _, e := range it.cycle() {
			fresh = fresh || e.Kind == "store" && e.Loc.Op == "faddr" && e.Loc.Args[0] == v && e.Loc.S == out && e.Val.Op == "mkchan" && madeIn(it, e.Val)
		}
		return fresh
	})
	// options reach the parts
	for _, t := range p.Build.Traces {
		if t.End == "cut" {
			continue
		}
		for _, e := range t.of("store") {
			if e.Loc.Op != "faddr" {
				continue
			}
			for o, s := range sinks {
				if s[e.Loc.S] && p.holdsChunker(t, e.Loc.Args[0], out) {
					c.check("passed", fromField(e.Val, own[o]), t, e, "the chunkers do not get the configured value of %s", o)
				}
			}
			for o, s := range sharderSinks {
				if !s[e.Loc.S] || !p.holdsShards(t, e.Loc.Args[0], shards) {
					continue
				}
				ok := fromField(e.Val, own[o])
				if o == "WithIncomingChan" && e.Val.Op == "mkchan" {
					// a channel of its own only when none was given
					for _, f := range t.Facts {
						if f.Atom.Op == "eq" && f.Val && (fromField(f.Atom.Args[0], own[o]) || fromField(f.Atom.Args[1], own[o])) {
							ok = true
						}
					}
				}
				c.check("passed", ok, t, e, "the sharder does not get the configured value of %s", o)
			}
		}
	}
	for _, t := range returns(get) {
		key := param(get, 1)
		if isNilVal(t.Ret[0]) {
			continue // C06
		}
		f, b := fieldBase(t.Ret[0])
		g, k := slotOf(b)
		c.check("channel", f == out && g == chunkers && t.eq(k, key), t, nil, "C does not return the chunk channel of the given shard")
	}
	c.atLeast("relay", 1)
	c.atLeast("work", 1)
	c.atLeast("passed", 3)
	c.atLeast("channel", 1)
}

func union2(ms ...map[string]bool) map[string]bool {
	out := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			out[k] = true
		}
	}
	return out
}

// holdsChunker: the object is a chunker (it owns an outgoing channel).
func (p *pipe) holdsChunker(t *Trace, obj *Term, out string) bool {
	return t.finalField(obj, out) != nil
}

func (p *pipe) holdsShards(t *Trace, obj *Term, shards string) bool {
	return t.finalField(obj, shards) != nil
}

// ---- C05 ----

func watches(t *Trace, e *Event, ctx map[string]bool) bool {
	if e.Kind == "select" {
		for _, cs := range e.Cases {
			if !cs.Send && isDone(&Event{Ch: cs.Ch}, ctx) {
				return true
			}
		}
		return false
	}
	return isDone(e, ctx)
}

// boundedLoop: the loop runs over a collection or a counter.
func boundedLoop(i *LoopInst) bool {
	if i.Mapiter != nil {
		return true
	}
	for _, v := range i.Phis {
		if i.sharedVar(v) || v.Term.T == nil || !isIntType(v.Term.T) {
			continue
		}
		if s, ok := inductionStep(i, v); !ok || s == 0 {
			continue
		}
		for _, ex := range i.Exits {
			for _, f := range ex.Facts {
				if f.Atom.Op == "lt" && f.Atom.Contains(v.Term) {
					return true
				}
			}
		}
	}
	return false
}

// cancels decides C05 for one set of goroutines and producers.
func (c *Chk) cancels(procs []*Proc, ctx map[string]bool, producers map[string]bool) {
	type site struct {
		fn  string
		pos int
	}
	at := func(e *Event) site { return site{fnOf(e), int(e.Pos)} }
	c.stays(procs, ctx)
	for _, q := range procs {
		goer := q.Kind == "go"
		if !goer && !producers[q.Name] {
			continue
		}
		// sites whose Done case always leads out of the goroutine
		bad := map[site]bool{}
		key := map[*Event]site{}
		for _, t := range q.Traces {
			for _, e := range t.Events {
				if (e.Kind == "select" || e.Kind == "recv") && watches(t, e, ctx) {
					key[e] = at(&Event{Fn: e.Fn, Pos: selPos(e)})
					if isDone(e, ctx) && (t.End == "back" && t.inCycle(e)) {
						bad[key[e]] = true
					}
				}
			}
		}
		for _, t := range q.Traces {
			if t.End == "cut" {
				continue
			}
			done := -1
			for _, e := range t.Events {
				blocking := false
				switch e.Kind {
				case "select":
					blocking = !e.Dflt
				case "recv", "send", "wait":
					blocking = true
				}
				if blocking && t.prefix(e) {
					continue
				}
				if blocking {
					c.check("watch", watches(t, e, ctx), t, e, "this blocks without watching the configured context")
					if done >= 0 && goer && !isDone(e, ctx) && !bad[key[t.Events[done]]] {
						c.check("leave", false, t, e, "the goroutine goes on waiting after it saw that the context has ended")
					}
				}
				if (e.Kind == "select" || e.Kind == "recv") && isDone(e, ctx) {
					done = indexOf(t.Events, e)
				}
				if e.Kind == "callback" && done >= 0 && goer && !bad[key[t.Events[done]]] {
					c.check("leave", false, t, e, "a callback is run after the goroutine saw that the context has ended")
				}
			}
			if t.End == "back" && !boundedLoop(t.Loop) {
				ok := false
				for _, e := range t.cycle() {
					if k, is := key[e]; is && !bad[k] && !isDone(e, ctx) && e.Seq >= 0 {
						ok = true
					}
					if e.Kind == "call" && e.Name == "(context.Context).Err" && ctxFrom(e.Args[0], ctx) && !t.nonNilErr(e.Res) && c.errLeaves(q, e) {
						ok = true
					}
				}
				c.check("loop", ok, t, nil, "an iteration of an endless loop does not end it when the context has ended")
			}
			if t.End == "halt" {
				c.check("watch", false, t, nil, "the goroutine blocks forever")
			}
		}
	}
}

// stays: goroutines that serve in an endless loop leave it only when the
// context has ended.
func (c *Chk) stays(procs []*Proc, ctx map[string]bool) {
	for _, q := range procs {
		if q.Kind != "go" || !q.endless() {
			continue
		}
		for _, t := range returns(q) {
			drop := false
			for _, e := range t.received(func(*Term) bool { return true }) {
				drop = drop || t.closedRecv(e)
			}
			c.check("stays", drop || t.ended(ctx, -1), t, nil, "the goroutine ends while the context is live")
		}
	}
}

// errLeaves: every path on which this Err call reported the end returns.
func (c *Chk) errLeaves(q *Proc, e *Event) bool {
	some := false
	for _, t := range q.Traces {
		for _, x := range t.of("call") {
			if x.Name == e.Name && x.Pos == e.Pos && t.nonNilErr(x.Res) {
				if t.End == "back" && t.inCycle(x) {
					return false
				}
				some = true
			}
		}
	}
	return some
}

func indexOf(evs []*Event, e *Event) int {
	for i, x := range evs {
		if x == e {
			return i
		}
	}
	return -1
}

// selPos identifies a select statement by its first case.
func selPos(e *Event) token.Pos {
	return e.Pos
}

func (p *Proc) endless() bool {
	for _, t := range p.Traces {
		if t.End == "back" && !boundedLoop(t.Loop) {
			return true
		}
	}
	return false
}

func ruleC05(c *Chk) {
	ctx := map[string]bool{}
	for _, b := range []string{"chans.ChunkChanBuilder", "chans.ShardChanBuilder", "chans.ShardChunkBuilder", "workers.RunnerBuilder"} {
		ctx = union2(ctx, c.optionFields(b, "WithContext"))
	}
	producers := map[string]bool{"chans.ChunkChan.Add": true, "chans.ShardChan.Add": true, "workers.Runner.Run": true, "workers.Runner.RunWithContext": true}
	for n := range producers {
		c.P(n)
	}
	c.cancels(c.family("chans", "ChunkChan", "ChunkChanBuilder"), ctx, producers)
	c.cancels(c.family("chans", "ShardChan", "ShardChanBuilder"), ctx, producers)
	c.cancels(c.family("chans", "ShardChunk", "ShardChunkBuilder"), ctx, producers)
	c.cancels(c.family("workers", "Runner", "RunnerBuilder"), ctx, producers)
	c.atLeast("watch", 10)
	c.atLeast("loop", 5)
	c.atLeast("stays", 3)
}

// ---- W01 ----

func ruleW01(c *Chk) {
	procs := c.family("workers", "Runner", "RunnerBuilder", "NewRunner")
	p := c.pipe("workers.RunnerBuilder.Build", procs, c.optionFields("workers.RunnerBuilder", "WithContext"))
	count := c.optionFields("workers.RunnerBuilder", "WithWorkerCount")
	chans := map[string]bool{} // queue -> with context
	for i, n := range []string{"workers.Runner.Run", "workers.Runner.RunWithContext"} {
		api := c.P(n)
		if api == nil {
			continue
		}
		f := ""
		for _, t := range api.Traces {
			for _, e := range t.sends(func(*Term) bool { return true }) {
				f = place(e.Ch)
			}
		}
		if f == "" {
			c.bad("anchor", n, "%s does not hand its function to a queue", n)
			continue
		}
		if _, dup := chans[f]; dup {
			c.bad("anchor", n, "both kinds of functions share a queue")
		}
		chans[f] = i == 1
		is := func(ch *Term) bool { return p.in(ch, f) }
		c.handsIn("submit", api, is, p.ctx)
		c.built("channels", p.Build, f)
	}
	if len(chans) < 2 || p.Build == nil {
		return
	}
	queue := func(ch *Term) string {
		for _, f := range sortedKeys(chans) {
			if p.in(ch, f) {
				return f
			}
		}
		return ""
	}
	isWorker := map[*Proc]bool{}
	served := map[*Proc]map[string]bool{}
	for _, q := range procs {
		for _, t := range q.Traces {
			if t.End == "cut" {
				continue
			}
			for _, e := range t.of("close") {
				c.check("open", queue(e.Ch) == "", t, e, "a task queue is closed under its users")
			}
			for _, e := range t.sends(func(ch *Term) bool { return queue(ch) != "" }) {
				c.check("submit", q.Name == "workers.Runner.Run" || q.Name == "workers.Runner.RunWithContext", t, e, "the library itself submits tasks")
			}
			rs := t.received(func(ch *Term) bool { return queue(ch) != "" })
			for i, r := range rs {
				f := queue(r.Ch)
				isWorker[q] = true
				c.check("worker", q.Kind == "go", t, r, "a task is taken from the queue outside the workers")
				if t.End == "panic" || t.closedRecv(r) {
					continue
				}
				next := 1 << 30
				if i+1 < len(rs) {
					next = rs[i+1].Seq
				}
				if served[q] == nil {
					served[q] = map[string]bool{}
				}
				served[q][f] = true
				n := 0
				for _, cb := range t.of("callback") {
					if cb.FnT != r.Res {
						continue
					}
					n++
					ok := cb.Seq > r.Seq && cb.Seq < next
					if chans[f] {
						ok = ok && len(cb.Args) == 1 && (fromField(cb.Args[0], p.ctx) || p.isCtx(cb.Args[0]))
						c.check("context", len(cb.Args) == 1 && (fromField(cb.Args[0], p.ctx) || p.isCtx(cb.Args[0])), t, cb, "the task does not receive the runner's context")
					}
					c.check("once", ok, t, cb, "a task is run after the next one was taken")
				}
				gone := t.truth(tEq(r.Res, tNil)) == 1 || t.ended(p.ctx, r.Seq)
				c.check("once", n == 1 || n == 0 && gone, t, r, "a task taken from the queue is called %d times by the worker that took it", n)
			}
		}
	}
	c.stays(procs, p.ctx)
	worker := func(q *Proc) bool { return isWorker[q] }
	c.perIndex("pool", "a worker", p.Build, worker, count, nil)
	for q, s := range served {
		for f := range chans {
			c.check("serves", s[f], q.Traces[0], nil, "workers do not take tasks from the queue %s", lastSeg(f))
		}
	}
	for _, q := range procs {
		if worker(q) {
			continue
		}
		for _, t := range q.Traces {
			for _, e := range t.of("callback") {
				c.check("pool", false, t, e, "a task is run outside the workers")
			}
		}
	}
	c.atLeast("once", 2)
	c.atLeast("context", 1)
	c.atLeast("submit", 2)
}

// isCtx: the term is what the construction stored as the object's context.
func (p *pipe) isCtx(v *Term) bool {
	if p.Build == nil {
		return false
	}
	for _, t := range p.Build.Traces {
		for _, e := range t.of("store") {
			if e.Val == v && e.Loc.Op == "faddr" && p.ctx[e.Loc.S] {
				return true
			}
		}
	}
	return false
}

// ---- L01 ----

// keyLock: the mutex belongs to the key: it was found under it, or was made
// and stored under it, in the table.
func (c *Chk) keyLock(t *Trace, x, key *Term, e *Event, tables map[string]bool) bool {
	for x.Op == "assert" || x.Op == "extract" || x.Op == "conv" {
		x = x.Args[0]
	}
	if x.IsCall("(*sync.Map).LoadOrStore", "(*sync.Map).Load") && len(x.Args) >= 2 {
		return t.eq(x.Args[1], key)
	}
	if x.Op == "lookup" {
		if !tables[place(x.Args[0])] || !t.eq(x.Args[1], key) {
			return false
		}
		for _, g := range t.of("mapget") {
			if g.Res == x && g.Seq < e.Seq && t.seen(g) == 1 {
				return true
			}
		}
		return false
	}
	for _, s := range t.of("mapset") {
		if s.Val == x && x.Op == "new" && s.Seq < e.Seq && tables[place(s.Map)] && t.eq(s.Key, key) {
			return true
		}
	}
	return false
}

// seen: whether the path knows that the lookup found a mutex (the table holds
// no nil ones, see the rule on insertions).
func (t *Trace) seen(g *Event) int {
	if g.Ok != nil {
		if v := t.truth(g.Ok); v != 0 {
			return v
		}
	}
	if g.Res == nil {
		return 0
	}
	return -t.truth(tEq(g.Res, tNil))
}

func ruleL01(c *Chk) {
	for _, typ := range []string{"MapMutex", "MapRWMutex"} {
		procs := c.family("collections", typ, "New"+typ)
		tables := map[string]bool{}
		for _, q := range procs {
			for _, t := range q.Traces {
				for _, e := range t.of("mapget") {
					if f := place(e.Map); f != "" {
						tables[f] = true
					}
				}
			}
		}
		want := map[string]bool{"Lock": true, "Unlock": true}
		if typ == "MapRWMutex" {
			want["RLock"], want["RUnlock"] = false, false
		}
		for _, q := range procs {
			n := lastSeg(q.Name)
			key := param(q, 1)
			for _, t := range q.Traces {
				if t.End == "cut" {
					continue
				}
				// the table only ever grows, by new mutexes for absent keys
				for _, e := range t.Events {
					if e.Map == nil || !tables[place(e.Map)] || e.Fresh {
						continue
					}
					switch e.Kind {
					case "mapdel", "mapclear":
						c.check("table", false, t, e, "a key's mutex is dropped while callers may hold or wait for it")
					case "mapset":
						absent := e.Pres == -1
						for _, g := range t.of("mapget") {
							absent = absent || g.Seq < e.Seq && g.Key == e.Key && sameW(g, e) && t.seen(g) == -1
						}
						w := false
						for _, h := range e.Locks {
							w = w || h.Write
						}
						c.check("table", absent && w && e.Val.Op == "new", t, e, "a key's mutex may be replaced by another one")
						uses := 0
						for _, s := range t.of("mapset") {
							if s.Val == e.Val {
								uses++
							}
						}
						c.check("own-mutex", uses == 1 && !(t.End == "back" && !madeBefore(t, e)), t, e, "two keys may share a mutex")
					}
				}
				for _, e := range t.of("store") {
					if e.Loc.Op == "faddr" && tables[e.Loc.S] && !e.Fresh {
						c.check("table", false, t, e, "the table of mutexes is replaced while callers may hold or wait for one")
					}
				}
				write, is := want[n]
				if !is {
					continue
				}
				var on []*Event
				for _, e := range t.of("lock", "unlock", "badunlock") {
					if !isTableLock(e.Loc) {
						on = append(on, e)
					}
				}
				takes := n == "Lock" || n == "RLock"
				mode := func(e *Event) bool {
					if takes {
						return lastSeg(e.Name) == map[bool]string{true: "Lock", false: "RLock"}[write]
					}
					return lastSeg(e.Name) == map[bool]string{true: "Unlock", false: "RUnlock"}[write]
				}
				for _, e := range on {
					if takes {
						c.check("key", c.keyLock(t, e.Loc, key, e, tables), t, e, "%s takes something else than the mutex of its key", n)
						c.check("independent", len(e.Locks) == 0, t, e, "a key's mutex is waited for while another lock is held, so callers of other keys wait too")
					} else {
						c.check("key", c.keyLock(t, e.Loc, key, e, tables), t, e, "%s releases something else than the mutex of its key", n)
					}
					c.check("mode", mode(e) && e.Kind != map[bool]string{true: "unlock", false: "lock"}[takes], t, e, "%s uses %s on the key's mutex", n, lastSeg(e.Name))
				}
				if t.End != "return" {
					for _, e := range on {
						if t.End == "back" && t.inCycle(e) {
							c.check("once", false, t, e, "%s may act on the key's mutex repeatedly", n)
						}
					}
					continue
				}
				absent := false
				if !takes {
					for _, g := range t.of("mapget") {
						absent = absent || g.Key == key && t.seen(g) == -1
					}
					for _, g := range t.of("call") {
						absent = absent || g.Name == "(*sync.Map).Load" && t.truth(mk("extract", "1", nil, g.Res)) == -1
					}
				}
				c.check("once", len(on) == 1 || len(on) == 0 && absent, t, nil, "%s acts on the key's mutex %d times", n, len(on))
				if takes {
					c.check("held", len(t.Locks) == len(on), t, nil, "%s returns without holding exactly the key's mutex", n)
				}
			}
			if _, is := want[n]; is {
				c.P(q.Name)
			}
		}
		for n := range want {
			c.P("collections." + typ + "." + n)
		}
	}
	c.atLeast("key", 5)
	c.atLeast("independent", 3)
}

func madeBefore(t *Trace, e *Event) bool { return t.inCycle(e) }

// isTableLock: the lock is a field of the object itself, not one of the
// mutexes kept in the table.
func isTableLock(l *Term) bool {
	if l == nil || l.Op != "faddr" {
		return false
	}
	for l.Op == "faddr" {
		l = l.Args[0]
	}
	return l.Op == "param"
}

func init() {
	register("C04", "role dataflow: every goroutine between a shard channel and the chunker or worker of the same loop index; one per index of a loop proven to cover the shard count; option values reach sharder and chunkers", ruleC04)
	register("C05", "blocking-operation analysis: every operation that can block in a goroutine or producer also waits for the configured context, Done leads out, and goroutines end on no other path", ruleC05)
	register("W01", "task-queue typestate: each received function is called exactly once, in the worker that took it, before the next is taken; worker loop proven to run exactly workerCount times", ruleW01)
	register("L01", "per-key lock typestate: the mutex acted on is the one found or inserted for the key, in the right mode, with no lock held while waiting; the table only grows under the exclusive lock", ruleL01)
}

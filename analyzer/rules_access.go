package main

import (
	"go/types"
	"strings"
)

// C06: the accessors of the channel utilities. B02: Build refuses what it
// cannot work with.

type accessRule struct {
	c     *Chk
	r     *panicRule
	opts  map[string]bool // fields the shard count option is kept in
	in    string
	out   string
	slots map[string]bool // the shard channels and the chunkers
}

// isCount: the number read from an object is what every construction took
// from the shard count option.
func (a *accessRule) isCount(n *Term) bool {
	if n == nil {
		return false
	}
	if n.Op == "maplen" {
		return a.slots[place(n.Args[0])]
	}
	root, path := countPath(n)
	if root == nil || path == "" || root.T == nil {
		return false
	}
	for _, f := range strings.Split(strings.TrimPrefix(path, "len "), "/") {
		if a.r.moved[f] {
			return false
		}
	}
	bs := a.r.builds[typeKey(deref(root.T))]
	for _, m := range bs {
		v := m.counts[path]
		if v == nil {
			return false
		}
		ok := fromField(v, a.opts)
		for _, w := range sortedCounts(m.counts) {
			ok = ok || fromField(w, a.opts) && a.r.equalAt(m.t, v, w)
		}
		if !ok && v.Op == "len" {
			// a list built in step with a counter that ran up to the count
			for _, x := range a.r.widenWith(m.t.Facts, false, v) {
				x.Atom.Any(func(w *Term) bool {
					ok = ok || w.Op == "load" && fromField(w, a.opts) && a.r.equalAt(m.t, v, w)
					return ok
				})
			}
		}
		if !ok {
			return false
		}
	}
	return len(bs) > 0
}

// everyShard: the loop visits every shard index once; idx is the index its
// body uses.
func (a *accessRule) everyShard(t *Trace, inst *LoopInst, idx *Term) bool {
	if idx == nil {
		return false
	}
	if inst.Mapiter != nil {
		return idx.Op == "rkey" && len(idx.Args) > 0 && idx.Args[0] == inst.Mapiter && a.slots[place(inst.Mapiter.Args[0])] && t.leftExhausted(inst, idx, nil)
	}
	var ns []*Term
	seen := map[*Term]bool{}
	for _, ex := range inst.Exits {
		for _, f := range ex.Facts {
			f.Atom.Any(func(x *Term) bool {
				if !seen[x] {
					seen[x] = true
					if a.isCount(x) {
						ns = append(ns, x)
					}
				}
				return false
			})
		}
	}
	for _, v := range inst.Phis {
		if v.Init != nil {
			v.Init.Any(func(x *Term) bool {
				if !seen[x] {
					seen[x] = true
					if a.isCount(x) {
						ns = append(ns, x)
					}
				}
				return false
			})
		}
	}
	for _, n := range ns {
		if covers(inst, n, idx) && t.leftExhausted(inst, idx, n) {
			return true
		}
	}
	return false
}

// queued: the value is the number of items queued in a shard channel or in
// the given channel of a chunker; returns the shard.
func (a *accessRule) queued(v *Term, field string) *Term {
	if v == nil || v.Op != "chanlen" {
		return nil
	}
	ch := v.Args[0]
	if field != "" {
		f, b := fieldBase(ch)
		if f != field || b == nil {
			return nil
		}
		ch = b
	}
	if ch.Op == "rval" && len(ch.Args) > 0 && ch.Args[0].Op == "iter" && a.slots[place(ch.Args[0].Args[0])] {
		return mk("rkey", ch.S, nil, ch.Args[0])
	}
	f, i := slotOf(ch)
	if !a.slots[f] {
		return nil
	}
	return i
}

func sameIndex(t *Trace, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a.Op == "rkey" && b.Op == "rkey" {
		return a.S == b.S && a.Args[0] == b.Args[0]
	}
	return linEq(a, b) || t.eq(a, b)
}

// sizeList: the list has one entry per shard, the queue length of that shard.
func (a *accessRule) sizeList(t *Trace, list *Term) bool {
	for _, inst := range t.loopsIn() {
		if len(inst.Iters) == 0 {
			continue
		}
		good := true
		var idx *Term
		for _, it := range inst.Iters {
			hit := 0
			if v := inst.Var(list); v != nil {
				// appended one by one
				nx := it.Next[v.Term]
				if nx == nil || v.Init == nil || !normList(v.Init).Empty || nx.Op != "append" || len(nx.Args) != 2 || nx.Args[0] != v.Term {
					good = false
					break
				}
				if i := a.queued(nx.Args[1], ""); i != nil && i.Op != "rkey" {
					idx, hit = i, 1
				}
			} else {
				for _, e := range it.of("store") {
					if e.Loc.Op != "iaddr" || e.Loc.Args[0] != list || !inLoop(e, inst) {
						continue
					}
					hit++
					i := a.queued(e.Val, "")
					if !sameIndex(it, i, e.Loc.Args[1]) {
						hit = 9
					}
					idx = e.Loc.Args[1]
				}
			}
			good = good && hit == 1
		}
		if !good || !a.everyShard(t, inst, idx) {
			continue
		}
		if list.Op == "mkslice" {
			return a.isCount(list.Args[0])
		}
		return true
	}
	return false
}

// sum: the number is the sum over all chunkers of the items queued in the
// given channel.
func (a *accessRule) sum(t *Trace, v *Term, field string) bool {
	for _, inst := range t.loopsIn() {
		x := inst.Var(v)
		if x == nil || x.Init == nil || !isZero(x.Init) || len(inst.Iters) == 0 {
			continue
		}
		var idx *Term
		good := true
		for _, it := range inst.Iters {
			nx := it.Next[x.Term]
			if nx == nil || nx.Op != "bin" || nx.S != "+" {
				good = false
				break
			}
			q := nx.Args[0]
			if q == x.Term {
				q = nx.Args[1]
			} else if nx.Args[1] != x.Term {
				good = false
				break
			}
			i := a.queued(q, field)
			good = good && i != nil
			idx = i
		}
		if good && a.everyShard(t, inst, idx) {
			return true
		}
	}
	return false
}

func sortedCounts(m map[string]*Term) []*Term {
	var out []*Term
	for _, k := range sortedKeys(m) {
		out = append(out, m[k])
	}
	return out
}

func init() {
	register("C06", "ShardCount returns a count every construction took from the shard count option; ChunkChan.Sizes returns the lengths of the channels Incoming and C return, in that order; the list of ShardChan.Sizes is filled by a loop over every shard index with the length of that shard's channel; the totals of ShardChunk.Sizes are accumulated from zero by a loop over every chunker; ShardChunk.C returns nil only under facts that put the index out of range and otherwise the outgoing channel of the chunker at exactly that index", func(c *Chk) {
		a := &accessRule{c: c, r: c.newPanicRule(), opts: c.optionFields("chans.ShardChanBuilder", "WithShardCount"), slots: map[string]bool{}}
		for f := range c.optionFields("chans.ShardChunkBuilder", "WithShardCount") {
			a.opts[f] = true
		}
		a.in, a.out = c.getter("chans.ChunkChan.Incoming"), c.getter("chans.ChunkChan.C")
		for _, t := range returns(c.P("chans.ShardChan.C")) {
			if f, _ := slotOf(t.Ret[0]); f != "" {
				a.slots[f] = true
			}
		}
		get := c.P("chans.ShardChunk.C")
		for _, t := range returns(get) {
			if f, b := fieldBase(t.Ret[0]); f == a.out && b != nil {
				if g, _ := slotOf(b); g != "" {
					a.slots[g] = true
				}
			}
		}
		if a.in == "" || a.out == "" || len(a.slots) < 2 {
			c.bad("anchor", "chans", "the shard channels, the chunkers or their channels are not kept in known fields")
			return
		}
		for _, n := range []string{"chans.ShardChan.ShardCount", "chans.ShardChunk.ShardCount"} {
			for _, t := range returns(c.P(n)) {
				c.check("count", a.isCount(t.Ret[0]) || t.Ret[0].Op == "maplen" && a.slots[place(t.Ret[0].Args[0])], t, nil, "%v is not the configured number of shards", t.Ret[0])
			}
		}
		c.atLeast("count", 2)
		for _, t := range returns(c.P("chans.ChunkChan.Sizes")) {
			ok := t.Ret[0].Op == "chanlen" && place(t.Ret[0].Args[0]) == a.in && t.Ret[1].Op == "chanlen" && place(t.Ret[1].Args[0]) == a.out
			c.check("chunk-sizes", ok, t, nil, "the numbers returned are not those of items waiting in the incoming and in the outgoing channel")
		}
		c.atLeast("chunk-sizes", 1)
		for _, t := range returns(c.P("chans.ShardChan.Sizes")) {
			c.check("shard-sizes", a.sizeList(t, t.Ret[0]), t, nil, "the list returned does not hold the queue length of every shard in order")
		}
		c.atLeast("shard-sizes", 1)
		for _, t := range returns(c.P("chans.ShardChunk.Sizes")) {
			c.check("shard-sizes", a.sizeList(t, t.Ret[0]), t, nil, "the list returned does not hold the queue length of every shard in order")
			c.check("totals", a.sum(t, t.Ret[1], a.in) && a.sum(t, t.Ret[2], a.out), t, nil, "the totals returned are not the items waiting in the incoming and in the outgoing channels of all chunkers")
		}
		c.atLeast("totals", 1)
		key := param(get, 1)
		for _, t := range returns(get) {
			if isNilVal(t.Ret[0]) {
				out := t.Facts.ProveLT(key, tInt(0))
				for _, f := range t.Facts {
					f.Atom.Any(func(x *Term) bool {
						out = out || a.isCount(x) && t.Facts.ProveLE(x, key, 0)
						return false
					})
				}
				c.check("valid-index", out, t, nil, "nil is returned for a valid shard index")
				continue
			}
			f, b := fieldBase(t.Ret[0])
			g, i := "", (*Term)(nil)
			if b != nil {
				g, i = slotOf(b)
			}
			c.check("own-channel", f == a.out && a.slots[g] && i != nil && t.eq(i, key), t, nil, "the channel returned is not the outgoing channel of the chunker of that shard")
			in := t.Facts.ProveLE(tInt(0), key, 0)
			low := false
			for _, fc := range t.Facts {
				fc.Atom.Any(func(x *Term) bool {
					low = low || a.isCount(x) && t.Facts.ProveLT(key, x)
					return false
				})
			}
			c.check("range", in && low, t, nil, "a chunker is looked up with an index that may be out of range")
		}
		c.atLeast("own-channel", 1)
		c.atLeast("range", 1)
	})
}

func init() {
	register("B02", "every path of ShardChan and ShardChunk Build that returns has tested the shard function given for nil: with it missing the path returns no object and the package's error value and has started no goroutine, with it present the path returns an object and no error", func(c *Chk) {
		for _, b := range []string{"chans.ShardChanBuilder", "chans.ShardChunkBuilder"} {
			opts := c.optionFields(b, "WithShardFunc")
			p := c.P(b + ".Build")
			for _, t := range returns(p) {
				miss := 0
				for _, f := range t.Facts {
					for i := range f.Atom.Args {
						x := f.Atom.Args[i]
						if f.Atom.Op == "eq" && fromField(x, opts) && len(f.Atom.Args) == 2 && isNilVal(f.Atom.Args[1-i]) {
							miss = t.Facts.Eval(f.Atom)
						}
					}
				}
				if miss == 0 {
					c.check("tested", false, t, nil, "Build returns without having looked whether a shard function was given")
					continue
				}
				c.check("tested", true, t, nil, "")
				obj, err := t.Ret[0], t.Ret[1]
				if miss > 0 {
					ok := isNilVal(obj) && isGlobalErr(err, "ErrShardFuncIsNil")
					c.check("refused", ok, t, nil, "without a shard function Build does not return the package's error and no object")
					c.check("no-goroutine", len(t.of("go")) == 0, t, nil, "goroutines are started although Build fails")
				} else {
					c.check("built", nonNilOp(obj) && isNilVal(err), t, nil, "with a shard function Build does not return an object and no error")
				}
			}
		}
		c.atLeast("refused", 2)
		c.atLeast("built", 2)
	})
}

// counted: every path of the method returns the number of entries of the
// given maps, all read in one critical section.
func (c *Chk) counted(method string, fields ...string) {
	for _, t := range returns(c.P(method)) {
		if len(t.Ret) != 1 {
			continue
		}
		var lens []*Event
		for _, f := range fields {
			for _, e := range t.mapEvs(f, "maplen") {
				lens = append(lens, e)
				break
			}
		}
		ok := len(lens) == len(fields)
		var sum *Term
		for _, e := range lens {
			ok = ok && (sameSection(e, lens[0]))
			if sum == nil {
				sum = e.Res
			} else {
				sum = mk("bin", "+", types.Typ[types.Int], sum, e.Res)
			}
		}
		c.use(t.Proc)
		c.check("count", ok && linEq(t.Ret[0], sum), t, nil, "%s does not return the number of entries of %s as of one moment", method, strings.Join(fields, " and "))
	}
}

func init() {
	register("I01", "every path of RequestMap.Count and WaitMap.Count returns the sum of the sizes of the map of waiters and the map of results, and of HolderMap.Count the size of the entry table, all read in one critical section", func(c *Chk) {
		if q := c.requests(); q != nil {
			c.counted("collections.RequestMap.Count", q.Field, q.Result)
		}
		if w := c.waitMap(); w != nil {
			c.counted("collections.WaitMap.Count", w.Field, w.Result)
		}
		if h := c.holderMap(); h != nil {
			c.counted("collections.HolderMap.Count", h.Table)
		}
		c.atLeast("count", 2)
	})
}

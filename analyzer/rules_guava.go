package main

import "go/types"

// Rules for GuavaMap: loading, unloading, expiry and update locks.

type guava struct {
	Map, List, Val string
	W, R, U, L     map[string]bool
	procs          []*Proc
}

func (c *Chk) guava() *guava {
	g := &guava{Map: c.countMap("collections.GuavaMap.Size")}
	if g.Map == "" {
		return nil
	}
	b := "collections.GuavaMapBuilder"
	g.W, g.R = c.optionFields(b, "WithWriteTimeout"), c.optionFields(b, "WithReadTimeout")
	g.U, g.L = c.optionFields(b, "WithUnloadFunc"), c.optionFields(b, "WithLoadFunc")
	g.procs = c.guavaFamily()
	g.List = c.listField("collections.GuavaMap", g.Map)
	for _, t := range c.Ts("collections.GuavaMap.HasOrCreate") {
		for _, e := range t.mapEvs(g.Map, "mapset") {
			for _, s := range t.of("store") {
				if s.Loc.Op == "faddr" && s.Loc.Args[0] == e.Val && t.eq(s.Val, param(t.Proc, 2)) {
					g.Val = s.Loc.S
				}
			}
		}
	}
	return g
}

// holds: the entry stored carries the value.
func (g *guava) holds(t *Trace, entry, val *Term, before *Event) bool {
	if g.Val == "" {
		return t.eq(entry, val)
	}
	var last *Event
	for _, s := range t.of("store") {
		if s.Loc.Op == "faddr" && s.Loc.S == g.Val && t.eq(s.Loc.Args[0], entry) {
			last = s
		}
	}
	return last != nil && t.eq(last.Val, val)
}

// valueOf: v is the value of the entry.
func (g *guava) valueOf(t *Trace, v, entry *Term) bool {
	if v == nil || entry == nil {
		return false
	}
	if g.Val == "" {
		return t.eq(v, entry)
	}
	n, b := fieldBase(v)
	return n == g.Val && t.eq(b, entry)
}

// fieldVals: the values read from configured fields on this path.
func (t *Trace) fieldVals(fields map[string]bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	add := func(v *Term) {
		if !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	for _, e := range t.of("load") {
		if e.Loc.Op == "faddr" && fields[e.Loc.S] {
			add(e.Val)
		}
	}
	for _, f := range t.Facts {
		f.Atom.Any(func(s *Term) bool {
			if (s.Op == "load" || s.Op == "fld") && fields[place(s)] {
				add(s)
			}
			return false
		})
	}
	return out
}

// isSet: is the configured function, lock or duration set (1), unset (-1) or
// not decided on this path (0).
func (t *Trace) isSet(facts Facts, fields map[string]bool) int {
	for _, v := range t.fieldVals(fields) {
		if v.T != nil && isIntType(v.T) {
			if facts.ProveLT(tInt(0), v) {
				return 1
			}
			if facts.ProveLE(v, tInt(0), 0) {
				return -1
			}
			continue
		}
		if r := facts.Eval(tEq(v, tNil)); r != 0 {
			return -r
		}
	}
	return 0
}

func fromField(t *Term, fields map[string]bool) bool {
	return t != nil && (t.Op == "load" || t.Op == "fld") && fields[place(t)]
}

// fnCall is one certain call of a configured function.
type fnCall struct {
	Args []*Term
	Ev   *Event
	N    int // how often it is called by the event, -1 when it depends
}

// fnCalls lists the calls of functions kept in the given fields, including
// those made by goroutines started on the path.
func (t *Trace) fnCalls(fields map[string]bool) []*fnCall {
	var out []*fnCall
	for _, e := range t.Events {
		switch e.Kind {
		case "callback":
			if fromField(e.FnT, fields) {
				out = append(out, &fnCall{e.Args, e, 1})
			}
		case "go":
			if fromField(e.FnT, fields) {
				out = append(out, &fnCall{e.Args, e, 1})
				continue
			}
			if e.Proc == nil || e.Proc.Kind != "go" {
				continue
			}
			var args []*Term
			n := -2
			for _, u := range e.Proc.Traces {
				k := 0
				for _, f := range u.of("callback") {
					if fromField(f.FnT, fields) {
						k++
						args = f.Args
					}
				}
				if n == -2 {
					n = k
				} else if n != k {
					n = -1
				}
			}
			if args != nil {
				out = append(out, &fnCall{args, e, n})
			}
		}
	}
	return out
}

func inLoop(e *Event, inst *LoopInst) bool {
	for _, l := range e.Loops {
		if l == inst {
			return true
		}
	}
	return false
}

func ruleG02(c *Chk) {
	g := c.guava()
	if g == nil {
		return
	}
	for _, p := range g.procs {
		for _, t := range p.Traces {
			if t.End == "cut" {
				continue
			}
			calls := t.fnCalls(g.U)
			used := map[*fnCall]bool{}
			for _, e := range t.mapEvs(g.Map, "mapdel") {
				if e.Fresh || e.Pres == -1 {
					continue
				}
				unl := t.isSet(t.Facts, g.U)
				if unl == -1 {
					c.check("unload.unset", true, t, e, "")
					continue
				}
				var mine []*fnCall
				for _, k := range calls {
					if len(k.Args) == 2 && t.eq(k.Args[0], e.Key) {
						mine = append(mine, k)
						used[k] = true
					}
				}
				if t.End != "return" && t.End != "back" || t.prefix(e) {
					continue
				}
				if !c.check("unload.once", len(mine) == 1 && mine[0].N == 1, t, e, "an entry is removed with %d calls of the unload function for its key, expected exactly one", len(mine)) {
					continue
				}
				l, _, listed := elemIndex(e.Key)
				present := e.Pres == 1 || listed && place2(t, l) == g.List
				c.check("unload.present", present, t, e, "the unload function is called for a key that may not be present")
				ok := e.Old != nil && g.valueOf(t, mine[0].Args[1], e.Old)
				if !ok {
					for _, get := range t.mapEvs(g.Map, "mapget") {
						ok = ok || t.eq(get.Key, e.Key) && g.valueOf(t, mine[0].Args[1], get.Res)
					}
				}
				c.check("unload.value", ok, t, mine[0].Ev, "the unload function does not get the value the removed entry held")
			}
			for _, e := range t.Events {
				if !isReset(e, g.Map) || t.End != "return" || e.Fresh || e.Map == nil && p.Kind == "api" && t.private(e) {
					continue
				}
				unl := t.isSet(t.Facts, g.U)
				done := unl == -1
				for _, get := range t.mapEvs(g.Map, "maplen") {
					done = done || t.Facts.ProveLE(get.Res, tInt(0), 0)
				}
				for _, inst := range t.loopsIn() {
					if inst.Mapiter == nil || place(inst.Mapiter.Args[0]) != g.Map || !t.leftExhausted(inst, nil, nil) || len(inst.Iters) == 0 {
						continue
					}
					all := true
					for _, it := range inst.Iters {
						if it.isSet(it.Facts, g.U) == -1 {
							continue
						}
						n := 0
						for _, k := range it.fnCalls(g.U) {
							if inLoop(k.Ev, inst) && len(k.Args) == 2 && k.Args[0].Op == "rkey" && k.Args[0].Args[0] == inst.Mapiter &&
								k.N == 1 && g.valueOf(it, k.Args[1], mk("rval", k.Args[0].S, nil, k.Args[0].Args...)) {
								n++
							} else if inLoop(k.Ev, inst) {
								n = 99
							}
						}
						dels := 0
						for _, d := range it.mapEvs(g.Map, "mapdel") {
							if inLoop(d, inst) {
								dels++
							}
						}
						all = all && (n == 1 || dels == 1)
					}
					done = done || all
				}
				c.check("unload.clear", done, t, e, "all entries are dropped without exactly one unload call for each of them")
			}
			// no call without a removal
			for _, k := range calls {
				if used[k] || k.Ev.Kind == "go" && k.N == 0 || p.Kind == "go" && k.Ev.Kind == "callback" && c.countedBySpawner(p, g.U) {
					continue
				}
				ok := len(k.Args) == 2 && k.Args[0].Op == "rkey"
				if ok {
					// an entry passed by the clearing loop
					ok = false
					for _, u := range p.Traces {
						for _, e := range u.Events {
							ok = ok || isReset(e, g.Map) && !e.Fresh
						}
					}
				}
				if !ok && (t.End != "return" && t.End != "back" || t.prefix(k.Ev)) {
					continue
				}
				if !ok {
					// removed on the paths that go on from here
					for _, d := range t.mapEvs(g.Map, "mapdel") {
						ok = ok || len(k.Args) == 2 && t.eq(k.Args[0], d.Key) && d.Pres != -1
					}
				}
				c.check("unload.only-removed", ok, t, k.Ev, "the unload function is called for a key that is not removed")
			}
		}
	}
	// Clear by removing the keys one by one
	for _, t := range returns(c.P("collections.GuavaMap.Clear")) {
		reset := false
		for _, e := range t.Events {
			reset = reset || isReset(e, g.Map)
		}
		if reset {
			continue
		}
		ok := t.emptied(g.Map)
		for _, e := range t.of("maplen") {
			ok = ok || place(e.Map) == g.Map && t.Facts.ProveLE(e.Res, tInt(0), 0)
		}
		c.check("unload.clear", ok, t, nil, "Clear can return without having removed every entry")
	}
	c.atLeast("unload.once", 2)
	c.atLeast("unload.clear", 1)
	// removing an absent key has no effect and does not fail
	sp := &mapSpec{Field: g.Map, Key: keyAt(1)}
	if p := c.P("collections.GuavaMap.Delete"); p != nil {
		n := 0
		for _, t := range p.Traces {
			if t.initialPresence(g.Map, param(p, 1)) != -1 {
				continue
			}
			n++
			ch := sp.changes(t)
			eff := len(t.fnCalls(g.U)) == 0 && t.End == "return"
			for _, e := range ch {
				eff = eff && e.Kind == "mapdel" && e.Pres == -1
			}
			c.check("absent", eff, t, nil, "removing an absent key has an effect or fails")
		}
		c.check("absent", n > 0 || g.unloadUnused(p), nil, nil, "Delete does not tell absent keys from present ones")
	}
}

// countedBySpawner: the calls a goroutine makes are accounted to the path that
// starts it.
func (c *Chk) countedBySpawner(p *Proc, fields map[string]bool) bool {
	if p.Parent == nil {
		return false
	}
	found := false
	for _, t := range p.Parent.Traces {
		for _, k := range t.fnCalls(fields) {
			found = found || k.Ev.Proc == p
		}
	}
	return found
}

// emptied: a loop over the whole map removes every key it passes.
func (t *Trace) emptied(field string) bool {
	for _, inst := range t.loopsIn() {
		if inst.Mapiter == nil || place(inst.Mapiter.Args[0]) != field || !t.leftExhausted(inst, nil, nil) || len(inst.Iters) == 0 {
			continue
		}
		all := true
		for _, it := range inst.Iters {
			n := 0
			for _, d := range it.mapEvs(field, "mapdel") {
				if inLoop(d, inst) && d.Key.Op == "rkey" && d.Key.Args[0] == inst.Mapiter {
					n++
				}
			}
			all = all && n > 0
		}
		if all {
			return true
		}
	}
	return false
}

func (g *guava) unloadUnused(p *Proc) bool {
	for _, t := range p.Traces {
		if len(t.fnCalls(g.U)) > 0 {
			return false
		}
	}
	return true
}

// private: the store initialises an object created on this path.
func (t *Trace) private(e *Event) bool {
	return e.Loc != nil && RootOf(e.Loc).Op == "new" && e.Fresh
}

func ruleG03(c *Chk) {
	g := c.guava()
	p := c.P("collections.GuavaMap.Get")
	if g == nil || p == nil {
		return
	}
	key := param(p, 1)
	sp := &mapSpec{Field: g.Map, Key: keyAt(1)}
	lockF := c.mutexFields("collections.GuavaMapBuilder")
	for _, t := range p.Traces {
		if t.End != "return" && t.End != "panic" && t.End != "back" {
			continue
		}
		calls := t.fnCalls(g.L)
		gets := sp.gets(t)
		lastBefore := func(seq int) *Event {
			var r *Event
			for _, e := range gets {
				if e.Seq < seq {
					r = e
				}
			}
			return r
		}
		for _, k := range calls {
			b := lastBefore(k.Ev.Seq)
			c.check("load.absent", b != nil && t.at(k.Ev).Eval(b.Ok) == -1, t, k.Ev, "the loader is called although the key was not found absent")
			c.check("load.key", len(k.Args) == 1 && t.eq(k.Args[0], key) && k.Ev.Kind == "callback", t, k.Ev, "the loader is not called (synchronously) with the requested key")
			c.check("load.set", t.isSet(t.at(k.Ev), g.L) == 1, t, k.Ev, "the loader may be called although none is configured")
			if t.isSet(t.Facts, lockF) != -1 {
				var kl *Held
				for i, h := range k.Ev.Locks {
					if t.keyLock(h, key) {
						kl = &k.Ev.Locks[i]
					}
				}
				ok := kl != nil && b != nil && holdsSeq(b, kl.Seq)
				c.check("load.locked", ok, t, k.Ev, "with load locking the loader runs without the key's load lock held since the key was found absent, so concurrent Gets load twice")
				for _, s := range sp.changes(t) {
					if s.Kind == "mapset" && t.eq(s.Key, key) && kl != nil {
						c.check("load.stored-locked", holdsSeq(s, kl.Seq), t, s, "the loaded value is stored after the key's load lock was released, so a concurrent Get loads again")
					}
				}
			}
		}
		for _, h := range t.Locks {
			c.check("load.released", t.End == "back" || !t.keyLock(h, key), t, nil, "the load lock is not released on this path")
		}
		if t.End != "return" {
			continue
		}
		c.check("load.once", len(calls) <= 1, t, nil, "one Get calls the loader more than once")
		if len(calls) == 0 {
			if sp.seen(t) == 1 {
				last := gets[len(gets)-1]
				c.check("hit", g.valueOf(t, t.Ret[0], last.Res) && t.Ret[1].IsNil(), t, nil, "Get of a present key does not return the stored value without error")
			} else {
				c.check("miss", t.isSet(t.Facts, g.L) == -1 && isZeroVal(t.Ret[0]) && t.Ret[1].IsNil(), t, nil, "Get of an absent key returns without having called the configured loader")
			}
			for _, e := range sp.changes(t) {
				c.check("hit.pure", e.Kind == "mapset", t, e, "Get removes an entry without loading")
			}
			continue
		}
		res := calls[len(calls)-1].Ev.Res
		val, err := tupleAt(res, 0), tupleAt(res, 1)
		if val == nil || err == nil {
			c.check("load.result", false, t, nil, "the loader's result is not followed")
			continue
		}
		switch t.Facts.Eval(tEq(err, tNil)) {
		case -1:
			c.check("load.error", t.eq(t.Ret[1], err), t, nil, "the loader's error is not returned")
			c.check("load.error-not-stored", len(sp.changes(t)) == 0, t, nil, "an entry is stored or removed although the loader failed")
		case 1:
			ok := t.Ret[1].IsNil() || t.eq(t.Ret[1], err)
			after := (*Event)(nil)
			for _, e := range gets {
				if e.Seq > calls[0].Ev.Seq && t.truth(e.Ok) == 1 {
					after = e
				}
			}
			var set *Event
			for _, e := range sp.changes(t) {
				if e.Kind == "mapset" && t.eq(e.Key, key) {
					set = e
				}
			}
			switch {
			case set != nil:
				c.check("load.stores", g.holds(t, set.Val, val, nil), t, set, "what is stored for the key is not the loaded value")
				ok = ok && (t.eq(t.Ret[0], val) || g.valueOf(t, t.Ret[0], set.Val))
				c.check("load.final", sp.lastPresent(t), t, set, "the loaded entry can be removed again before Get returns")
			case after != nil:
				w := g.written(t, after.Res)
				ok = ok && (g.valueOf(t, t.Ret[0], after.Res) || w != nil && t.eq(t.Ret[0], w))
			default:
				c.check("load.stores", false, t, nil, "the loaded value is not stored")
				continue
			}
			c.check("load.returns", ok, t, nil, "Get does not return what the map holds for the key after loading")
		default:
			c.check("load.error-checked", false, t, nil, "the path does not depend on whether the loader failed")
		}
	}
	c.atLeast("load.stores", 1)
	c.atLeast("load.error", 1)
	c.atLeast("load.locked", 1)
	c.atLeast("hit", 1)
	for _, t := range returns(c.P("collections.GuavaMapBuilder.Build")) {
		on := t.isSet2(c.optionFields("collections.GuavaMapBuilder", "WithLockLoad"))
		if on == 1 {
			ok := false
			for _, e := range t.of("store") {
				ok = ok || e.Loc.Op == "faddr" && lockF[e.Loc.S] && !e.Val.IsNil()
			}
			c.check("load.lock-made", ok, t, nil, "load locking is enabled but no load lock is created")
		}
	}
}

// written: the value written to the entry last on this path.
func (g *guava) written(t *Trace, entry *Term) *Term {
	var v *Term
	for _, s := range t.of("store") {
		if s.Loc.Op == "faddr" && s.Loc.S == g.Val && t.eq(s.Loc.Args[0], entry) {
			v = s.Val
		}
	}
	return v
}

// isSet2: outcome of a configured flag on this path.
func (t *Trace) isSet2(fields map[string]bool) int {
	for _, v := range t.fieldVals(fields) {
		if r := t.Facts.Eval(v); r != 0 {
			return r
		}
	}
	return 0
}

func tupleAt(t *Term, i int) *Term {
	if t == nil {
		return nil
	}
	if t.Op == "tuple" && i < len(t.Args) {
		return t.Args[i]
	}
	return nil
}

func holdsSeq(e *Event, seq int) bool {
	for _, h := range e.Locks {
		if h.Seq == seq {
			return true
		}
	}
	return false
}

// keyLock: an exclusive lock that belongs to the key: one of a keyed mutex,
// or one found under the key in a table.
func (t *Trace) keyLock(h Held, key *Term) bool {
	if !h.Write {
		return false
	}
	if h.Loc.Op == "keyed" {
		return len(h.Loc.Args) > 1 && t.eq(h.Loc.Args[len(h.Loc.Args)-1], key)
	}
	return t.tableLock(h, key) != nil
}

// tableLock: the table event (lookup or insertion under the key) the held
// lock comes from.
func (t *Trace) tableLock(h Held, key *Term) *Event {
	o := h.Loc
	for o.Op == "faddr" {
		o = o.Args[0]
	}
	for _, e := range t.Events {
		switch e.Kind {
		case "mapget":
			if e.Seq < h.Seq && t.eq(e.Key, key) && (e.Res == o || e.Res == h.Loc) && e.Map != nil {
				return e
			}
		case "mapset":
			if e.Seq < h.Seq && t.eq(e.Key, key) && (e.Val == o || e.Val == h.Loc) {
				return e
			}
		}
	}
	return nil
}

// mutexFields: the fields a builder fills with newly made locks.
func (c *Chk) mutexFields(builder string) map[string]bool {
	out := map[string]bool{}
	for _, p := range c.family(pkgOf(builder), lastSeg(builder)) {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Val.T != nil && e.Val.Op == "new" && isKeyedMutex(e.Val) {
					out[e.Loc.S] = true
				}
			}
		}
	}
	return out
}

func isKeyedMutex(t *Term) bool {
	if t.T == nil {
		return false
	}
	n := types.TypeString(t.T, func(p *types.Package) string { return p.Name() })
	return hasAny(n, "MapMutex", "MapRWMutex")
}

func init() {
	register("G02", "on every path that takes an entry out of the map, the unload function, unless known to be unset, is started exactly once with the removed key and the value of the removed entry; loops that drop all entries unload each; no call without a removal; Delete of an absent key changes nothing", ruleG02)
	register("G03", "every path of Get calls the loader at most once, only after it found the key absent, with the key, and stores only a result whose error was found nil; with load locking the key's lock is held from the last lookup to the store and released on every way out", ruleG03)
}

package main

import "strings"

// slotIndex: the index of the slice element a location or value hangs off.
func slotIndex(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case "iaddr":
			return t.Args[1]
		case "load", "faddr", "fld":
			t = t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// builtSizes relates the sizes of what a constructor allocates: for every
// field of the built object the number it stands for (length of a made slice
// or the value of an integer field).
func builtSizes(t *Trace, obj *Term) map[string]*Term {
	out := map[string]*Term{}
	m := map[string]*Term{}
	builtCounts(t, obj, "", 0, m)
	for k, v := range m {
		out[strings.TrimPrefix(strings.TrimPrefix(k, "len "), "/")] = v
	}
	return out
}

// sameSize: the fields that always hold (the length of) the same number as
// the given slice field, from the constructor.
func (c *Chk) sameSize(ctor, field string) map[string]bool {
	out := map[string]bool{}
	first := true
	for _, t := range returns(c.P(ctor)) {
		if len(t.Ret) == 0 || t.Ret[0].Op != "new" {
			continue
		}
		sz := builtSizes(t, t.Ret[0])
		n := sz[field]
		cur := map[string]bool{}
		for f, v := range sz {
			if n != nil && (v == n || t.eq(v, n) || c.bounds().equalAt(t, v, n)) {
				cur[f] = true
			}
		}
		if first {
			out = cur
		} else {
			for f := range out {
				if !cur[f] {
					delete(out, f)
				}
			}
		}
		first = false
	}
	return out
}

// allSlots: the loop visits every slot of the slice field exactly once.
func (t *Trace) allSlots(inst *LoopInst, idx *Term, same map[string]bool) bool {
	for _, v := range inst.Phis {
		_ = v
	}
	for _, e := range t.Events {
		if e.Kind != "load" || e.Loc.Op != "faddr" || !same[e.Loc.S] {
			continue
		}
		n := e.Val
		if !isIntType(n.T) {
			n = tLen(n)
		}
		if covers(inst, n, idx) && t.leftExhausted(inst, idx, n) {
			return true
		}
	}
	return false
}

func init() {
	register("M02", "every map access of a ShardMap operation uses the element selected by one call of the shard function on the operation's key, under the lock with that same index in the right mode; Size and Clear visit every index of the shard slice, and the constructor fills all of them", func(c *Chk) {
		n := "collections.ShardMap."
		field := c.presenceMap(n + "Has")
		if field == "" {
			return
		}
		fnFields := c.optionFields("collections.ShardMapBuilder", "WithShardsFunc")
		keyed := map[string]bool{"Get": true, "Set": true, "Delete": true, "Has": true, "SetIfNotExists": true, "SetIfNotExistsWithFunc": true}
		for _, p := range c.family("collections", "ShardMap") {
			m := lastSeg(p.Name)
			for _, t := range p.Traces {
				for _, e := range t.Events {
					write := false
					var at *Term
					switch {
					case e.Map != nil && place(e.Map) == field && e.Kind != "mapnext":
						at = e.Map
						write = e.Kind == "mapset" || e.Kind == "mapdel" || e.Kind == "mapclear"
					case e.Kind == "store" && mapSlot(e, field):
						at, write = e.Loc, true
					default:
						continue
					}
					idx := slotIndex(at)
					ok := false
					for _, h := range e.Locks {
						if i := slotIndex(h.Loc); i != nil && t.eq(i, idx) && (h.Write || !write) {
							ok = true
						}
					}
					c.check("own-lock", idx != nil && ok, t, e, "shard %v is accessed without holding the lock of exactly that shard", idx)
					if keyed[m] {
						okKey := idx != nil && idx.Op == "call" && idx.IsCall("callback") && fnFields[place(idx.Args[0])] && len(idx.Args) == 2 && t.eq(idx.Args[1], param(p, 1))
						c.check("own-shard", okKey, t, e, "the shard used (%v) is not the one the shard function names for the key", idx)
						okAt := e.Key == nil || t.eq(e.Key, param(p, 1))
						c.check("own-key", okAt, t, e, "the shard is accessed with a key other than the operation's")
					}
				}
			}
		}
		c.atLeast("own-lock", 4)
		c.atLeast("own-shard", 3)
		same := c.sameSize("collections.ShardMapBuilder.Build", field)
		same[field] = true
		// the lock slice must be as long as the shard slice
		locks := map[string]bool{}
		for _, p := range c.family("collections", "ShardMap") {
			for _, t := range p.Traces {
				for _, e := range t.of("lock") {
					if f := place(e.Loc); f != "" {
						if i := slotIndex(e.Loc); i != nil {
							locks[ownerSliceField(e.Loc)] = true
						}
					}
				}
			}
		}
		slots := ownerField(c, n+"Has", field)
		same[slots] = true
		for f := range c.sameSize("collections.ShardMapBuilder.Build", slots) {
			same[f] = true
		}
		for f := range locks {
			c.check("lock-per-shard", same[f], nil, nil, "the number of locks (%s) is not the number of shards", f)
		}
		c.atLeast("lock-per-shard", 1)
		for _, t := range returns(c.P(n + "Size")) {
			ok := false
			for _, inst := range t.loopsIn() {
				v := inst.Var(t.Ret[0])
				if v == nil || !isZero(v.Init) || len(inst.Iters) == 0 {
					continue
				}
				good := true
				var idx *Term
				for _, it := range inst.Iters {
					nx := it.Next[v.Term]
					hit := false
					for _, e := range it.mapEvs(field, "maplen") {
						if nx != nil && linEq(nx, mk("bin", "+", nil, v.Term, e.Res)) {
							hit = true
							idx = slotIndex(e.Map)
						}
					}
					good = good && hit
				}
				ok = ok || good && idx != nil && t.allSlots(inst, idx, same)
			}
			c.check("size-all", ok, t, nil, "Size is not the sum of the sizes of all shards")
		}
		c.atLeast("size-all", 1)
		for _, t := range returns(c.P(n + "Clear")) {
			c.check("clear-all", t.emptiesSlots(field, same), t, nil, "Clear can return without having emptied every shard")
		}
		c.atLeast("clear-all", 1)
		for _, t := range returns(c.P("collections.ShardMapBuilder.Build")) {
			c.check("shards-exist", t.emptiesSlots(field, same) || t.collectsSlots(slots), t, nil, "a shard can be missing after construction")
		}
		c.atLeast("shards-exist", 1)
	})
}

func linEq(a, b *Term) bool {
	d := linDiff(a, b)
	return d.isConst() && d.C == 0
}

// ownerSliceField: the field holding the slice an element location is in.
func ownerSliceField(t *Term) string {
	for t != nil {
		switch t.Op {
		case "iaddr":
			return place(t.Args[0])
		case "load", "faddr", "fld":
			t = t.Args[0]
		default:
			return ""
		}
	}
	return ""
}

func ownerField(c *Chk, name, field string) string {
	for _, t := range returns(c.P(name)) {
		for _, e := range t.mapEvs(field, "mapget") {
			if f := ownerSliceField(e.Map); f != "" {
				return f
			}
		}
	}
	return field
}

// emptiesSlots: a loop over all slots gives each a new or cleared map.
func (t *Trace) emptiesSlots(field string, same map[string]bool) bool {
	for _, inst := range t.loopsIn() {
		if len(inst.Iters) == 0 {
			continue
		}
		var idx *Term
		good := true
		for _, it := range inst.Iters {
			hit := false
			for _, e := range it.Events {
				if e.Seq < inst.Events {
					continue
				}
				if isReset(e, field) || e.Kind == "store" && e.Val.Op == "mkmap" && e.Loc.Op == "iaddr" && e.Loc.Args[0].Op == "mkslice" ||
					e.Kind == "store" && e.Val.Op == "mkmap" && e.Loc.Op == "faddr" && e.Loc.S == field {
					at := e.Loc
					if e.Kind == "mapclear" {
						at = e.Map
					}
					if i := slotIndex(at); i != nil {
						hit = true
						idx = i
					}
				}
				if m := e.Loop; e.Kind == "loopenter" && m.Mapiter != nil && place(m.Mapiter.Args[0]) == field && it.leftExhausted(m, nil, nil) && m.removesAll(field) {
					if i := slotIndex(m.Mapiter.Args[0]); i != nil {
						hit = true
						idx = i
					}
				}
				if e.Kind == "store" && e.Val.Op == "new" && e.Loc.Op == "iaddr" {
					// a new shard object with a map of its own
					v := it.deepField(e.Val, field)
					if i := slotIndex(e.Loc); i != nil && v != nil && v.Op == "mkmap" && it.madeIn(e.Val, inst) && it.madeIn(v, inst) {
						hit = true
						idx = i
					}
				}
			}
			good = good && hit
		}
		if !good || idx == nil {
			continue
		}
		if t.allSlots(inst, idx, same) {
			return true
		}
		// constructor: the size is that of the slice just made
		for _, e := range t.of("make") {
			if e.Res.Op == "mkslice" && covers(inst, e.Res.Args[0], idx) && t.leftExhausted(inst, idx, e.Res.Args[0]) {
				return true
			}
		}
	}
	return false
}

// collectsSlots: the list kept in the field of the object returned was built
// by appending maps of their own.
func (t *Trace) collectsSlots(field string) bool {
	for _, e := range t.of("store") {
		if e.Loc.Op != "faddr" || e.Loc.S != field || len(t.Ret) == 0 || e.Loc.Args[0] != t.Ret[0] {
			continue
		}
		for _, inst := range t.loopsIn() {
			v := inst.Var(e.Val)
			if v == nil || !normList(v.Init).isEmpty2() || len(inst.Iters) == 0 {
				continue
			}
			good := true
			for _, it := range inst.Iters {
				nx := it.Next[v.Term]
				good = good && nx != nil && (nx == v.Term || nx.Op == "append" && nx.Args[0] == v.Term && len(nx.Args) == 2 && nx.Args[1].Op == "mkmap" && it.madeIn(nx.Args[1], inst))
			}
			if good {
				return true
			}
		}
	}
	return false
}

// madeIn: the object was made by the iteration the path describes.
func (t *Trace) madeIn(o *Term, inst *LoopInst) bool {
	for _, e := range t.Events {
		if e.Kind == "make" && e.Res == o {
			return inLoop(e, inst)
		}
		if e.Kind == "store" && RootOf(e.Loc) == o {
			return inLoop(e, inst)
		}
	}
	return false
}

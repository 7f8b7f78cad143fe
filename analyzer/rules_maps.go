package main

import "strings"

// Rules for maps and sets: what each operation does to the binding of its key.

// ---- collections visited by loops ----

// collected resolves a list built by a loop over all keys of a map: it
// returns that map and what is collected ("rkey" or "rval" or the element
// term of another shape).
func (t *Trace) collected(list *Term) (m *Term, what *Term, ok bool) {
	for _, inst := range t.loopsIn() {
		if inst.Mapiter == nil || !t.leftExhausted(inst, nil, nil) {
			continue
		}
		if v := inst.Var(list); v != nil && normList(v.Init).isEmpty2() {
			good := len(inst.Iters) > 0
			for _, it := range inst.Iters {
				nx := it.Next[list]
				if nx == nil || nx.Op != "append" || len(nx.Args) != 2 || nx.Args[0] != list || !good {
					good = false
					break
				}
				what = nx.Args[1]
			}
			if good && len(inst.Iters) >= 1 {
				return inst.Mapiter.Args[0], what, true
			}
		}
		// list[i] = k for a list of the size of the map
		if list.Op == "mkslice" && list.Args[0].Op == "maplen" {
			good := len(inst.Iters) > 0 && list.Args[0].Args[0] == inst.Mapiter.Args[0]
			for _, it := range inst.Iters {
				n := 0
				for _, e := range it.Events {
					if e.Kind == "store" && e.Loc.Op == "iaddr" && e.Loc.Args[0] == list {
						n++
						v := inst.Var(e.Loc.Args[1])
						if v == nil || !isZero(v.Init) {
							good = false
						} else if st, is := inductionStep(inst, v); !is || st != 1 {
							good = false
						}
						what = e.Val
					}
				}
				good = good && n == 1
			}
			if good {
				return inst.Mapiter.Args[0], what, true
			}
		}
	}
	if list.Op == "call" && list.IsCall("slices.Collect", "slices.Sorted") && len(list.Args) == 1 {
		a := list.Args[0]
		if a.IsCall("maps.Keys") {
			return a.Args[0], mk("rkey", "", nil, a), true
		}
		if a.IsCall("maps.Values") {
			return a.Args[0], mk("rval", "", nil, a), true
		}
	}
	return nil, nil, false
}

func (n *listNF) isEmpty2() bool {
	return n.isEmpty() || n.Base != nil && n.Base.Op == "mkslice" && isZero(n.Base.Args[0]) && len(n.App) == 0
}

// copied: the list is a fresh copy of another one.
func (t *Trace) copied(list *Term) *Term {
	if list.Op == "appends" && normList(list.Args[0]).isEmpty2() {
		return list.Args[1]
	}
	if list.Op != "mkslice" {
		return nil
	}
	var src *Term
	for _, e := range t.Events {
		switch {
		case e.Kind == "copy" && e.Loc == list && src == nil && list.Args[0] == tLen(e.Val):
			src = e.Val
		case e.Kind == "copy" && e.Loc == list, e.Kind == "store" && e.Loc.Op == "iaddr" && e.Loc.Args[0] == list:
			return nil
		}
	}
	return src
}

// visits: elem ranges over a collection in the loop; returns the collection
// (a map term for its keys, or a list term) when the loop, left as on this
// path, visited all of it.
func (t *Trace) visits(inst *LoopInst, elem *Term) (coll *Term, ok bool) {
	if elem.Op == "rkey" && inst.Mapiter != nil && elem.Args[0] == inst.Mapiter {
		return inst.Mapiter.Args[0], t.leftExhausted(inst, nil, nil)
	}
	if l, i, is := elemIndex(elem); is {
		coll = l
		if src := inst.consumes(l); src != nil && isZero(i) {
			return src, t.Facts.ProveLE(tLen(l), tInt(0), 0)
		}
		if m, what, c := t.collected(l); c && what.Op == "rkey" {
			coll = m
		}
		return coll, covers(inst, tLen(l), i) && t.leftExhausted(inst, i, tLen(l))
	}
	return nil, false
}

// consumes: every iteration of the loop drops the first element of the list,
// which it started with as src.
func (inst *LoopInst) consumes(l *Term) (src *Term) {
	v := inst.Var(l)
	if v == nil || inst.sharedVar(v) || len(inst.Iters) == 0 {
		return nil
	}
	for _, it := range inst.Iters {
		if it.Next[v.Term] == nil {
			return nil
		}
		nf := normList(it.Next[v.Term])
		if nf.Base != v.Term || nf.Drop != 1 || len(nf.Removed) > 0 || len(nf.App) > 0 || nf.Bulk || nf.Cut != nil || nf.Without != nil {
			return nil
		}
	}
	return v.Init
}

// memberOf: elem is an element of the list (of what is left of it in a loop
// working it off).
func (t *Trace) memberOf(elem, list *Term) bool {
	l, i, is := elemIndex(elem)
	if !is {
		return false
	}
	if l == list {
		return true
	}
	for _, e := range t.Events {
		if e.Kind == "loopenter" && e.Loop.Var(l) != nil && isZero(i) {
			return e.Loop.consumes(l) == list
		}
	}
	return false
}

// iterFacts: what one iteration of the loop decided.
func iterFacts(inst *LoopInst, it *Trace) Facts {
	if inst.NFacts <= len(it.Facts) {
		return it.Facts[inst.NFacts:]
	}
	return nil
}

// ---- one key's binding ----

type mapSpec struct {
	Field string
	Key   func(t *Trace) *Term
	Order string // the check deciding that a list holds the same keys
}

func keyAt(i int) func(*Trace) *Term { return func(t *Trace) *Term { return param(t.Proc, i) } }

// gets: the lookups of the operation's key on this path.
func (sp *mapSpec) gets(t *Trace) []*Event {
	var out []*Event
	for _, e := range t.mapEvs(sp.Field, "mapget") {
		if t.eq(e.Key, sp.Key(t)) {
			out = append(out, e)
		}
	}
	return out
}

func (sp *mapSpec) changes(t *Trace) []*Event {
	var out []*Event
	for _, e := range t.Events {
		if mapChange(e, sp.Field) && !e.Fresh {
			out = append(out, e)
		}
	}
	return out
}

// present reports the outcome the path saw for its key last: 1, -1 or 0.
func (sp *mapSpec) seen(t *Trace) int {
	g := sp.gets(t)
	for i := len(g) - 1; i >= 0; i-- {
		if v := t.truth(g[i].Ok); v != 0 {
			return v
		}
	}
	return 0
}

// reports: ret says whether the key is present.
func (c *Chk) reports(rule string, t *Trace, sp *mapSpec, ret *Term) {
	g := sp.gets(t)
	ok := false
	if n := len(g); n > 0 {
		last := g[n-1]
		ok = ret == last.Ok || t.truth(ret) != 0 && t.truth(ret) == t.truth(last.Ok)
	}
	if !ok && len(g) == 0 {
		// derived from the lookup of a stored non-nil value
		for _, e := range t.mapEvs(sp.Field, "mapget") {
			_ = e
		}
	}
	c.check(rule, ok, t, nil, "the result %v does not report whether the key is present", ret)
}

// onlyKey: the operation changes the binding of its own key and no other.
func (c *Chk) onlyKey(rule string, t *Trace, sp *mapSpec) {
	for _, e := range sp.changes(t) {
		ok := (e.Kind == "mapset" || e.Kind == "mapdel") && t.eq(e.Key, sp.Key(t))
		c.check(rule, ok, t, e, "the operation changes bindings other than that of its key")
	}
}

func (c *Chk) readOnly(rule string, t *Trace, sp *mapSpec) {
	ch := sp.changes(t)
	var e *Event
	if len(ch) > 0 {
		e = ch[0]
	}
	c.check(rule, len(ch) == 0, t, e, "a reading operation changes the map")
}

func (c *Chk) getOp(name string, sp *mapSpec) {
	for _, t := range returns(c.P(name)) {
		c.reports("get.ok", t, sp, t.Ret[1])
		c.readOnly("get.pure", t, sp)
		g := sp.gets(t)
		ok := false
		if n := len(g); n > 0 {
			ok = t.eq(t.Ret[0], g[n-1].Res) || t.truth(g[n-1].Ok) == -1 && isZeroVal(t.Ret[0])
		}
		c.check("get.value", ok, t, nil, "the value returned is not the one stored under the key")
	}
	c.atLeast("get.value", 1)
}

func isZeroVal(t *Term) bool {
	return t != nil && (t.Op == "zero" || t.IsNil() || t.Op == "const" && (t.S == "0" || t.S == "" || t.S == "false"))
}

func (c *Chk) hasOp(name string, sp *mapSpec) {
	for _, t := range returns(c.P(name)) {
		c.reports("has", t, sp, t.Ret[0])
		c.readOnly("has.pure", t, sp)
	}
	c.atLeast("has", 1)
}

func (c *Chk) setOp(name string, sp *mapSpec, val int) {
	for _, t := range returns(c.P(name)) {
		c.onlyKey("set.only-key", t, sp)
		var last *Event
		for _, e := range sp.changes(t) {
			if t.eq(e.Key, sp.Key(t)) {
				last = e
			}
		}
		ok := last != nil && last.Kind == "mapset" && (val < 0 || t.eq(last.Val, param(t.Proc, val)))
		c.check("set.stores", ok, t, last, "Set can return without the given value stored under the key")
	}
	c.atLeast("set.stores", 1)
}

func (c *Chk) deleteOp(name string, sp *mapSpec) {
	for _, t := range returns(c.P(name)) {
		c.onlyKey("delete.only-key", t, sp)
		c.check("delete.absent", t.finalPresence(sp.Field, sp.Key(t)) == -1, t, nil, "the key can still be present when the operation returns")
	}
	c.atLeast("delete.absent", 1)
}

func (c *Chk) sizeOp(name string, sp *mapSpec) {
	for _, t := range returns(c.P(name)) {
		ok := false
		for _, e := range t.mapEvs(sp.Field, "maplen") {
			ok = ok || e.Res == t.Ret[0]
		}
		if l := t.Ret[0]; !ok && l != nil && l.Op == "len" && sp.Order != "" {
			ok = c.inStep(place(l.Args[0]), name, sp)
		}
		c.check("size", ok, t, nil, "the size returned is not the number of stored keys")
		c.readOnly("size.pure", t, sp)
	}
	c.atLeast("size", 1)
}

// removesAll: every round of the loop over the map removes the key it visits.
func (l *LoopInst) removesAll(field string) bool {
	for _, it := range l.Iters {
		del := false
		for _, ev := range it.mapEvs(field, "mapdel") {
			del = del || ev.Key.Op == "rkey" && ev.Key.Args[0] == l.Mapiter && sameMap(ev.Map, l.Mapiter.Args[0])
		}
		if !del {
			return false
		}
	}
	return len(l.Iters) > 0
}

// sameMap: the two terms read the same place (its contents may have changed).
func sameMap(a, b *Term) bool {
	return a == b || a.Op == "load" && b.Op == "load" && a.Args[0] == b.Args[0]
}

// empties: on this path the map of the field is emptied.
func (t *Trace) empties(field string) bool {
	done := false
	for _, e := range t.Events {
		if isReset(e, field) {
			done = true
		} else if e.Kind == "mapset" && place(e.Map) == field {
			done = false
		} else if e.Kind == "loopenter" && e.Loop.Mapiter != nil && place(e.Loop.Mapiter.Args[0]) == field && t.leftExhausted(e.Loop, nil, nil) {
			done = done || e.Loop.removesAll(field)
		}
	}
	return done
}

func (c *Chk) clearOp(name string, sp *mapSpec) {
	for _, t := range returns(c.P(name)) {
		c.check("clear", t.empties(sp.Field), t, nil, "the operation can return without having emptied the map")
	}
	c.atLeast("clear", 1)
}

// inStep: the field is the list kept in step with the map.
func (c *Chk) inStep(field, name string, sp *mapSpec) bool {
	s := newChk(c.w, c.x, sp.Order, c.Tier)
	registry[sp.Order].run(s)
	return field != "" && field == s.listField(name[:strings.LastIndex(name, ".")], sp.Field) && len(s.Findings) == 0
}

func (c *Chk) keysOp(name string, sp *mapSpec) {
	for _, t := range returns(c.P(name)) {
		m, what, ok := t.collected(t.Ret[0])
		ok = ok && place(m) == sp.Field && what.Op == "rkey"
		if l := t.copied(t.Ret[0]); !ok && l != nil && sp.Order != "" {
			ok = c.inStep(place(l), name, sp)
		}
		c.check("keys", ok, t, nil, "the keys returned are not exactly the stored keys")
		c.readOnly("keys.pure", t, sp)
	}
	c.atLeast("keys", 1)
}

// hasOrCreate: the result tells whether the key was present; when it was not
// the same critical section that found it absent stores it.
func (c *Chk) hasOrCreate(name string, sp *mapSpec, wantPresent bool, stores func(t *Trace, e *Event) bool) {
	for _, t := range returns(c.P(name)) {
		r := t.truth(t.Ret[0])
		if r == 0 {
			// symbolic result: must be the presence itself and come with no
			// undecided store
			c.reports("create.result", t, sp, t.Ret[0])
			for _, e := range sp.changes(t) {
				c.check("create.undecided", e.Pres == -1 && t.truth(t.Ret[0]) != 0, t, e, "the key is stored on a path where the result does not say so")
			}
			continue
		}
		present := r == 1
		if !wantPresent {
			present = !present
		}
		if present {
			c.check("create.present", sp.seen(t) == 1, t, nil, "the operation reports an existing key although the key was not found present")
			c.readOnly("create.keeps", t, sp)
		} else {
			n := 0
			var last *Event
			for _, e := range sp.changes(t) {
				if e.Kind == "mapset" && t.eq(e.Key, sp.Key(t)) {
					n++
					last = e
				}
			}
			c.check("create.atomic", n == 1 && last.Pres == -1, t, last, "the key is reported as new without being stored in the critical section that found it absent")
			if stores != nil && last != nil {
				c.check("create.value", stores(t, last), t, last, "the value stored is not the given one")
			}
			c.check("create.final", sp.lastPresent(t), t, last, "the new key can be missing again when the operation returns")
		}
	}
	c.atLeast("create.atomic", 1)
	c.atLeast("create.present", 1)
}

// lastPresent: nothing that could be the operation's own key is removed after
// it was stored. Keys taken from a list of older keys differ from a key that
// was absent.
func (sp *mapSpec) lastPresent(t *Trace) bool {
	stored, ok := false, false
	for _, e := range sp.changes(t) {
		switch {
		case e.Kind == "mapset" && t.eq(e.Key, sp.Key(t)):
			stored, ok = true, true
		case e.Kind == "mapdel" && stored:
			if t.ne(e.Key, sp.Key(t)) {
				continue
			}
			l, _, is := elemIndex(e.Key)
			if is && (place2(t, l) != "") && !t.eq(e.Key, sp.Key(t)) {
				continue
			}
			ok = false
		case isReset(e, sp.Field):
			ok = false
		}
	}
	return ok
}

func (c *Chk) ctorMakes(name string, fields ...string) {
	for _, t := range returns(c.P(name)) {
		if len(t.Ret) == 0 || t.Ret[0].IsNil() {
			continue
		}
		for _, f := range fields {
			ok := false
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Loc.S == f && (e.Val.Op == "mkmap" || e.Val.Op == "mkslice") {
					ok = true
				}
			}
			c.check("constructed", ok, t, nil, "%s is not created by %s", lastSeg(f), name)
		}
	}
}

func init() {
	register("H02", "for every path of every HashSet method: the result equals the membership the path looked up, the key is stored in the very critical section that found it absent, deletes and clears remove, and listing loops visit every key once", func(c *Chk) {
		n := "collections.HashSet."
		sp := &mapSpec{Field: c.presenceMap(n + "Has"), Key: keyAt(1), Order: "H01"}
		if sp.Field == "" {
			return
		}
		c.hasOp(n+"Has", sp)
		c.sizeOp(n+"Count", sp)
		c.keysOp(n+"Keys", sp)
		c.clearOp(n+"Clear", sp)
		c.deleteOp(n+"Delete", sp)
		for _, t := range returns(c.P(n + "Add")) {
			c.check("add", sp.seen(t) == 1 && len(sp.changes(t)) == 0 || sp.lastPresent(t), t, nil, "Add can return with the key absent")
		}
		c.hasOrCreate(n+"HasOrCreate", sp, true, nil)
		c.ctorMakes("collections.HashSetBuilder.Build", sp.Field)
		for _, p := range c.family("collections", "HashSet") {
			for _, t := range p.Traces {
				c.trueValues("members", t, sp)
			}
		}
	})
	register("M01", "for every path of every Map method of SimpleMap and ShardMap: results equal the binding the path looked up, writes touch only the operation's key with the given value, a key is stored only in the critical section that found it absent, and the value function is called at most once and only then", func(c *Chk) {
		for _, typ := range []string{"SimpleMap", "ShardMap"} {
			n := "collections." + typ + "."
			sp := &mapSpec{Field: c.presenceMap(n + "Has"), Key: keyAt(1)}
			if sp.Field == "" {
				continue
			}
			c.getOp(n+"Get", sp)
			c.hasOp(n+"Has", sp)
			c.setOp(n+"Set", sp, 2)
			c.deleteOp(n+"Delete", sp)
			c.hasOrCreate(n+"SetIfNotExists", sp, false, func(t *Trace, e *Event) bool { return t.eq(e.Val, param(t.Proc, 2)) })
			c.setWithFunc(n+"SetIfNotExistsWithFunc", sp)
			if typ == "SimpleMap" {
				c.sizeOp(n+"Size", sp)
				c.ctorMakes("collections.NewSimpleMap", sp.Field)
			}
		}
	})
}

// trueValues: sets kept as map[K]bool only ever store true.
func (c *Chk) trueValues(rule string, t *Trace, sp *mapSpec) {
	for _, e := range t.mapEvs(sp.Field, "mapset") {
		c.check(rule, !e.Val.IsFalse(), t, e, "a member is stored as false")
	}
}

func (c *Chk) setWithFunc(name string, sp *mapSpec) {
	p := c.P(name)
	if p == nil {
		return
	}
	fn := param(p, 2)
	for _, t := range p.Traces {
		var calls, sets []*Event
		for _, e := range t.of("callback") {
			if e.FnT == fn {
				calls = append(calls, e)
			}
		}
		sets = sp.changes(t)
		switch t.End {
		case "panic":
			c.check("func.panic", len(sets) == 0, t, nil, "a value is stored although the value function panicked")
			continue
		case "return":
		default:
			continue
		}
		r := t.truth(t.Ret[1])
		c.check("func.result", r != 0, t, nil, "the path does not decide whether it stored")
		if r == 1 {
			ok := len(calls) == 1 && len(sets) == 1 && sets[0].Kind == "mapset" && t.eq(sets[0].Key, sp.Key(t)) && sets[0].Pres == -1
			var e *Event
			if len(sets) > 0 {
				e = sets[0]
			}
			c.check("func.store", ok, t, e, "the value is reported as stored without exactly one call of the function and one store in the critical section that found the key absent")
			if ok {
				c.check("func.value", t.eq(sets[0].Val, calls[0].Res) && t.eq(t.Ret[0], calls[0].Res), t, e, "the value stored or returned is not the function's result")
				c.check("func.when-absent", t.at(calls[0]).Eval(lastOk(sp.gets(t), calls[0])) == -1, t, calls[0], "the value function is called although the key was not found absent")
			}
		} else {
			c.check("func.keeps", len(calls) == 0 && len(sets) == 0 && sp.seen(t) == 1, t, nil, "an existing binding is replaced, or the function called for it")
			g := sp.gets(t)
			c.check("func.existing", len(g) > 0 && t.eq(t.Ret[0], g[len(g)-1].Res), t, nil, "the value returned for an existing key is not the stored one")
		}
	}
	c.atLeast("func.store", 1)
	c.atLeast("func.keeps", 1)
}

func lastOk(gets []*Event, before *Event) *Term {
	r := tBool(true)
	for _, g := range gets {
		if g.Seq < before.Seq {
			r = g.Ok
		}
	}
	return r
}

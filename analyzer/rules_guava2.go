package main

// Rules for GuavaMap: expiry (G04), update locks (G05), point operations (G06).

func timerCall(e *Event) bool {
	return e.Kind == "call" && (e.Name == "time.NewTimer" || e.Name == "time.AfterFunc")
}

// positive: is the configured duration known positive (1), not positive (-1).
func (t *Trace) positive(facts Facts, fields map[string]bool) int { return t.isSet(facts, fields) }

// wantTimeout decides which configured timeout must be used on this path:
// 1 the first, 2 the second, -1 none, 0 not decided.
func (t *Trace) wantTimeout(first, second map[string]bool) int {
	switch t.isSet(t.Facts, first) {
	case 1:
		return 1
	case -1:
		switch t.isSet(t.Facts, second) {
		case 1:
			return 2
		case -1:
			return -1
		}
		return -2 // the second one, if it is set
	}
	return 0
}

// timerOf: the entry whose timer field the term was read from.
func timerOf(t *Term) *Term {
	_, b := fieldBase(t)
	return b
}

func ruleG04(c *Chk) {
	g := c.guava()
	if g == nil {
		return
	}
	for _, p := range g.procs {
		for _, t := range p.Traces {
			if t.End == "cut" {
				continue
			}
			c.g04create(g, p, t)
			c.g04goroutine(g, p, t)
			c.g04reset(g, p, t)
		}
	}
	c.atLeast("timer.created", 2)
	c.atLeast("expiry.identity", 1)
	c.atLeast("reset.write", 1)
	c.atLeast("reset.read", 2)
}

// g04create: what timer a new entry gets.
func (c *Chk) g04create(g *guava, p *Proc, t *Trace) {
	for _, e := range t.mapEvs(g.Map, "mapset") {
		if e.Fresh || e.Val.Op != "new" {
			continue
		}
		var arg, timer *Term
		n := 0
		for _, k := range t.Events {
			if !timerCall(k) {
				continue
			}
			for _, s := range t.of("store") {
				if s.Loc.Op == "faddr" && s.Loc.Args[0] == e.Val && s.Val == k.Res {
					n++
					arg, timer = k.Args[0], k.Res
				}
			}
		}
		want := t.wantTimeout(g.W, g.R)
		if n == 0 {
			ok := want == -1
			c.check("timer.none", ok, t, e, "an entry is created without an expiry timer although a timeout may be configured")
			continue
		}
		ok := n == 1
		switch {
		case fromField(arg, g.W):
			ok = ok && want == 1
		case fromField(arg, g.R):
			ok = ok && want == 2
		default:
			ok = false
		}
		c.check("timer.created", ok, t, e, "the timer of a new entry is not armed with the write timeout or, without one, the read timeout")
		// what runs when it fires: a goroutine of this path waiting for it
		found := false
		for _, k := range t.Events {
			if k.Proc == nil || k.Proc.Kind != "go" {
				continue
			}
			for _, u := range k.Proc.Traces {
				for _, s := range u.of("select", "recv") {
					if n, b := fieldBase(s.Ch); n == "time.Timer.C" && b != nil && (b == timer || g.timerField(b) && timerOf(b) == e.Val) {
						found = true
					}
				}
			}
			if timerCall(k) && k.Res == timer {
				found = true
			}
		}
		c.check("timer.watched", found, t, e, "no goroutine waits for the timer of the new entry")
	}
}

func (g *guava) timerField(t *Term) bool { return t.Op == "load" || t.Op == "fld" }

// g04goroutine: expiry removes only the entry the timer belongs to, and does
// remove it.
func (c *Chk) g04goroutine(g *guava, p *Proc, t *Trace) {
	if p.Kind != "go" {
		return
	}
	fired := false
	done := false
	for _, s := range t.of("select", "recv") {
		if isClock(s.Ch) {
			fired = true
		}
		if isDone(s, nil) {
			done = true
		}
	}
	after := false
	for _, e := range t.of("select", "recv") {
		_ = e
		after = true
	}
	if !after && p.Parent != nil {
		// body of time.AfterFunc
		for _, u := range p.Parent.Traces {
			for _, e := range u.Events {
				if e.Proc == p && e.Name == "time.AfterFunc" {
					fired = true
				}
			}
		}
	}
	removed, kept := false, false
	for _, e := range t.Events {
		if !mapChange(e, g.Map) || e.Fresh {
			continue
		}
		if !c.check("expiry.kind", e.Kind == "mapdel", t, e, "the expiry of one entry replaces or clears the whole map") {
			continue
		}
		removed = true
		X := e.Old
		ok := false
		if X != nil {
			for _, f := range t.at(e) {
				if f.Val && f.Atom.Op == "eq" {
					for i := 0; i < 2; i++ {
						o := f.Atom.Args[1-i]
						if (f.Atom.Args[i] == X || t.at(e).Eval(tEq(f.Atom.Args[i], X)) == 1) && o.Op == "new" && g.storedUnder(p, o, e.Key) {
							ok = true
						}
					}
				}
			}
			if X.Op == "new" {
				ok = g.storedUnder(p, X, e.Key)
			}
		}
		c.check("expiry.identity", ok && wsec(e) >= 0, t, e, "the expiry removes whatever entry the key has without proof, in the same critical section, that it is the entry the timer belongs to")
		c.check("expiry.fired", fired && !done, t, e, "an entry is removed although its timer did not fire")
	}
	for _, f := range t.Facts {
		if !f.Val && f.Atom.Op == "eq" {
			for i := 0; i < 2; i++ {
				if f.Atom.Args[i].Op == "lookup" && place(f.Atom.Args[i].Args[0]) == g.Map {
					kept = true
				}
			}
		}
		if !f.Val && f.Atom.Op == "has" && place(f.Atom.Args[0]) == g.Map {
			kept = true
		}
	}
	if t.End == "return" && fired && !removed && g.expires(p) {
		c.check("expiry.removes", kept, t, nil, "the timer fires and the goroutine ends although its entry may still be stored")
	}
	if t.End == "return" && !fired && g.expires(p) {
		c.check("expiry.waits", done, t, nil, "the goroutine of an entry can end without its timer having fired or its context having ended")
	}
}

// expires: the procedure removes entries at all.
func (g *guava) expires(p *Proc) bool {
	for _, t := range p.Traces {
		for _, e := range t.Events {
			if mapChange(e, g.Map) && !e.Fresh {
				return true
			}
		}
	}
	return false
}

// storedUnder: the entry object was stored by the starting procedure under
// this key.
func (g *guava) storedUnder(p *Proc, o, key *Term) bool {
	for q := p.Parent; q != nil; q = q.Parent {
		for _, t := range q.Traces {
			for _, e := range t.mapEvs(g.Map, "mapset") {
				if e.Val == o {
					return e.Key == key || t.eq(e.Key, key)
				}
			}
		}
	}
	return false
}

// g04reset: which operations restart timers.
func (c *Chk) g04reset(g *guava, p *Proc, t *Trace) {
	if t.End != "return" || p.Kind != "api" {
		return
	}
	var resets []*Event
	for _, e := range t.of("call") {
		switch e.Name {
		case "(*time.Timer).Reset":
			if b := timerOf(e.Args[0]); b != nil && b.Op != "new" {
				resets = append(resets, e)
			}
		}
	}
	used := map[*Event]bool{}
	mine := func(entry *Term) []*Event {
		var out []*Event
		for _, r := range resets {
			if t.eq(timerOf(r.Args[0]), entry) {
				out = append(out, r)
			}
		}
		return out
	}
	noTimer := func(entry *Term) bool {
		for _, f := range t.Facts {
			if f.Val && f.Atom.Op == "eq" && (f.Atom.Args[0].IsNil() || f.Atom.Args[1].IsNil()) {
				for i := 0; i < 2; i++ {
					if _, b := fieldBase(f.Atom.Args[i]); b != nil && isTimerPtr(f.Atom.Args[i]) && t.eq(b, entry) {
						return true
					}
				}
			}
		}
		return false
	}
	// writes to existing entries
	wrote := map[*Term]bool{}
	for _, s := range t.of("store") {
		if s.Loc.Op != "faddr" || s.Loc.S != g.Val || g.Val == "" || s.Loc.Args[0].Op == "new" {
			continue
		}
		entry := s.Loc.Args[0]
		wrote[entry] = true
		rs := mine(entry)
		for _, r := range rs {
			used[r] = true
		}
		if noTimer(entry) {
			c.check("reset.write", len(rs) == 0, t, s, "a missing timer is reset")
			continue
		}
		ok := false
		want := t.wantTimeout(g.W, g.R)
		if len(rs) > 0 {
			r := rs[len(rs)-1]
			ok = fromField(r.Args[1], g.W) && want == 1 || fromField(r.Args[1], g.R) && (want == 2 || want == -2)
		} else {
			ok = want == -1
		}
		c.check("reset.write", ok, t, s, "writing an entry does not restart its expiry with the write timeout or, without one, the read timeout")
	}
	// successful reads
	name := lastSeg(p.Name)
	var hit *Term
	sp := &mapSpec{Field: g.Map, Key: keyAt(1)}
	gets := sp.gets(t)
	var g0 *Event
	if len(gets) > 0 {
		g0 = gets[len(gets)-1]
	}
	switch name {
	case "Has", "HasOrCreate", "Get":
		if g0 != nil && t.truth(g0.Ok) != -1 {
			hit = g0.Res
		}
	}
	if hit != nil && hit.Op != "new" && !wrote[hit] {
		rs := mine(hit)
		for _, r := range rs {
			used[r] = true
		}
		switch {
		case noTimer(hit):
			c.check("reset.read", len(rs) == 0, t, g0, "a missing timer is reset")
		case t.isSet(t.Facts, g.R) == 1:
			ok := len(rs) > 0 && fromField(rs[len(rs)-1].Args[1], g.R)
			c.check("reset.read", ok, t, g0, "a successful read does not restart the read timeout")
		case t.isSet(t.Facts, g.R) == -1:
			c.check("reset.read", len(rs) == 0, t, g0, "a read changes the expiry although no read timeout is configured")
		default:
			c.check("reset.read", false, t, g0, "a successful read does not depend on whether a read timeout is configured")
		}
	}
	for _, r := range resets {
		if !used[r] {
			c.check("reset.other", false, t, r, "the expiry of an entry is restarted by an operation that neither reads nor writes it successfully")
		}
	}
	// stopping or cancelling the timer of an entry that stays
	for _, e := range t.Events {
		var entry *Term
		switch {
		case e.Kind == "call" && e.Name == "(*time.Timer).Stop":
			entry = timerOf(e.Args[0])
			for _, r := range resets {
				if r.Seq > e.Seq && entry != nil && t.eq(timerOf(r.Args[0]), entry) {
					entry = nil
				}
			}
		case e.Kind == "call" && e.Name == "context.CancelFunc":
			_, entry = fieldBase(e.FnT)
		}
		if entry == nil {
			continue
		}
		gone := false
		for _, d := range t.Events {
			if mapChange(d, g.Map) && !d.Fresh && (isReset(d, g.Map) || d.Old != nil && t.eq(d.Old, entry)) {
				gone = true
			}
		}
		c.check("timer.disarmed", gone, t, e, "the expiry of an entry is disarmed although the entry stays in the map")
	}
}

func isTimerPtr(t *Term) bool {
	return t.T != nil && t.T.String() == "*time.Timer"
}

func ruleG05(c *Chk) {
	g := c.guava()
	p := c.P("collections.GuavaMap.LockForUpdate")
	if g == nil || p == nil {
		return
	}
	key := param(p, 1)
	fn := param(p, 2)
	tables := map[string]bool{}
	refs := map[string]bool{}
	for _, t := range p.Traces {
		if t.End != "return" && t.End != "panic" {
			continue
		}
		var calls []*Event
		for _, e := range t.of("callback") {
			if e.FnT == fn {
				calls = append(calls, e)
			}
		}
		for _, e := range calls {
			var kl *Held
			for i, h := range e.Locks {
				if t.keyLock(h, key) {
					kl = &e.Locks[i]
				} else {
					c.check("update.only-key-lock", false, t, e, "the update function runs while %v is held, which blocks operations on other keys", h.Loc)
				}
			}
			if !c.check("update.locked", kl != nil, t, e, "the update function runs without an exclusive lock found under its key") {
				continue
			}
			if te := t.tableLock(*kl, key); te != nil && kl.Loc.Op != "keyed" {
				tables[c.tableName(t, te.Map)] = true
				c.g05entry(t, te, kl, refs)
			}
			// published before the lock is released
			if t.End == "return" {
				ok := false
				for _, s := range t.Events {
					if s.Seq < e.Seq || !holdsSeq(s, kl.Seq) {
						continue
					}
					if s.Kind == "mapset" && place(s.Map) == g.Map && t.eq(s.Key, key) && g.holds(t, s.Val, e.Res, nil) {
						ok = true
					}
					if s.Kind == "store" && s.Loc.Op == "faddr" && s.Loc.S == g.Val && t.eq(s.Val, e.Res) && g.storedEntry(t, s.Loc.Args[0], key) {
						ok = true
					}
				}
				c.check("update.stored", ok, t, e, "the result is not stored under the key before the key's update lock is released")
				c.check("update.kept", t.finalPresence(g.Map, key) != -1, t, e, "the updated entry can be removed before the call returns")
			}
		}
		if t.End == "return" {
			if c.check("update.once", len(calls) == 1, t, nil, "the update function is called %d times", len(calls)) {
				c.check("update.result", len(t.Ret) == 1 && t.eq(t.Ret[0], calls[0].Res), t, nil, "the call does not return the result of the update function")
			}
		}
	}
	c.atLeast("update.locked", 1)
	c.atLeast("update.stored", 1)
	// the table of update locks: an entry is dropped only when nobody uses it
	for _, q := range g.procs {
		for _, t := range q.Traces {
			for _, e := range t.Events {
				if e.Fresh || e.Kind == "mapset" {
					continue
				}
				hit := false
				for tb := range tables {
					if tb == "" {
						continue
					}
					if mapChange(e, tb) {
						hit = true
						if e.Kind == "store" {
							// first creation of the table
							if e.Val.Op == "mkmap" && t.at(e).Eval(tEq(tNil, t.oldVal(e))) == 1 {
								hit = false
							}
						}
					}
				}
				if !hit {
					continue
				}
				ok := e.Kind == "mapdel" && wsec(e) >= 0
				if ok {
					ok = false
					for _, f := range t.at(e) {
						f.Atom.Any(func(s *Term) bool {
							if n, b := fieldBase(s); b != nil && refs[n] && (e.Old == nil || t.eq(b, e.Old) || t.isTableEntry(b, e.Key)) {
								for _, st := range t.of("store") {
									// the count was lowered in this section and is zero now
									if st.Loc.Op == "faddr" && st.Loc.S == n && st.Loc.Args[0] == b && st.Seq < e.Seq && sameSection(st, e) && t.at(e).ProveLE(st.Val, tInt(0), 0) {
										ok = true
									}
								}
							}
							return false
						})
					}
				}
				c.check("update.table", ok, t, e, "the update lock of a key is dropped from its table although another call may still hold or wait for it")
			}
		}
	}
}

// oldVal: the value the location had before the store, if it was read.
func (t *Trace) oldVal(e *Event) *Term {
	for i := len(t.Events) - 1; i >= 0; i-- {
		l := t.Events[i]
		if l.Seq < e.Seq && l.Kind == "load" && l.Loc == e.Loc {
			return l.Val
		}
	}
	return e.Loc
}

func (t *Trace) isTableEntry(o, key *Term) bool {
	for _, e := range t.Events {
		if e.Kind == "mapget" && e.Res == o && t.eq(e.Key, key) || e.Kind == "mapset" && e.Val == o && t.eq(e.Key, key) {
			return true
		}
	}
	return false
}

func (c *Chk) tableName(t *Trace, m *Term) string {
	if n := place(m); n != "" {
		return n
	}
	return ""
}

// g05entry: the lock object is found or created under the table's own lock,
// and its use is counted in the same section when counts exist.
func (c *Chk) g05entry(t *Trace, te *Event, kl *Held, refs map[string]bool) {
	o := kl.Loc
	for o.Op == "faddr" {
		o = o.Args[0]
	}
	if te.Kind == "mapset" {
		c.check("update.table-atomic", te.Pres == -1, t, te, "a new update lock is put into the table although the key may have one already")
	}
	var up, down *Event
	for _, s := range t.of("store") {
		if s.Loc.Op != "faddr" || s.Loc.Args[0] != o || s.Val.T == nil || !isIntType(s.Val.T) {
			continue
		}
		refs[s.Loc.S] = true
		if s.Seq < kl.Seq {
			up = s
		} else {
			down = s
		}
	}
	if !t.dropsEntries(te) && up == nil {
		return
	}
	okUp := up != nil && sameSection(up, te)
	c.check("update.counted", okUp, t, te, "the use of the key's update lock is not counted in the critical section that looked it up")
	if down != nil {
		for _, h := range down.Locks {
			_ = h
		}
		last := t.lastStoreBefore(down)
		c.check("update.count-down", last, t, down, "the use count of the update lock is lowered before the result is stored")
	}
}

func (t *Trace) dropsEntries(te *Event) bool {
	for _, e := range t.of("mapdel") {
		if place(e.Map) == place(te.Map) && place(e.Map) != "" {
			return true
		}
	}
	return false
}

// lastStoreBefore: all map updates of the path precede the event.
func (t *Trace) lastStoreBefore(d *Event) bool {
	for _, e := range t.Events {
		if e.Seq > d.Seq && (e.Kind == "callback" || e.Kind == "mapset") {
			return false
		}
	}
	return true
}

// storedEntry: the object is the map's entry of the key.
func (g *guava) storedEntry(t *Trace, o, key *Term) bool {
	for _, e := range t.mapEvs(g.Map, "mapget") {
		if t.eq(e.Key, key) && t.eq(e.Res, o) && t.truth(e.Ok) == 1 {
			return true
		}
	}
	for _, e := range t.mapEvs(g.Map, "mapset") {
		if t.eq(e.Key, key) && e.Val == o {
			return true
		}
	}
	return false
}

func ruleG06(c *Chk) {
	g := c.guava()
	if g == nil {
		return
	}
	n := "collections.GuavaMap."
	sp := &mapSpec{Field: g.Map, Key: keyAt(1)}
	c.hasOp(n+"Has", sp)
	c.sizeOp(n+"Size", sp)
	c.clearOp(n+"Clear", sp)
	c.deleteOp(n+"Delete", sp)
	c.hasOrCreate(n+"HasOrCreate", sp, true, func(t *Trace, e *Event) bool { return g.holds(t, e.Val, param(t.Proc, 2), e) })
	for _, t := range returns(c.P(n + "HasOrCreate")) {
		if t.truth(t.Ret[0]) != 1 {
			continue
		}
		for _, s := range t.of("store") {
			if s.Loc.Op == "faddr" && s.Loc.S == g.Val && s.Loc.Args[0].Op != "new" {
				c.check("create.keeps", false, t, s, "the value of an existing key is changed")
			}
		}
	}
	for _, t := range returns(c.P(n + "Set")) {
		key, val := param(t.Proc, 1), param(t.Proc, 2)
		ok := false
		var last *Event
		for _, e := range t.Events {
			switch {
			case e.Kind == "mapset" && place(e.Map) == g.Map && t.eq(e.Key, key):
				ok, last = g.holds(t, e.Val, val, e), e
			case e.Kind == "store" && e.Loc.Op == "faddr" && e.Loc.S == g.Val && e.Loc.Args[0].Op != "new":
				st := g.storedEntry(t, e.Loc.Args[0], key)
				c.check("set.only-key", st && wsec(e) >= 0 && g.lookedUpIn(t, e, key), t, e, "the value of an entry is written without proof, in the same critical section, that it is the key's entry")
				ok, last = st && t.eq(e.Val, val), e
			case e.Kind == "mapset" && place(e.Map) == g.Map:
				c.check("set.only-key", false, t, e, "Set stores under another key")
			}
		}
		c.check("set.stores", ok, t, last, "Set can return without the given value stored under the key")
		if sp.seen(t) != 1 || len(sp.changes(t)) > 0 {
			c.check("set.final", sp.lastPresent(t) || t.finalPresence(g.Map, key) == 1, t, last, "the key can be missing again when Set returns")
		}
	}
	c.atLeast("set.stores", 2)
	for _, t := range returns(c.P(n + "GetStored")) {
		r := t.Ret[0]
		ok := false
		for _, inst := range t.loopsIn() {
			if inst.Mapiter == nil || place(inst.Mapiter.Args[0]) != g.Map || !t.leftExhausted(inst, nil, nil) || len(inst.Iters) == 0 {
				continue
			}
			all := true
			for _, it := range inst.Iters {
				k := 0
				for _, e := range it.of("mapset") {
					if e.Map == r && inLoop(e, inst) && e.Key.Op == "rkey" && g.valueOf(it, e.Val, mk("rval", e.Key.S, nil, e.Key.Args...)) {
						k++
					}
				}
				all = all && k == 1
			}
			ok = ok || all
		}
		c.check("stored", ok && r.Op == "mkmap", t, nil, "GetStored does not return a new map with exactly the stored entries")
		c.readOnly("stored.pure", t, sp)
	}
	c.atLeast("stored", 1)
	c.ctorMakes("collections.GuavaMapBuilder.Build", g.Map)
}

// lookedUpIn: the entry was looked up in the section of the event.
func (g *guava) lookedUpIn(t *Trace, e *Event, key *Term) bool {
	for _, k := range t.mapEvs(g.Map, "mapget") {
		if t.eq(k.Key, key) && t.eq(k.Res, e.Loc.Args[0]) && sameSection(k, e) {
			return true
		}
	}
	return false
}

func init() {
	register("G04", "every path that creates an entry arms one timer with the timeout the configuration demands, every removal by a timer goroutine is in a critical section that proved the stored entry to be the timer's own, and reads and writes of present entries restart the timer with the right timeout and nothing else does", ruleG04)
	register("G05", "every path of LockForUpdate calls the update function once, holding only an exclusive lock found under the key, stores its result before that lock is released and returns it; lock table entries are dropped only with a use count proven zero in the same critical section", ruleG05)
	register("G06", "for every path of every point operation of GuavaMap: results equal the membership the path looked up, the given value becomes the entry's value in the critical section of the lookup, deletes and clears remove, and copying loops cover all entries", ruleG06)
}

package main

// Rules for registries kept in an entry object: ResponseMap and HolderMap.
// An entry holds a list of waiting channels, flags that say it is settled,
// and is served by a goroutine started when the entry enters the table.

type entryReg struct {
	c       *Chk
	List    string // field holding the waiters
	Table   string // map field holding the entries
	Procs   []*Proc
	Regs    []*regn
	Open    map[string]*Term // flags tested by every join, with the value meaning not settled
	Serving map[*Proc]*creation
	Created []*creation
}

type creation struct {
	T     *Trace
	Set   *Event // table insertion
	Entry *Term
	Key   *Term
	Go    []*Event
}

// sameW: both events in one exclusive critical section.
func sameW(a, b *Event) bool {
	for _, h := range a.Locks {
		for _, g := range b.Locks {
			if h.Write && h.Seq == g.Seq && h.Loc == g.Loc {
				return true
			}
		}
	}
	return false
}

// constantOn: the constant a value is known to equal on the path.
func (t *Trace) constantOn(v *Term) *Term {
	if v.Op == "const" {
		return v
	}
	switch t.Facts.Eval(v) {
	case 1:
		return tBool(true)
	case -1:
		return tBool(false)
	}
	for _, f := range t.Facts {
		if f.Val && f.Atom.Op == "eq" {
			for i := 0; i < 2; i++ {
				if f.Atom.Args[i] == v && f.Atom.Args[1-i].Op == "const" {
					return f.Atom.Args[1-i]
				}
			}
		}
	}
	return nil
}

// notConstant: the value is known to differ from the constant.
func (t *Trace) differs(v, k *Term) bool {
	if c := t.constantOn(v); c != nil {
		return c != k
	}
	return t.ne(v, k)
}

func (c *Chk) entryRegistry(procs []*Proc, waitName string) *entryReg {
	r := &entryReg{c: c, Procs: procs, Table: c.presenceMap(waitName), Serving: map[*Proc]*creation{}}
	for _, g := range c.registrations(procs) {
		if g.IsMap {
			continue
		}
		if r.List == "" {
			r.List = g.Field
		}
		if g.Field == r.List {
			r.Regs = append(r.Regs, g)
		}
	}
	if r.List == "" || r.Table == "" {
		c.bad("anchor", waitName, "no list of waiting channels found in the entries of the map")
		return nil
	}
	// flags every join on a shared entry saw open
	for _, g := range r.Regs {
		if g.Ev.Fresh {
			continue
		}
		here := map[string]*Term{}
		for _, l := range g.T.of("load") {
			if l.Loc.Op != "faddr" || l.Loc.Args[0] != g.Owner || l.Seq > g.Ev.Seq || !sameW(l, g.Ev) {
				continue
			}
			if k := g.T.constantOn(l.Val); k != nil && k.Op == "const" {
				here[l.Loc.S] = k
			}
		}
		if r.Open == nil {
			r.Open = here
			continue
		}
		for f, k := range r.Open {
			if here[f] != k {
				delete(r.Open, f)
			}
		}
	}
	// keep the fields somebody settles
	set := map[string]bool{}
	for _, p := range procs {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && r.Open[e.Loc.S] != nil && e.Val.Op == "const" && e.Val != r.Open[e.Loc.S] {
					set[e.Loc.S] = true
				}
			}
		}
	}
	for f := range r.Open {
		if !set[f] {
			delete(r.Open, f)
		}
	}
	// creations
	for _, p := range procs {
		for _, t := range p.Traces {
			if t.End == "cut" || t.End == "back" {
				continue
			}
			for _, e := range t.mapEvs(r.Table, "mapset") {
				k := &creation{T: t, Set: e, Entry: e.Val, Key: e.Key}
				for _, g := range t.Events {
					if g.Proc != nil && g.Proc.Kind == "go" && r.wakes(g.Proc, e.Val) {
						k.Go = append(k.Go, g)
						if r.Serving[g.Proc] == nil {
							r.Serving[g.Proc] = k
						}
					}
				}
				r.Created = append(r.Created, k)
			}
		}
	}
	return r
}

// wakes: some path of the goroutine wakes the waiters of the entry.
func (r *entryReg) wakes(p *Proc, entry *Term) bool {
	for _, t := range p.Traces {
		for _, e := range t.Events {
			if l, _, _, _, ok := wakeOf(e); ok && place(l) == r.List && owner(l) == entry {
				return true
			}
		}
	}
	return false
}

// settles: the store marks the entry settled.
func (r *entryReg) settles(t *Trace, e *Event, entry *Term) bool {
	if e.Kind != "store" || e.Loc.Op != "faddr" || e.Loc.Args[0] != entry {
		return false
	}
	k := r.Open[e.Loc.S]
	return k != nil && t.differs(e.Val, k)
}

// settledIn: a flag of the entry is set in the critical section of e.
func (r *entryReg) settledIn(t *Trace, e *Event, entry *Term) bool {
	for _, s := range t.of("store") {
		if sameSection(s, e) && r.settles(t, s, entry) {
			return true
		}
	}
	return false
}

// sawSettled: a flag of the entry was read as set in the critical section of e.
func (r *entryReg) sawSettled(t *Trace, e *Event, entry *Term) bool {
	for _, l := range t.of("load") {
		if l.Loc.Op == "faddr" && l.Loc.Args[0] == entry && sameSection(l, e) {
			if k := r.Open[l.Loc.S]; k != nil && t.differs(l.Val, k) {
				return true
			}
		}
	}
	return false
}

// sawOpen: the flags of the entry (all) were read as not set in the exclusive
// critical section of e, before e.
func (r *entryReg) sawOpen(t *Trace, e *Event, entry *Term) bool {
	n := 0
	for f, k := range r.Open {
		for _, l := range t.of("load") {
			if l.Loc.Op == "faddr" && l.Loc.S == f && l.Loc.Args[0] == entry && l.Seq < e.Seq && sameW(l, e) && t.constantOn(l.Val) == k {
				n++
				break
			}
		}
	}
	return n > 0 && n == len(r.Open)
}

// entryOf: how the path reached the entry: a lookup of the key or a creation.
func (r *entryReg) isEntry(t *Trace, entry, key *Term) bool {
	for _, g := range t.mapEvs(r.Table, "mapget", "mapset") {
		if t.eq(g.Key, key) && (g.Kind == "mapget" && g.Res == entry && (t.truth(g.Ok) == 1 || t.ne(g.Res, tNil)) || g.Kind == "mapset" && g.Val == entry) {
			return true
		}
	}
	return false
}

func (r *entryReg) joins(rule string, sends bool) {
	c := r.c
	for _, g := range r.Regs {
		t, e := g.T, g.Ev
		nf := g.NF
		if e.Fresh {
			c.check(rule+".joins", len(nf.App) == 1 && nf.Base == nil, t, e, "a new entry does not start with its creator as the only waiter")
			for _, k := range r.Created {
				if k.T == t && k.Entry == g.Owner {
					for _, s := range k.Go {
						c.check(rule+".order", s.Seq > e.Seq, t, s, "the goroutine serving the entry starts before its first waiter is registered")
					}
				}
			}
		} else {
			base := false
			for _, l := range t.of("load") {
				base = base || nf.Base != nil && l.Loc == e.Loc && l.Val == nf.Base && sameW(l, e) && l.Seq < e.Seq
			}
			c.check(rule+".joins", base && nf.clean() && nf.Drop == 0 && len(nf.Removed) == 0 && len(nf.App) == 1, t, e, "a waiter registers without keeping the waiters already registered")
			c.check(rule+".recheck", len(r.Open) > 0 && r.sawOpen(t, e, g.Owner), t, e, "a waiter registers without having seen, in the same exclusive critical section, that the entry is not settled")
		}
		if sends {
			k, isC := g.Ch.Args[0].Int()
			c.check(rule+".buffered", isC && k >= 1, t, e, "waking a registered channel can block: it has no buffer")
		}
		c.ownRecv(rule, g, false)
	}
	c.atLeast(rule+".joins", 1)
	c.atLeast(rule+".recheck", 1)
}

// drops: waiters leave the list only woken, and woken waiters leave it or the
// entry is settled for good.
func (r *entryReg) drops(rule string) {
	c := r.c
	drainers := map[*Proc]bool{}
	for _, p := range r.Procs {
		for _, t := range p.Traces {
			for _, d := range t.drains() {
				if place(d.List) == r.List {
					drainers[p] = true
				}
			}
		}
	}
	for _, p := range r.Procs {
		for _, t := range p.Traces {
			if t.End == "cut" {
				continue
			}
			for _, e := range t.of("store") {
				if e.Loc.Op != "faddr" || e.Loc.S != r.List || e.Fresh {
					continue
				}
				reg := false
				for _, g := range r.Regs {
					reg = reg || g.Ev == e
				}
				if reg || t.prefix(e) {
					continue
				}
				nl := normList(e.Val)
				if t.End == "back" && len(nl.App) > 0 {
					continue
				}
				old := t.lastLoad(e)
				ok := old != nil && (t.drained(old) != nil || t.knownEmpty(old))
				c.check(rule+".wakes-all", ok && nl.isEmpty2() && len(nl.App) == 0, t, e, "waiters are dropped without waking each of them exactly once%s", badDrain(t))
			}
			for _, d := range t.drains() {
				if place(d.List) != r.List || t.Loop == d.Inst {
					continue
				}
				if !c.check(rule+".wakes-each", d.Bad == "", t, nil, "the loop waking the waiters %s", d.Bad) {
					continue
				}
				enter := t.enter(d.Inst)
				if enter == nil || t.End == "panic" || t.prefix(enter) {
					continue
				}
				entry := owner(d.List)
				claim := t.claim(d, r.List)
				c.check(rule+".current", t.readW(d.List, claim), t, claim, "the waiters woken were read in another critical section: waiters that joined meanwhile are missed")
				ok := false
				for _, e := range t.of("store") {
					if e.Loc.Op == "faddr" && e.Loc.S == r.List && e.Loc.Args[0] == entry && (e == claim || e.Seq > enter.Seq && sameW(e, enter)) {
						ok = true
					}
				}
				if !ok {
					// kept in the list, but nobody wakes again: settled in the same
					// section by the only goroutine that wakes, once
					ok = r.settledIn(t, enter, entry) && (r.sawOpen(t, enter, entry) || r.onlyOnce(p, enter))
				}
				c.check(rule+".woken-once", ok, t, enter, "woken waiters stay registered and can be woken again")
			}
		}
	}
	c.atLeast(rule+".wakes-each", 1)
}

// onlyOnce: p is the only procedure kind that wakes, and wakes once.
func (r *entryReg) onlyOnce(p *Proc, e *Event) bool {
	for _, l := range e.Loops {
		if l != e.Loop {
			return false
		}
	}
	if r.Serving[p] == nil {
		return false
	}
	for _, q := range r.Procs {
		if q == p || r.Serving[q] != nil {
			continue
		}
		for _, t := range q.Traces {
			for _, d := range t.drains() {
				if place(d.List) == r.List {
					return false
				}
			}
		}
	}
	return true
}

// prefix: the event lies before the loop an iteration path describes and is
// judged on the paths that leave the loop.
func (t *Trace) prefix(e *Event) bool {
	return t.End == "back" && t.Loop != nil && !inLoop(e, t.Loop) && len(t.Loop.Exits) > 0
}

// readW: the list was read in the exclusive critical section of e.
func (t *Trace) readW(list *Term, e *Event) bool {
	for _, l := range t.of("load", "store") {
		if l.Val == list && (l.Seq < e.Seq || e.Kind == "loopenter") && sameW(l, e) {
			return true
		}
	}
	return false
}

// claim: where the waiters about to be woken are taken over: the write that
// detaches the list from its entry before the loop, else the loop itself.
func (t *Trace) claim(d *drain, list string) *Event {
	enter := t.enter(d.Inst)
	for _, e := range t.of("store") {
		if e.Loc.Op == "faddr" && e.Loc.S == list && e.Loc.Args[0] == owner(d.List) && e.Seq < enter.Seq && wsec(e) >= 0 && !mentions(e.Val, d.List) {
			if l := normList(e.Val); l.isEmpty2() && len(l.App) == 0 && t.readW(d.List, e) {
				return e
			}
		}
	}
	return enter
}

func (t *Trace) enter(inst *LoopInst) *Event {
	for _, e := range t.of("loopenter") {
		if e.Loop == inst {
			return e
		}
	}
	return nil
}

// lastLoad: the value of the location read last before e in the same section.
func (t *Trace) lastLoad(e *Event) *Term {
	var v *Term
	for _, l := range t.of("load", "store") {
		if l.Loc == e.Loc && l.Seq < e.Seq && sameSection(l, e) {
			v = l.Val
		}
	}
	return v
}

// created: an entry enters the table only for an absent key, with exactly one
// goroutine serving it.
func (r *entryReg) created(rule string) {
	c := r.c
	for _, k := range r.Created {
		e := k.Set
		c.check(rule+".absent", k.T.presentIn(r.Table, e.Key, e) == -1, k.T, e, "an entry is put into the table without having seen, in the same critical section, that the key has none")
		c.check(rule+".fresh", k.Entry.Op == "new", k.T, e, "what enters the table is not a new entry")
		c.check(rule+".goroutine", len(k.Go) == 1 && len(k.Go[0].Loops) == 0, k.T, e, "a new entry is served by %d goroutines, not one", len(k.Go))
	}
	for _, p := range r.Procs {
		for _, t := range p.Traces {
			if t.End != "return" {
				continue
			}
			for _, g := range t.Events {
				if g.Proc == nil || r.Serving[g.Proc] == nil {
					continue
				}
				n := 0
				for _, k := range r.Created {
					if k.T == t {
						n++
					}
				}
				c.check(rule+".stored", n > 0, t, g, "a goroutine serving an entry is started although the entry is not put into the table")
			}
		}
	}
	c.atLeast(rule+".goroutine", 1)
}

// served: the goroutine of an entry waits for the timeout and the context,
// and ends only after waking all waiters and settling the entry.
func (r *entryReg) served(rule string, ctx, dur map[string]bool, hand string) {
	c := r.c
	clockSeen := map[*Proc]bool{}
	for p, k := range r.Serving {
		for _, t := range p.Traces {
			if t.End == "cut" {
				continue
			}
			for _, e := range t.blocked() {
				if e.Kind == "recv" && !isClock(e.Ch) && !isDone(e, nil) && place(e.Ch) != hand {
					c.check(rule+".bounded", false, t, e, "the goroutine serving an entry waits for something that may never come")
					continue
				}
				done, clock, other := t.waitsFor2(e, ctx, dur, hand)
				if t.drainsBefore(e, r.List) && t.End == "return" {
					continue // after its work
				}
				c.check(rule+".bounded", done && !other, t, e, "the goroutine serving an entry can wait without watching the context")
				if clock {
					clockSeen[p] = true
				}
			}
			if t.End != "return" {
				continue
			}
			ok := false
			for _, d := range t.drains() {
				if d.Bad != "" || place(d.List) != r.List || owner(d.List) != k.Entry {
					continue
				}
				if en := t.enter(d.Inst); en != nil && r.settledIn(t, en, k.Entry) && t.readW(d.List, en) {
					ok = true
				}
			}
			for _, l := range t.of("load") {
				if l.Loc.Op == "faddr" && l.Loc.S == r.List && t.knownEmpty(l.Val) && r.settledIn(t, l, k.Entry) {
					ok = true
				}
			}
			c.check(rule+".ends", ok, t, nil, "the goroutine serving an entry can end without waking all waiters and settling the entry in one critical section")
		}
		c.check(rule+".timeout", clockSeen[p], nil, nil, "the goroutine serving an entry does not wait for the configured timeout")
	}
	c.atLeast(rule+".ends", 1)
}

func (t *Trace) drainsBefore(e *Event, list string) bool {
	for _, d := range t.drains() {
		if en := t.enter(d.Inst); en != nil && place(d.List) == list && en.Seq < e.Seq {
			return true
		}
	}
	return false
}

// waitsFor2: as waitsFor with a hand-over channel accepted.
func (t *Trace) waitsFor2(e *Event, ctx, dur map[string]bool, hand string) (done, clock, other bool) {
	var chs []*Term
	if e.Kind == "select" {
		for _, cs := range e.Cases {
			chs = append(chs, cs.Ch)
		}
	} else {
		chs = append(chs, e.Ch)
	}
	for _, ch := range chs {
		switch {
		case isDone(&Event{Ch: ch}, ctx):
			done = true
		case fromField(t.clockOf(ch), dur):
			clock = true
		case hand != "" && place(ch) == hand:
		default:
			other = true
		}
	}
	return
}

// flagsStay: a settled entry never opens again.
func (r *entryReg) flagsStay(rule string) {
	c := r.c
	for _, p := range r.Procs {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op != "faddr" || e.Fresh || r.Open[e.Loc.S] == nil {
					continue
				}
				c.check(rule, t.differs(e.Val, r.Open[e.Loc.S]), t, e, "a settled entry is opened again")
			}
		}
	}
}

// answers: the field a caller returns when it finds the entry settled.
func (r *entryReg) answers(p *Proc) string {
	for _, t := range returns(p) {
		if len(t.Ret) == 0 {
			continue
		}
		if f, b := fieldBase(t.Ret[0]); f != "" && r.isEntry(t, b, param(p, 1)) {
			return f
		}
	}
	return ""
}

// results: a caller returns what it received or what it read from a settled
// entry of its key.
func (r *entryReg) results(rule string, p *Proc, data string) {
	c := r.c
	for _, t := range returns(p) {
		var reg *regn
		for _, g := range r.Regs {
			if g.T == t {
				reg = g
			}
		}
		if reg != nil {
			v, _ := reg.gotOwn()
			c.check(rule+".received", len(t.Ret) == 1 && v != nil && t.eq(t.Ret[0], v), t, nil, "a waiting caller does not return what it was sent")
			ok := r.isEntry(t, reg.Owner, param(p, 1))
			c.check(rule+".own-key", ok, t, reg.Ev, "a caller registers at the entry of another key")
			continue
		}
		ok := false
		for _, l := range t.of("load") {
			if l.Loc.Op == "faddr" && l.Loc.S == data && len(t.Ret) == 1 && t.eq(l.Val, t.Ret[0]) && r.isEntry(t, l.Loc.Args[0], param(p, 1)) && r.sawSettled(t, l, l.Loc.Args[0]) {
				ok = true
			}
		}
		c.check(rule+".settled", ok, t, nil, "a caller that does not wait returns something else than the answer read together with the settled mark of its entry")
	}
	c.atLeast(rule+".received", 1)
	c.atLeast(rule+".settled", 1)
}

// ---- ResponseMap ----

func (c *Chk) responseMap() *entryReg {
	return c.entryRegistry(c.family("collections", "ResponseMap", "ResponseMapBuilder", "NewResponseMap"), "collections.ResponseMap.Wait")
}

// ctorFields: fields that receive a parameter of a constructor (through a
// builder).
func (c *Chk) ctorFields(ctor string, i int, procs []*Proc) map[string]bool {
	out := map[string]bool{}
	p := c.P(ctor)
	for _, t := range returns(p) {
		for _, e := range t.of("store") {
			if e.Loc.Op == "faddr" && e.Val == param(p, i) {
				out[e.Loc.S] = true
			}
		}
	}
	for _, q := range procs {
		for _, t := range q.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Val.Op == "load" && out[place(e.Val)] {
					out[e.Loc.S] = true
				}
			}
		}
	}
	return out
}

func ruleP01(c *Chk) {
	r := c.responseMap()
	if r == nil {
		return
	}
	ctx := c.ctorFields("collections.NewResponseMap", 0, r.Procs)
	dur := c.optionFields("collections.ResponseMapBuilder", "WithResponseTimeout")
	set, wait := c.P("collections.ResponseMap.Set"), c.P("collections.ResponseMap.Wait")
	r.joins("join", true)
	r.drops("wake")
	r.created("entry")
	r.served("serve", ctx, dur, "")
	r.flagsStay("settled-stays")
	data := r.answers(wait)
	if data == "" {
		c.bad("anchor", "collections.ResponseMap.Wait", "Wait never returns an answer kept in the entry")
		return
	}
	r.results("result", wait, data)
	for _, p := range r.Procs {
		for _, t := range p.Traces {
			if t.End == "cut" {
				continue
			}
			for _, d := range t.drains() {
				if place(d.List) != r.List || d.Bad != "" {
					continue
				}
				if r.Serving[p] != nil {
					c.check("wake.zero", d.Val == nil && d.Close || d.Val != nil && isZeroVal(d.Val), t, t.enter(d.Inst), "a timeout or cleanup hands the waiters something else than the zero value")
					continue
				}
				ok := false
				for _, s := range t.of("store") {
					if s.Loc.Op == "faddr" && s.Loc.S == data && s.Loc.Args[0] == owner(d.List) && sameW(s, t.claim(d, r.List)) {
						ok = d.Val != nil && t.eq(d.Val, s.Val)
					}
				}
				c.check("wake.value", ok && p == set, t, t.enter(d.Inst), "the waiters of a key are not handed the value stored for it")
			}
			// every store of a value wakes the waiters
			for _, s := range t.of("store") {
				if s.Loc.Op != "faddr" || s.Loc.S != data || s.Fresh || t.End != "return" {
					continue
				}
				ok := false
				for _, d := range t.drains() {
					ok = ok || d.Bad == "" && place(d.List) == r.List && owner(d.List) == s.Loc.Args[0] && sameW(s, t.claim(d, r.List))
				}
				for _, l := range t.of("load") {
					ok = ok || l.Loc.Op == "faddr" && l.Loc.S == r.List && l.Loc.Args[0] == s.Loc.Args[0] && sameW(s, l) && t.knownEmpty(l.Val)
				}
				c.check("set.wakes", ok, t, s, "a value is stored without waking the registered waiters in the same critical section")
			}
		}
	}
	c.atLeast("wake.value", 1)
	c.atLeast("wake.zero", 1)
	c.atLeast("set.wakes", 1)
}

func ruleP02(c *Chk) {
	r := c.responseMap()
	if r == nil {
		return
	}
	set, wait := c.P("collections.ResponseMap.Set"), c.P("collections.ResponseMap.Wait")
	data := r.answers(wait)
	if data == "" {
		c.bad("anchor", "collections.ResponseMap.Wait", "Wait never returns an answer kept in the entry")
		return
	}
	r.joins("join", true)
	r.drops("wake")
	r.flagsStay("settled-stays")
	r.created("entry")
	r.results("result", wait, data)
	for _, p := range r.Procs {
		for _, t := range p.Traces {
			if t.End == "cut" || t.End == "back" {
				continue
			}
			for _, e := range t.of("store") {
				if e.Loc.Op != "faddr" || e.Loc.S != data || e.Fresh && e.Val.Op == "zero" {
					continue
				}
				if !c.check("only-set", p == set, t, e, "the value of an entry is written outside Set") {
					continue
				}
				en := e.Loc.Args[0]
				c.check("set.first-wins", r.sawOpen(t, e, en), t, e, "a value is stored without having seen, in the same exclusive critical section, that the entry is not settled")
				c.check("set.settles", r.settledIn(t, e, en), t, e, "a value is stored without marking the entry settled in the same critical section")
				c.check("set.value", t.eq(e.Val, param(p, 2)) && r.isEntry(t, en, param(p, 1)), t, e, "Set stores another value or under another key")
			}
		}
	}
	for _, t := range set.Traces {
		if t.End == "panic" {
			c.check("set.no-panic", false, t, nil, "Set can panic")
		}
		for _, e := range t.Events {
			switch e.Kind {
			case "recv", "wait":
				c.check("set.no-block", false, t, e, "Set can block")
			case "select":
				c.check("set.no-block", e.Dflt, t, e, "Set can block")
			case "send":
				l, _, ok := elemIndex(e.Ch)
				c.check("set.no-block", ok && place(l) == r.List, t, e, "Set sends on a channel whose receiver may be gone")
			case "call":
				c.check("set.no-block", e.Name != "time.Sleep", t, e, "Set sleeps")
			}
		}
		if t.End != "return" {
			continue
		}
		n := 0
		seen := false
		for _, e := range t.of("store") {
			if e.Loc.Op == "faddr" && e.Loc.S == data && !(e.Fresh && e.Val.Op == "zero") {
				n++
			}
		}
		for _, l := range t.of("load") {
			if l.Loc.Op == "faddr" && r.isEntry(t, l.Loc.Args[0], param(set, 1)) && len(l.Locks) > 0 {
				if k := r.Open[l.Loc.S]; k != nil && t.differs(l.Val, k) {
					seen = true
				}
			}
		}
		c.check("set.stores", n == 1 || n == 0 && seen, t, nil, "Set neither stores its value nor finds the entry settled")
	}
	c.atLeast("set.first-wins", 1)
	c.atLeast("set.stores", 2)
}

func ruleP03(c *Chk) {
	r := c.responseMap()
	if r == nil {
		return
	}
	build := c.P("collections.ResponseMapBuilder.Build")
	ctx := c.ctorFields("collections.NewResponseMap", 0, r.Procs)
	ttl := c.optionFields("collections.ResponseMapBuilder", "WithClearTimeout")
	k := &cleaner{Map: r.Table, Age: c.ager(r.Procs, ttl, nil), Ctx: ctx}
	// what a new entry carries
	keyF, cancelF, ctxOK := map[string]bool{}, map[string]bool{}, 0
	for _, cr := range r.Created {
		t := cr.T
		var wc *Term
		keys, cancels := map[string]bool{}, map[string]bool{}
		stamped := false
		for _, s := range t.of("store") {
			if s.Loc.Op != "faddr" || s.Loc.Args[0] != cr.Entry {
				continue
			}
			if t.eq(s.Val, cr.Key) {
				keys[s.Loc.S] = true
			}
			if s.Val.Op == "extract" && s.Val.Args[0].IsCall("context.WithCancel", "context.WithTimeout", "context.WithDeadline") && s.Val.S == "1" {
				cancels[s.Loc.S] = true
				wc = s.Val.Args[0]
			}
			if k.Age.Created[s.Loc.S] && (s.Val.IsCall("time.Now") || k.Age.Ends[s.Loc.S]) {
				stamped = true
			}
		}
		c.check("entry.stamped", stamped, t, cr.Set, "a new entry does not carry its creation time")
		for f := range keys {
			keyF[f] = true
		}
		for f := range cancels {
			cancelF[f] = true
		}
		c.check("entry.cancellable", wc != nil && len(wc.Args) > 0 && ctxFrom(wc.Args[0], ctx), t, cr.Set, "a new entry has no cancel function of a context derived from the configured one")
		for _, g := range cr.Go {
			for _, u := range g.Proc.Traces {
				for _, e := range u.blocked() {
					own := false
					for _, cs := range append([]SelCase{{Ch: e.Ch}}, e.Cases...) {
						if cs.Ch != nil && cs.Ch.IsCall("(context.Context).Done") && cs.Ch.Args[0].Op == "extract" && cs.Ch.Args[0].Args[0] == wc {
							own = true
						}
					}
					c.check("entry.ends-on-cancel", own, u, e, "the goroutine of an entry does not watch the context that the cleanup cancels")
				}
				done := false
				for _, e := range u.of("select", "recv") {
					done = done || e.Ch != nil && e.Ch.IsCall("(context.Context).Done")
				}
				if done {
					c.check("entry.ends-on-cancel", u.End == "return" || u.End == "back" && len(u.loopsIn()) > 0 && u.Loop != u.loopsIn()[0], u, nil, "the goroutine of an entry goes on after its context ended")
				}
				if u.End == "return" {
					stop := false
					timers := 0
					for _, e := range u.of("call") {
						stop = stop || e.Name == "(*time.Timer).Stop"
					}
					for _, s := range t.of("store") {
						if s.Loc.Op == "faddr" && s.Val.IsCall("time.NewTimer") {
							timers++
						}
					}
					c.check("entry.timer-stopped", stop || timers == 0, u, nil, "the goroutine of an entry ends without stopping its timer")
				}
				ctxOK++
			}
		}
	}
	n := 0
	for _, p := range r.Procs {
		clean := false
		for _, t := range p.Traces {
			for _, e := range t.Events {
				clean = clean || !e.Fresh && mapChange(e, r.Table) && e.Kind != "mapset"
			}
		}
		if !clean {
			continue
		}
		n++
		ok := p.Kind == "go" && p.Parent == build && build != nil
		if !c.check("only-cleanup", ok, nil, nil, "%s removes entries although it is not the periodic cleanup", p.Name) {
			continue
		}
		c.cleanup("cleanup", p, k)
		for _, t := range p.Traces {
			for _, e := range t.blocked() {
				done, _, _ := t.waitsFor2(e, ctx, nil, "")
				c.check("cleanup.ends", done, t, e, "the cleanup goroutine waits without watching the context")
				if e.Ch != nil && isDone(e, ctx) {
					c.check("cleanup.ends", t.End == "return" || t.prefix(e), t, e, "the cleanup goroutine goes on after the context ended")
				}
			}
			for _, e := range t.mapEvs(r.Table, "mapdel") {
				if t.End == "back" && !inLoop(e, t.Loop) {
					continue
				}
				f, b := fieldBase(e.Key)
				if e.Key.Op == "rkey" {
					b = mk("rval", e.Key.S, nil, e.Key.Args...)
				} else if !c.check("cleanup.key", keyF[f], t, e, "the removed key is not the key of the expired entry") {
					continue
				}
				m := 0
				for _, x := range t.of("call") {
					if x.Name == "context.CancelFunc" {
						if cf, cb := fieldBase(x.FnT); cancelF[cf] && cb == b && sameLoops(x, e) {
							m++
						}
					}
				}
				c.check("cleanup.releases", m >= 1, t, e, "an entry is removed without cancelling its context: its goroutine and timer stay")
			}
		}
	}
	c.check("cleanup-exists", n > 0, nil, nil, "no periodic cleanup removes entries")
	for _, t := range returns(build) {
		m := 0
		for _, g := range t.of("go") {
			if g.Proc != nil && len(g.Loops) == 0 {
				for _, u := range g.Proc.Traces {
					if len(u.mapEvs(r.Table, "mapdel")) > 0 {
						m++
						break
					}
				}
			}
		}
		c.check("cleanup-started", m == 1, t, nil, "Build starts the cleanup %d times", m)
	}
	c.atLeast("cleanup-started", 1)
	c.atLeast("cleanup.releases", 1)
	c.atLeast("entry.timer-stopped", 1)
	_ = ctxOK
}

func sameLoops(a, b *Event) bool {
	if len(a.Loops) != len(b.Loops) {
		return false
	}
	for i := range a.Loops {
		if a.Loops[i] != b.Loops[i] {
			return false
		}
	}
	return true
}

// ---- HolderMap ----

func (c *Chk) holderMap() *entryReg {
	return c.entryRegistry(c.family("collections", "HolderMap", "HolderMapBuilder", "NewHolderMap"), "collections.HolderMap.Wait")
}

// nonNilErr: the value is an error, not nil.
func (t *Trace) nonNilErr(v *Term) bool {
	if v == nil || v.IsNil() {
		return false
	}
	if t.ne(v, tNil) {
		return true
	}
	for v.Op == "conv" || v.Op == "iface" {
		v = v.Args[0]
	}
	switch v.Op {
	case "global", "new":
		return true
	case "call":
		return hasAny(v.S, "errors.New", "errors.Errorf", "errors.Wrap", "fmt.Errorf", "errors.WrapPrefix")
	case "load":
		return v.Args[0].Op == "global"
	case "mk":
		return true
	}
	return false
}

// handOver: the entry channel through which a verdict reaches the goroutine.
func (r *entryReg) handOver() string {
	for p := range r.Serving {
		for _, t := range p.Traces {
			for _, e := range t.of("select", "recv") {
				if e.Ch != nil && !isClock(e.Ch) && !e.Ch.IsCall("(context.Context).Done") && place(e.Ch) != "" {
					if f := place(e.Ch); t.clockOf(e.Ch) == nil {
						return f
					}
				}
			}
		}
	}
	return ""
}

func ruleD01(c *Chk) {
	r := c.holderMap()
	if r == nil {
		return
	}
	wait := c.P("collections.HolderMap.Wait")
	ctx := c.optionFields("collections.HolderMapBuilder", "WithContext")
	dur := c.optionFields("collections.HolderMapBuilder", "WithTimeout")
	hand := r.handOver()
	verdict := r.answers(wait)
	if verdict == "" || hand == "" {
		c.bad("anchor", "collections.HolderMap.Wait", "no verdict field or hand-over channel found")
		return
	}
	r.joins("join", true)
	r.drops("wake")
	r.created("entry")
	r.served("serve", ctx, dur, hand)
	r.flagsStay("settled-stays")
	r.results("result", wait, verdict)
	for _, p := range r.Procs {
		k := r.Serving[p]
		for _, t := range p.Traces {
			if t.End == "cut" {
				continue
			}
			for _, e := range t.of("store") {
				if e.Loc.Op != "faddr" || e.Loc.S != verdict && r.Open[e.Loc.S] == nil || e.Fresh {
					continue
				}
				if !c.check("verdict.only-goroutine", k != nil, t, e, "the verdict of an entry is written outside the goroutine serving it") {
					continue
				}
				if e.Loc.S == verdict {
					c.check("verdict.with-mark", r.settledIn(t, e, k.Entry), t, e, "the verdict is stored in another critical section than the settled mark")
				}
			}
			for _, e := range t.of("recv", "select") {
				taken := e.Kind == "recv" && place(e.Ch) == hand
				for _, cs := range e.Cases {
					taken = taken || !cs.Send && place(cs.Ch) == hand
				}
				if taken {
					c.check("verdict.only-goroutine", k != nil, t, e, "a verdict is taken outside the goroutine serving the entry")
				}
			}
			if k == nil {
				continue
			}
			// what settles
			var why *Event
			for _, e := range t.blocked() {
				if why == nil {
					why = e
				}
			}
			var last *Event
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Loc.S == verdict && e.Loc.Args[0] == k.Entry {
					last = e
				}
			}
			var given *Term
			if last != nil {
				given = last.Val
			}
			for _, d := range t.drains() {
				if place(d.List) == r.List && d.Bad == "" {
					c.check("verdict.sent", d.Val != nil && given != nil && t.eq(d.Val, given) && sameW(last, t.enter(d.Inst)), t, t.enter(d.Inst), "waiters are not handed the stored verdict")
				}
			}
			if t.End != "return" || why == nil {
				continue
			}
			switch {
			case isDone(why, ctx):
				c.check("verdict.context", given != nil && (given.IsCall("(context.Context).Err") && ctxFrom(given.Args[0], ctx) || given.IsCall("context.Cause")), t, why, "after the context ended the verdict is not the error of the context")
			case why.Ch != nil && place(why.Ch) == hand:
				c.check("verdict.given", given != nil && t.eq(given, why.Res), t, why, "the verdict is not the one handed over")
			case fromField(t.clockOf(why.Ch), dur):
				c.check("verdict.timeout", t.nonNilErr(given), t, why, "after the timeout the verdict is not an error")
			default:
				c.check("verdict.given", false, t, why, "an entry is settled for another reason than a verdict, the timeout or the context")
			}
		}
	}
	// the hand-over channel keeps one verdict
	for _, cr := range r.Created {
		ok := false
		for _, s := range cr.T.of("store") {
			if s.Loc.Op == "faddr" && s.Loc.S == hand && s.Loc.Args[0] == cr.Entry && s.Val.Op == "mkchan" {
				n, isC := s.Val.Args[0].Int()
				ok = isC && n >= 1
			}
		}
		c.check("hand-over.buffered", ok, cr.T, cr.Set, "a verdict given before the goroutine waits for it is lost: the channel has no buffer")
	}
	c.handsOver("hand-over", r, hand)
	c.atLeast("verdict.context", 1)
	c.atLeast("verdict.given", 1)
	c.atLeast("verdict.timeout", 1)
	c.atLeast("verdict.sent", 2)
}

// handsOver: Release and Error offer exactly one verdict to the entry of the
// key, without blocking, and report an absent key.
func (c *Chk) handsOver(rule string, r *entryReg, hand string) {
	for _, n := range []string{"collections.HolderMap.Release", "collections.HolderMap.Error"} {
		p := c.P(n)
		if p == nil {
			continue
		}
		key := param(p, 1)
		for _, t := range p.Traces {
			offers := 0
			for _, e := range t.Events {
				switch e.Kind {
				case "select":
					for _, cs := range e.Cases {
						if !cs.Send || place(cs.Ch) != hand {
							continue
						}
						offers++
						_, b := fieldBase(cs.Ch)
						want := isNilVal(cs.Val)
						if n == "collections.HolderMap.Error" {
							want = cs.Val == param(p, 2)
						}
						c.check(rule+".verdict", want && r.isEntry(t, b, key), t, e, "another verdict or the entry of another key is settled")
					}
					c.check(rule+".no-block", e.Dflt, t, e, "giving a verdict can block")
				case "send":
					if place(e.Ch) == hand {
						offers++
					}
					c.check(rule+".no-block", false, t, e, "giving a verdict can block once the key is settled")
				case "recv", "wait":
					c.check(rule+".no-block", false, t, e, "giving a verdict can block")
				case "close":
					c.check(rule+".no-block", false, t, e, "giving a verdict closes a channel: giving another one panics")
				}
			}
			if t.End != "return" {
				continue
			}
			held := r.heldKey(t, key)
			if !c.check(rule+".decides", held != 0, t, nil, "a verdict is given without looking the key up") {
				continue
			}
			if held == 1 {
				c.check(rule+".offers", offers == 1, t, nil, "a verdict for a held key is offered %d times", offers)
				c.check(rule+".reports", len(t.Ret) == 1 && isNilVal(t.Ret[0]), t, nil, "an error is reported for a held key")
			} else {
				c.check(rule+".offers", offers == 0, t, nil, "a verdict is offered for a key that is not held")
				c.check(rule+".reports", len(t.Ret) == 1 && t.nonNilErr(t.Ret[0]), t, nil, "no error is reported for a key that is not held")
			}
		}
	}
	c.atLeast(rule+".offers", 2)
}

func isNilVal(v *Term) bool { return v != nil && (v.IsNil() || v.Op == "zero") }

// heldKey: 1 the last lookup found the key, -1 it did not, 0 no lookup.
func (r *entryReg) heldKey(t *Trace, key *Term) int {
	out := 0
	for _, g := range t.mapEvs(r.Table, "mapget") {
		if !t.eq(g.Key, key) {
			continue
		}
		if v := t.truth(g.Ok); v != 0 {
			out = v
		} else if t.ne(g.Res, tNil) {
			out = 1
		} else if t.eq(g.Res, tNil) {
			out = -1
		}
	}
	return out
}

func ruleD02(c *Chk) {
	r := c.holderMap()
	if r == nil {
		return
	}
	hand := r.handOver()
	if hand == "" {
		c.bad("anchor", "collections.HolderMap.Release", "no hand-over channel found")
		return
	}
	wait, get, upd := c.P("collections.HolderMap.Wait"), c.P("collections.HolderMap.Get"), c.P("collections.HolderMap.Update")
	verdict := r.answers(wait)
	c.handsOver("hand-over", r, hand)
	// Get
	object := ""
	for _, t := range returns(get) {
		held := r.heldKey(t, param(get, 1))
		if held == -1 {
			c.check("get.missing", len(t.Ret) == 2 && isZeroVal(t.Ret[0]) && t.nonNilErr(t.Ret[1]), t, nil, "Get of a key that is not held does not fail with the zero value")
			continue
		}
		ok := held == 1 && len(t.Ret) == 2
		if ok {
			f, b := fieldBase(t.Ret[0])
			g, d := fieldBase(t.Ret[1])
			ok = f != "" && f != verdict && g == verdict && b == d && r.isEntry(t, b, param(get, 1))
			object = f
			var lo, le *Event
			for _, l := range t.of("load") {
				if l.Loc.Op != "faddr" {
					continue
				}
				if l.Val == t.Ret[0] {
					lo = l
				}
				if l.Val == t.Ret[1] {
					le = l
				}
			}
			ok = ok && lo != nil && le != nil && sameSection(lo, le)
		}
		c.check("get.held", ok, t, nil, "Get of a held key does not return its object and verdict read under the entry's lock")
	}
	c.atLeast("get.held", 1)
	c.atLeast("get.missing", 1)
	// Update
	for _, t := range returns(upd) {
		held := r.heldKey(t, param(upd, 1))
		n := 0
		for _, e := range t.of("store") {
			if e.Loc.Op == "faddr" && e.Loc.S == object {
				n++
				c.check("update.value", t.eq(e.Val, param(upd, 2)) && r.isEntry(t, e.Loc.Args[0], param(upd, 1)) && wsec(e) >= 0, t, e, "Update does not store its object in the entry of its key under a lock")
			}
		}
		if held == -1 {
			c.check("update.missing", n == 0 && len(t.Ret) == 1 && t.nonNilErr(t.Ret[0]), t, nil, "Update of a key that is not held reports no error")
		} else {
			c.check("update.held", held == 1 && n == 1 && len(t.Ret) == 1 && isNilVal(t.Ret[0]), t, nil, "Update of a held key does not store the object once and succeed")
		}
	}
	c.atLeast("update.held", 1)
	c.atLeast("update.missing", 1)
	// the object is otherwise only written at creation
	for _, cr := range r.Created {
		n := 0
		for _, e := range cr.T.of("store") {
			if e.Loc.Op == "faddr" && e.Loc.S == object && e.Loc.Args[0] == cr.Entry {
				n++
				c.check("create.value", cr.T.Proc == wait && cr.T.eq(e.Val, param(wait, 2)), cr.T, e, "a new entry does not hold the object given to Wait")
			}
		}
		c.check("create.value", n == 1, cr.T, cr.Set, "a new entry does not hold the object given to Wait")
		c.check("create.key", cr.T.eq(cr.Key, param(wait, 1)), cr.T, cr.Set, "a new entry is not held under the key given to Wait")
	}
	for _, p := range r.Procs {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Loc.S == object && !e.Fresh {
					if root := RootOf(e.Loc); ownAlloc(p, root) && initLocal(t, e, root) {
						continue
					}
					c.check("object.only-update", p == upd, t, e, "the object of an entry is changed outside Update")
				}
			}
		}
	}
	// delayed removal
	ttl := c.optionFields("collections.HolderMapBuilder", "WithTTL")
	removers := map[*Proc]*creation{}
	for p, k := range r.Serving {
		for _, t := range returns(p) {
			n := 0
			if len(t.mapEvs(r.Table, "mapdel")) > 0 {
				n++
				removers[p] = k
			}
			for _, g := range t.Events {
				if g.Proc == nil || g.Proc.Kind != "go" || g.Kind != "go" && g.Name != "time.AfterFunc" {
					continue
				}
				for _, u := range g.Proc.Traces {
					if len(u.mapEvs(r.Table, "mapdel")) > 0 {
						n++
						if len(g.Loops) > 0 {
							n++
						}
						removers[g.Proc] = k
						break
					}
				}
			}
			c.check("removal.armed", n == 1, t, nil, "after its verdict %d removals of a key are armed, not one", n)
		}
	}
	for _, p := range r.Procs {
		k := removers[p]
		for _, t := range p.Traces {
			n := 0
			for _, e := range t.Events {
				if e.Fresh || !mapChange(e, r.Table) || e.Kind == "mapset" {
					continue
				}
				if !c.check("removal.only", k != nil && e.Kind == "mapdel", t, e, "a key is removed otherwise than a fixed time after its verdict") {
					continue
				}
				n++
				c.check("removal.key", t.eq(e.Key, k.Key), t, e, "another key is removed")
				waited := c.started(p, ttl)
				for _, s := range t.Events {
					if s.Seq > e.Seq {
						break
					}
					if s.Kind == "call" && s.Name == "time.Sleep" && len(s.Args) > 0 && fromField(s.Args[0], ttl) {
						waited = true
					}
					if (s.Kind == "recv" || s.Kind == "select") && s.Ch != nil && fromField(t.clockOf(s.Ch), ttl) {
						waited = true
					}
				}
				c.check("removal.waits", waited, t, e, "a key is removed without waiting for the configured time")
			}
			if k != nil && t.End == "return" {
				c.check("removal.removes", n >= 1, t, nil, "the armed removal does not remove the key")
			}
		}
	}
	c.atLeast("removal.armed", 2)
	c.atLeast("removal.removes", 1)
}

func init() {
	register("P01", "entry-registry typestate: joins recheck the settled marks in the same exclusive section, every drop or store wakes each waiter once, the one goroutine per entry watches timeout and context and settles before it ends", ruleP01)
	register("P02", "path rules on Set: stored only into an entry seen unsettled, marked settled in the same section, marks never cleared, only sends to buffered once-woken waiters", ruleP02)
	register("P03", "cleanup dataflow: removals only of entries proven older than the clear timeout, with their own key and cancel function, all entries scanned; entry goroutines end on that cancel and stop their timer", ruleP03)
	register("D01", "entry-registry typestate: joins recheck the settled mark, the goroutine stores mark and verdict and sends that verdict to each waiter in one section, verdicts come from hand-over, timeout or context only", ruleD01)
	register("D02", "path rules: verdicts offered once by a non-blocking send, results reported by the looked-up presence, object and verdict read under the entry lock, exactly one delayed removal after each verdict", ruleD02)
}

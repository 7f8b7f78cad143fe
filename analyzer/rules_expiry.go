package main

import (
	"go/types"
)

// ---- age of an element ----

func fieldBase(t *Term) (string, *Term) {
	if t == nil {
		return "", nil
	}
	switch t.Op {
	case "load":
		if t.Args[0].Op == "faddr" {
			return t.Args[0].S, t.Args[0].Args[0]
		}
	case "fld":
		return t.S, t.Args[0]
	}
	return "", nil
}

// createdFields: the time fields set to the current time when elements are made.
func (c *Chk) createdFields(procs []*Proc) map[string]bool {
	out := map[string]bool{}
	for _, p := range procs {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Val.IsCall("time.Now") {
					out[e.Loc.S] = true
				}
			}
		}
	}
	onlyAtCreation(out, procs)
	return out
}

// onlyAtCreation drops the fields that are also written later: they do not
// tell the age of an element.
func onlyAtCreation(fields map[string]bool, procs []*Proc) {
	for _, p := range procs {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && fields[e.Loc.S] && !e.Fresh && RootOf(e.Loc).Op != "new" {
					delete(fields, e.Loc.S)
				}
			}
		}
	}
}

// endFields: the time fields set to the current time plus the lifetime when
// elements are made.
func (c *Chk) endFields(procs []*Proc, ttl map[string]bool, arg *Term) map[string]bool {
	out := map[string]bool{}
	for _, p := range procs {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Val.Op == "timeadd" {
					out[e.Loc.S] = true
				}
			}
		}
	}
	for _, p := range procs {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && out[e.Loc.S] {
					ok := e.Val.Op == "timeadd" && e.Val.Args[0].IsCall("time.Now") && (fromField(e.Val.Args[1], ttl) || e.Val.Args[1] == arg && arg != nil)
					if !ok {
						delete(out, e.Loc.S)
					}
				}
			}
		}
	}
	onlyAtCreation(out, procs)
	return out
}

// ager knows how elements tell their age: by their creation time or by the
// time at which their lifetime ends.
func (c *Chk) ager(procs []*Proc, ttl map[string]bool, arg *Term) *ager {
	a := &ager{Created: c.createdFields(procs), TTL: ttl, Param: arg, Ends: c.endFields(procs, ttl, arg)}
	for f := range a.Ends {
		a.Created[f] = true
	}
	return a
}

type ager struct {
	Created, TTL map[string]bool
	Ends         map[string]bool // those of Created that already include the lifetime
	Param        *Term           // a parameter the lifetime was taken from
}

// compare finds the creation time of X and the lifetime in the facts and
// decides: 1 at least the lifetime old, -1 younger (or exactly as old), 0 open.
func (a *ager) compare(facts Facts, X *Term) int {
	created := map[*Term]bool{}
	nows := map[*Term]bool{}
	ttls := map[*Term]bool{}
	for _, f := range facts {
		f.Atom.Any(func(s *Term) bool {
			if n, b := fieldBase(s); n != "" {
				if a.Created[n] && b == X {
					created[s] = true
				}
				if a.TTL[n] {
					ttls[s] = true
				}
			}
			if s.IsCall("time.Now") || isTick(s) {
				nows[s] = true
			}
			if s == a.Param {
				ttls[s] = true
			}
			return false
		})
	}
	dur := types.Type(types.Typ[types.Int64])
	for cr := range created {
		if n, _ := fieldBase(cr); a.Ends[n] {
			for n := range nows {
				if facts.ProveLE(cr, n, 0) {
					return 1
				}
				if facts.ProveLE(n, cr, 0) {
					return -1
				}
			}
			continue
		}
		for tt := range ttls {
			for n := range nows {
				end := mk("timeadd", "", dur, cr, tt)
				if facts.ProveLE(end, n, 0) {
					return 1
				}
				if facts.ProveLE(n, end, 0) {
					return -1
				}
			}
		}
	}
	return 0
}

// aged decides the age of X, looking through lists that were filled only with
// elements of decided age.
func (a *ager) aged(t *Trace, facts Facts, X *Term) int {
	if v := a.compare(facts, X); v != 0 {
		return v
	}
	if l, _, ok := elemIndex(X); ok {
		for _, inst := range t.loopsIn() {
			if inst.Var(l) == nil || inst.Var(l).Init == nil || !normList(inst.Var(l).Init).isEmpty2() {
				continue
			}
			good := len(inst.Iters) > 0
			n := 0
			for _, it := range inst.Iters {
				nx := it.Next[l]
				if nx == nil {
					good = false
					break
				}
				if nx == l {
					continue
				}
				if nx.Op != "append" || nx.Args[0] != l || len(nx.Args) != 2 || a.aged(it, it.Facts, nx.Args[1]) != 1 {
					good = false
					break
				}
				n++
			}
			if good && n > 0 {
				return 1
			}
		}
	}
	return 0
}

// subjects: the elements a removed key can belong to.
func subjects(key *Term) []*Term {
	var out []*Term
	if _, b := fieldBase(key); b != nil {
		out = append(out, b)
	}
	if key.Op == "rkey" {
		out = append(out, mk("rval", key.S, nil, key.Args...))
	}
	return out
}

// cleaner describes a periodic cleanup of a map.
type cleaner struct {
	Map, List string
	Age       *ager
	Identity  bool            // keys can be re-created while old queue entries remain
	Ctx       map[string]bool // fields holding the context
}

func (c *Chk) cleanup(rule string, p *Proc, k *cleaner) {
	scan := map[*LoopInst]bool{}     // loops that examine elements
	collect := map[*LoopInst]*Term{} // loops that collect the elements to remove, with the list
	once := false                    // an entry is removed by its key alone
	for _, t := range p.Traces {
		for _, e := range t.Events {
			if e.Fresh || !mapChange(e, k.Map) || e.Kind == "mapset" {
				continue
			}
			if !c.check(rule+".kind", e.Kind == "mapdel", t, e, "the cleanup replaces or clears the whole map") {
				continue
			}
			old, same := false, false
			for _, X := range subjects(e.Key) {
				if k.Age.aged(t, t.at(e), X) == 1 {
					old = true
					if l, _, ok := elemIndex(X); ok {
						for _, inst := range t.loopsIn() {
							if inst.Var(l) != nil && !inLoop(e, inst) {
								collect[inst] = l
							}
						}
					}
					if e.Key.Op == "rkey" || e.Old != nil && t.at(e).Eval(tEq(e.Old, X)) == 1 {
						same = true
					}
				}
			}
			c.check(rule+".old-enough", old, t, e, "an entry is removed without proof that its age has reached the lifetime")
			if k.Identity {
				c.check(rule+".same-element", same, t, e, "an entry is removed without proof that it is the expired element and not a newer one under the same key")
			}
			for _, inst := range e.Loops {
				scan[inst] = true
			}
			if old && !same && k.List != "" {
				once = true
			}
		}
	}
	c.atLeast(rule+".old-enough", 1)
	// which loop is the polling loop: the one that waits
	var poll *LoopInst
	for _, t := range p.Traces {
		for _, e := range t.of("select", "recv") {
			if len(e.Loops) > 0 && e.Loops[0] != nil {
				poll = e.Loops[0]
			}
		}
	}
	if poll == nil {
		c.bad(rule+".periodic", p.Name, "the cleanup does not run periodically")
		return
	}
	delete(scan, poll)
	for inst := range collect {
		if inst == poll {
			delete(collect, inst)
			continue
		}
		scan[inst] = true
	}
	for _, t := range p.Traces {
		// the goroutine ends only with its context
		if t.End == "return" {
			ok := false
			for _, e := range t.of("select", "recv") {
				ok = ok || isDone(e, k.Ctx)
			}
			c.check(rule+".lives", ok, t, nil, "the cleanup goroutine can end while the context is live")
		}
		// removal loops decide every element they pass
		if t.End == "back" && scan[t.Loop] {
			c.cleanIter(rule, t, k)
		}
		if t.End == "back" && t.Loop == poll {
			c.cleanRound(rule, t, k, scan, collect, poll)
		}
	}
	c.queueSafe(rule, p, k)
	if once {
		for _, t := range p.Traces {
			for _, inst := range t.loopsIn() {
				if scan[inst] && collect[inst] == nil && (t.End == "return" || t.End == "back") && !t.within(inst) {
					c.check(rule+".once", k.dropped(t, inst), t, nil, "elements found expired stay queued, so that they remove newer elements of the same key later")
				}
			}
		}
	}
}

// within: the path ends inside the loop.
func (t *Trace) within(inst *LoopInst) bool {
	if t.End == "back" && t.Loop == inst {
		return true
	}
	for _, e := range t.of("loopexit") {
		if e.Loop == inst {
			return false
		}
	}
	return true
}

// moves: the place changes with the iterations of the loop.
func (inst *LoopInst) moves(loc *Term) bool {
	return loc.Any(func(s *Term) bool { return (s.Op == "phi" || s.Op == "hv") && inst.Var(s) != nil })
}

// dropped: after the removal loop the queue no longer holds the elements the
// loop found expired.
func (k *cleaner) dropped(t *Trace, inst *LoopInst) bool {
	var exit *Event
	for _, e := range t.of("loopexit") {
		if e.Loop == inst {
			exit = e
		}
	}
	// per iteration
	each := len(inst.Iters) > 0
	for _, it := range inst.Iters {
		cut := false
		for _, e := range it.of("store") {
			if place(e.Loc) == k.List && inLoop(e, inst) && normList(e.Val).Drop > 0 {
				cut = true
			}
		}
		dels := false
		for _, e := range it.mapEvs(k.Map, "mapdel") {
			dels = dels || inLoop(e, inst)
		}
		each = each && (cut || !dels)
	}
	if each {
		return true
	}
	// the lists scanned, with the index
	type scanned struct{ list, idx *Term }
	var sc []scanned
	for _, it := range inst.Iters {
		for _, X := range k.elements(it) {
			b := X
			for b.Op == "load" || b.Op == "faddr" {
				b = b.Args[0]
				if b.Op == "iaddr" {
					break
				}
			}
			if b.Op == "iaddr" && inst.moves(b) {
				sc = append(sc, scanned{b.Args[0], b.Args[1]})
			}
		}
	}
	if len(sc) == 0 {
		return true // not by way of the queue
	}
	var last *Event
	for _, e := range t.of("store") {
		if e.Loc.Op == "faddr" && e.Loc.S == k.List && e.Seq > exit.Seq {
			last = e
		}
	}
	for _, s := range sc {
		// nothing was passed
		if t.Facts.ProveLE(tLen(s.list), tInt(0), 0) || t.Facts.ProveLE(s.idx, tInt(0), 0) {
			return true
		}
		if last == nil {
			continue
		}
		if normList(last.Val).isEmpty() || last.Val == s.list && inst.Var(s.list) != nil {
			return true
		}
		if last.Val.Op != "slice" || last.Val.Args[0] != s.list || last.Val.Args[1].Op == "none" {
			continue
		}
		lo := last.Val.Args[1]
		if t.Facts.ProveLE(s.idx, lo, 0) || t.Facts.ProveLE(tLen(s.list), lo, 0) {
			return true
		}
		for _, v := range inst.Phis {
			if v.Term == lo && isZero(v.Init) {
				if n, ok := inductionStep(inst, v); ok && n == 1 {
					return true
				}
			}
		}
	}
	return false
}

// isDone: the event received from the Done channel of a configured context.
func isDone(e *Event, ctx map[string]bool) bool {
	ch := e.Ch
	if ch == nil || !ch.IsCall("(context.Context).Done") {
		return false
	}
	if ctx == nil {
		return true
	}
	return len(ch.Args) > 0 && ctxFrom(ch.Args[0], ctx)
}

// ctxFrom: the context is one of the configured ones or derived from it.
func ctxFrom(t *Term, ctx map[string]bool) bool {
	if ctx[place(t)] {
		return true
	}
	if t.Op == "param" {
		return true
	}
	ok := false
	t.Any(func(s *Term) bool {
		if s != t && (s.Op == "load" || s.Op == "fld") && ctx[place(s)] {
			ok = true
		}
		return ok
	})
	return ok
}

// cleanIter: an iteration that goes on either removed its element or saw that
// it must stay.
func (c *Chk) cleanIter(rule string, t *Trace, k *cleaner) {
	removed := false
	for _, v := range t.Loop.Phis {
		if nx := t.Next[v.Term]; nx != nil && nx.Op == "append" && nx.Args[0] == v.Term && len(nx.Args) == 2 && k.Age.aged(t, t.Facts, nx.Args[1]) == 1 {
			removed = true
		}
	}
	for _, e := range t.mapEvs(k.Map, "mapdel") {
		for _, l := range e.Loops {
			removed = removed || l == t.Loop
		}
	}
	if removed {
		c.check(rule+".decides", true, t, nil, "")
		return
	}
	keep := false
	for _, f := range iterFacts(t.Loop, t) {
		// identity refuted
		if !f.Val && f.Atom.Op == "eq" {
			for i := 0; i < 2; i++ {
				if f.Atom.Args[i].Op == "lookup" && place(f.Atom.Args[i].Args[0]) == k.Map {
					keep = true
				}
			}
		}
		if !f.Val && f.Atom.Op == "has" && place(f.Atom.Args[0]) == k.Map {
			keep = true
		}
	}
	for _, X := range k.elements(t) {
		if k.Age.compare(t.Facts, X) == -1 {
			keep = true
		}
	}
	c.check(rule+".decides", keep, t, nil, "the cleanup passes an element without removing it and without having seen that it must stay")
}

// elements: what the trace looked at the creation time of.
func (k *cleaner) elements(t *Trace) []*Term {
	m := map[*Term]bool{}
	var out []*Term
	for _, f := range t.Facts {
		f.Atom.Any(func(s *Term) bool {
			if n, b := fieldBase(s); n != "" && k.Age.Created[n] && !m[b] {
				m[b] = true
				out = append(out, b)
			}
			return false
		})
	}
	return out
}

// cleanRound: a polling round that goes on either went through a removal loop
// to its end (all elements, or up to a young one), or saw that there is
// nothing to remove.
func (c *Chk) cleanRound(rule string, t *Trace, k *cleaner, scan map[*LoopInst]bool, collect map[*LoopInst]*Term, poll *LoopInst) {
	for _, e := range t.of("select") {
		if e.Dflt && e.Idx < 0 {
			return
		}
		// a round started by something else than the clock
		if e.Ch != nil && !isClock(e.Ch) && !isDone(e, nil) {
			return
		}
	}
	for _, f := range iterFacts(poll, t) {
		_ = f
	}
	done := false
	for _, inst := range t.loopsIn() {
		if scan[inst] {
			done = true
			c.check(rule+".scan", k.leftRight(t, inst), t, nil, "the removal loop can stop before it reached the last element or a young one")
			if l := collect[inst]; l != nil {
				removes := t.knownEmpty(l)
				for _, r := range t.loopsIn() {
					removes = removes || scan[r] && collect[r] == nil
				}
				c.check(rule+".scan", removes, t, nil, "the elements collected for removal are not removed")
			}
		}
	}
	if !done {
		empty := false
		for _, e := range t.of("load") {
			if e.Loc.Op == "faddr" && e.Loc.S == k.List && k.List != "" && t.Facts.ProveLE(tLen(e.Val), tInt(0), 0) {
				empty = true
			}
		}
		for _, e := range t.mapEvs(k.Map, "maplen") {
			empty = empty || t.Facts.ProveLE(e.Res, tInt(0), 0)
		}
		for _, X := range k.elements(t) {
			if k.Age.compare(t.Facts, X) == -1 && k.isFirst(t, X) {
				empty = true
			}
		}
		done = empty
		c.check(rule+".skip", empty, t, nil, "a polling round can pass without removing anything although old elements may exist")
	}
}

// isFirst: X is the oldest element of the queue.
func (k *cleaner) isFirst(t *Trace, X *Term) bool {
	for X.Op == "load" || X.Op == "faddr" {
		if X.Op == "load" {
			X = X.Args[0]
		} else {
			X = X.Args[0]
		}
		if X.Op == "iaddr" {
			break
		}
	}
	return X.Op == "iaddr" && isZero(X.Args[1]) && place2(t, X.Args[0]) == k.List
}

func isClock(ch *Term) bool {
	if ch.IsCall("time.After", "time.Tick") {
		return true
	}
	n, b := fieldBase(ch)
	return b != nil && (n == "time.Timer.C" || n == "time.Ticker.C")
}

// leftRight: the removal loop was left at its end or at a young element.
func (k *cleaner) leftRight(t *Trace, inst *LoopInst) bool {
	if inst.Mapiter != nil {
		// the order of a map says nothing about age
		return t.leftExhausted(inst, nil, nil)
	}
	for _, X := range k.elements(t) {
		if k.Age.compare(t.Facts, X) == -1 {
			return true
		}
	}
	// exhausted index or emptied list
	for _, f := range t.Facts[inst.NFacts:] {
		var lists []*Term
		f.Atom.Any(func(s *Term) bool {
			if s.Op == "len" {
				lists = append(lists, s.Args[0])
			}
			return false
		})
		for _, l := range lists {
			if t.Facts.ProveLE(tLen(l), tInt(0), 0) {
				return true
			}
			for _, v := range inst.Phis {
				if v.Term.T != nil && isIntType(v.Term.T) {
					for _, it := range inst.Iters {
						idxs := indexTerms(it, l)
						for _, i := range idxs {
							if t.Facts.ProveLE(tLen(l), i, 0) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// indexTerms: the indices with which a path accesses a list.
func indexTerms(t *Trace, list *Term) []*Term {
	var out []*Term
	for _, e := range t.of("load") {
		e.Loc.Any(func(s *Term) bool {
			if s.Op == "iaddr" && s.Args[0] == list {
				out = append(out, s.Args[1])
			}
			return false
		})
	}
	return out
}

// queueSafe: the queue is only read inside its bounds and loses exactly the
// examined elements.
func (c *Chk) queueSafe(rule string, p *Proc, k *cleaner) {
	if k.List == "" {
		return
	}
	for _, t := range p.Traces {
		for _, e := range t.Events {
			if e.Kind == "load" {
				l := e.Loc
				for l.Op == "faddr" {
					l = l.Args[0]
				}
				if l.Op == "iaddr" && place2(t, l.Args[0]) == k.List {
					ok := t.at(e).ProveLT(l.Args[1], tLen(l.Args[0])) || t.Facts.ProveLT(l.Args[1], tLen(l.Args[0]))
					c.check(rule+".in-bounds", ok, t, e, "element %v of the queue is read although the queue may be shorter", l.Args[1])
				}
			}
			if e.Kind == "store" && e.Loc.Op == "faddr" && e.Loc.S == k.List && !e.Fresh {
				c.check(rule+".trim", k.trimOK(t, e), t, e, "the queue does not lose exactly the elements found expired")
			}
		}
	}
}

// trimOK: the elements dropped from the front are all below the index up to
// which the scan proved every element expired (or the queue shrinks by one
// expired head per iteration).
func (k *cleaner) trimOK(t *Trace, e *Event) bool {
	v := e.Val
	facts := t.Facts
	scanned := func(list, upto *Term) bool {
		for _, inst := range t.loopsIn() {
			if len(inst.Iters) == 0 {
				continue
			}
			for _, it := range inst.Iters {
				_ = it
			}
			var idx *Term
			all := true
			for _, it := range inst.Iters {
				if it.Loop != inst {
					continue
				}
				aged := false
				for _, X := range k.elements(it) {
					b := X
					for b.Op == "load" || b.Op == "faddr" {
						b = b.Args[0]
						if b.Op == "iaddr" {
							break
						}
					}
					if b.Op == "iaddr" && b.Args[0] == list && k.Age.compare(it.Facts, X) == 1 {
						aged = true
						idx = b.Args[1]
					}
				}
				all = all && aged
			}
			if !all || idx == nil {
				continue
			}
			// idx runs 0,1,2…
			starts := false
			for _, v := range inst.Phis {
				d := linDiff(idx, v.Term)
				if inst.sharedVar(v) || !d.isConst() {
					continue
				}
				if s, ok := inductionStep(inst, v); ok && s == 1 {
					in := lin(v.Init)
					if in.isConst() && in.C+d.C == 0 {
						starts = true
					}
				}
			}
			if starts && facts.ProveLE(upto, idx, 0) {
				return true
			}
			// a counter of removed elements
			for _, v := range inst.Phis {
				if upto == v.Term && isZero(v.Init) {
					if s, ok := inductionStep(inst, v); ok && s == 1 && starts {
						return true
					}
				}
			}
		}
		return false
	}
	n := normList(v)
	if n.isEmpty() {
		// everything dropped: every element of the list was scanned
		for _, ld := range t.of("load") {
			if ld.Loc.Op == "faddr" && ld.Loc.S == k.List && sameSection(ld, e) && scanned(ld.Val, tLen(ld.Val)) {
				return true
			}
		}
		return false
	}
	if v.Op == "slice" && v.Args[2].Op == "none" && v.Args[1].Op != "none" && place2(t, v.Args[0]) == k.List {
		if scanned(v.Args[0], v.Args[1]) && t.readIn(v.Args[0], e) {
			return true
		}
	}
	if n.Drop == 1 && n.clean() && len(n.App) == 0 && len(n.Removed) == 0 {
		// one expired head
		for _, X := range k.elements(t) {
			if k.isFirst(t, X) && k.Age.compare(t.at(e), X) == 1 {
				return true
			}
		}
	}
	if k.keptYoung(t, v, e) {
		return true
	}
	// appending a new element at the end
	return n.clean() && n.Drop == 0 && len(n.Removed) == 0 && len(n.App) > 0
}

// keptYoung: the value is the queue, in order, without elements found expired.
func (k *cleaner) keptYoung(t *Trace, v *Term, e *Event) bool {
	for _, inst := range t.loopsIn() {
		lv := inst.Var(v)
		if lv == nil || lv.Init == nil || !normList(lv.Init).isEmpty2() || len(inst.Iters) == 0 {
			continue
		}
		var list, idx *Term
		ok := true
		elem := func(x *Term) bool {
			l, i, is := elemIndex(x)
			if !is || list != nil && (l != list || i != idx) {
				return false
			}
			list, idx = l, i
			return true
		}
		for _, it := range inst.Iters {
			nx := it.Next[v]
			switch {
			case nx == v:
				gone := false
				for _, x := range k.elements(it) {
					gone = gone || elem(x) && k.Age.compare(it.Facts, x) == 1
				}
				ok = ok && gone
			case nx != nil && nx.Op == "append" && len(nx.Args) == 2 && nx.Args[0] == v:
				ok = ok && elem(nx.Args[1])
			default:
				ok = false
			}
		}
		if ok && list != nil && place2(t, list) == k.List && covers(inst, tLen(list), idx) && t.leftExhausted(inst, idx, tLen(list)) && t.readIn(list, e) {
			return true
		}
	}
	return false
}

// queued: every element stored under a new key is also put at the end of the
// queue in the same critical section.
func (c *Chk) queued(rule string, t *Trace, e *Event, list string) bool {
	for _, s := range t.of("store") {
		if s.Loc.Op == "faddr" && s.Loc.S == list && sameSection(e, s) {
			n := normList(s.Val)
			for _, a := range n.App {
				if t.eq(a, e.Val) || a == e.Val {
					return c.check(rule, n.clean() && n.Drop == 0, t, s, "the queue is cut when an element is added")
				}
			}
		}
	}
	return c.check(rule, false, t, e, "an element is stored without being queued for expiry in the same critical section")
}

// deletedBy: the fields of elements naming the entries the goroutines started
// by name delete from the map.
func (c *Chk) deletedBy(name, field string) map[string]bool {
	out := map[string]bool{}
	for _, p := range c.children(c.P(name)) {
		for _, t := range p.Traces {
			for _, e := range t.mapEvs(field, "mapdel") {
				if e.Key.Op == "load" && e.Key.Args[0].Op == "faddr" {
					out[e.Key.Args[0].S] = true
				}
			}
		}
	}
	return out
}

func ruleU02(c *Chk) {
	n := "collections.StructUniqSet."
	field := c.countMap(n + "Count")
	if field == "" {
		return
	}
	procs := c.family("collections", "StructUniqSet", "StructUniqSetBuilder", "NewStructUniqSet")
	list := ""
	for _, t := range returns(c.P(n + "Add")) {
		for _, e := range t.of("store") {
			if e.Loc.Op == "faddr" && !e.Fresh && e.Val.Op == "append" && place(e.Val) == e.Loc.S {
				list = e.Loc.S
			}
		}
	}
	if list == "" {
		c.bad("anchor", n+"Add", "Add does not queue the elements it stores")
		return
	}
	k := &cleaner{Map: field, List: list, Identity: true, Age: c.ager(procs, c.optionFields("collections.StructUniqSetBuilder", "WithElementTtl"), nil),
		Ctx: c.optionFields("collections.StructUniqSetBuilder", "WithContext")}
	for _, t := range returns(c.P(n + "Add")) {
		for _, e := range t.mapEvs(field, "mapset") {
			c.queued("queued", t, e, list)
			// the element names the hash under which the cleanup looks it up
			for _, f := range sortedKeys(c.deletedBy("collections.StructUniqSetBuilder.Build", field)) {
				h := t.finalField(e.Val, f)
				c.check("queued.hash", h != nil && t.eq(h, e.Key), t, e, "the queued element does not carry the hash it is stored under")
			}
		}
	}
	c.atLeast("queued", 1)
	found := false
	for _, p := range c.children(c.P("collections.StructUniqSetBuilder.Build")) {
		if p.Kind == "stored" && p.Spawn != nil && p.Spawn.Loc != nil {
			continue // a default function, no goroutine
		}
		c.cleanup("cleanup", p, k)
		found = true
	}
	c.check("cleanup-started", found, nil, nil, "Build starts no cleanup")
	// the creation time of a stored element never changes
	for _, p := range procs {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && k.Age.Created[e.Loc.S] {
					ok := e.Fresh
					for _, m := range t.mapEvs(field, "mapset") {
						ok = ok || e.Loc.Args[0].Op == "new" && m.Val == e.Loc.Args[0] && sameSection(m, e)
					}
					c.check("created-once", ok, t, e, "the age of a stored element is changed")
				}
			}
		}
	}
	c.atLeast("created-once", 1)
	for _, p := range procs {
		if p.Kind == "api" && lastSeg(p.Name) != "Remove" {
			for _, t := range p.Traces {
				for _, e := range t.Events {
					if mapChange(e, field) && e.Kind != "mapset" && !e.Fresh {
						c.check("only-cleanup", false, t, e, "an element is removed outside Remove and the cleanup")
					}
				}
			}
		}
		if p.Kind == "api" {
			for _, t := range p.Traces {
				for _, e := range t.of("store") {
					if e.Loc.Op == "faddr" && e.Loc.S == list && !e.Fresh {
						nl := normList(e.Val)
						ok := nl.clean() && nl.Drop == 0 && (len(nl.App) > 0 || len(nl.Removed) > 0 && lastSeg(p.Name) == "Remove")
						c.check("queue", ok, t, e, "the queue of elements loses entries outside the cleanup")
					}
				}
			}
		}
	}
}

// readIn: the list was read from its field in the critical section of e (or
// is a loop variable standing for it).
func (t *Trace) readIn(list *Term, e *Event) bool {
	if list.Op != "load" {
		return true
	}
	for _, ld := range t.of("load") {
		if ld.Val == list && sameSection(ld, e) {
			return true
		}
	}
	return false
}

// isTick: the time delivered by a ticker or timer, which has passed when it
// is received.
func isTick(v *Term) bool {
	if v == nil || v.Op != "recv" || len(v.Args) == 0 {
		return false
	}
	ch := v.Args[0]
	if ch.IsCall("time.After", "time.Tick") {
		return true
	}
	n, b := fieldBase(ch)
	return n != "" && b != nil && b.IsCall("time.NewTicker", "time.NewTimer")
}

package main

import (
	"go/types"
	"strings"
)

// ---- roles found by what the code does ----

// countMap: the map field whose size an entry point returns.
func (c *Chk) countMap(name string) string {
	for _, t := range returns(c.P(name)) {
		if len(t.Ret) == 0 {
			continue
		}
		for _, e := range t.of("maplen") {
			if e.Res == t.Ret[0] && place(e.Map) != "" {
				return place(e.Map)
			}
		}
	}
	c.bad("anchor", name, "no map of the receiver gives the size returned by %s", name)
	return ""
}

// optionFields: the fields of built objects that receive the argument of a
// builder option.
func (c *Chk) optionFields(builder, option string) map[string]bool {
	out := map[string]bool{}
	opt := c.P(builder + "." + option)
	if opt == nil {
		return out
	}
	bf := map[string]bool{}
	for _, t := range returns(opt) {
		for _, e := range t.of("store") {
			if e.Val == param(opt, 1) && e.Loc.Op == "faddr" {
				bf[e.Loc.S] = true
			}
		}
	}
	for f := range bf {
		out[f] = true
	}
	for _, p := range c.family(pkgOf(builder), strings.TrimPrefix(builder, pkgOf(builder)+".")) {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Val.Op == "load" && bf[place(e.Val)] {
					out[e.Loc.S] = true
				}
			}
		}
	}
	return out
}

func pkgOf(name string) string {
	if i := strings.LastIndex(name, "."); i >= 0 {
		return name[:i]
	}
	return name
}

// ---- critical sections ----

type critSec struct {
	Seq int
	Evs []*Event
}

// writeSections splits the map and list events of a path by the exclusive
// critical section they happen in.
func (t *Trace) writeSections(fields ...string) []*critSec {
	idx := map[int]*critSec{}
	var out []*critSec
	in := func(p string) bool {
		for _, f := range fields {
			if f == p && f != "" {
				return true
			}
		}
		return false
	}
	for _, e := range t.Events {
		rel := false
		switch {
		case e.Map != nil:
			rel = in(place2(t, e.Map))
		case e.Kind == "store" || e.Kind == "load":
			rel = e.Loc.Op == "faddr" && in(e.Loc.S)
		case e.Kind == "copy":
			rel = true
		case e.Kind == "loopenter":
			rel = true
		}
		if !rel {
			continue
		}
		s := wsec(e)
		if s < 0 {
			if !mapOrStore(e) {
				continue
			}
		}
		cs := idx[s]
		if cs == nil {
			cs = &critSec{Seq: s}
			idx[s] = cs
			out = append(out, cs)
		}
		cs.Evs = append(cs.Evs, e)
	}
	return out
}

func mapOrStore(e *Event) bool {
	switch e.Kind {
	case "mapset", "mapdel", "mapclear", "store":
		return true
	}
	return false
}

// boundedSpec describes a map whose keys are also kept in insertion order in
// a list so that a maximum can be enforced.
type boundedSpec struct {
	Map, List string
	Max       map[string]bool
	Limited   bool                 // the list is only kept when a maximum is set
	MayDelete func(p *Proc) bool   // procedures that may remove entries for other reasons
	MaxTerm   func(t *Trace) *Term // the maximum as a term of the path

	grows, keeps *leakSite
}

// leakSite: what a path does to the list although no maximum may be set.
type leakSite struct {
	t *Trace
	e *Event
}

// maxTerm finds the configured maximum in the facts of a path.
func maxTermOf(t *Trace, fields map[string]bool) *Term {
	for _, e := range t.of("load") {
		if e.Loc.Op == "faddr" && fields[e.Loc.S] {
			return e.Val
		}
	}
	return nil
}

// searchedAll: the section searched the whole list for key without finding it.
func (t *Trace) searchedAll(list, key *Term) bool {
	for _, e := range t.of("searched") {
		if sameList(t, e.Val, list) && t.eq(e.Key, key) {
			return true
		}
	}
	for _, inst := range t.loopsIn() {
		if inst.Mapiter != nil || len(inst.Iters) == 0 {
			continue
		}
		ok := true
		var idx *Term
		for _, it := range inst.Iters {
			found := false
			for _, f := range it.Facts[inst.NFacts:] {
				if f.Val || f.Atom.Op != "eq" {
					continue
				}
				for k := 0; k < 2; k++ {
					l, i, is := elemIndex(f.Atom.Args[k])
					if is && sameList(t, l, list) && (f.Atom.Args[1-k] == key || t.eq(f.Atom.Args[1-k], key)) {
						found = true
						idx = i
					}
				}
			}
			ok = ok && found
		}
		if ok && idx != nil && covers(inst, tLen(list), idx) && t.leftExhausted(inst, idx, tLen(list)) {
			return true
		}
	}
	return false
}

func sameList(t *Trace, a, b *Term) bool { return a == b || t.eq(a, b) }

// removedElem: the elements of base taken out by a list value, as element
// terms or index terms.
func (n *listNF) clean() bool { return !n.Bulk && n.Cut == nil && n.Without == nil }

// listAt is normList for a value stored on the path: it also understands
// shifting the elements down with copy and filtering out a value in a loop.
func (t *Trace) listAt(val *Term) *listNF {
	n := normList(val)
	if n.Cut != nil && val.Op == "slice" {
		l := val.Args[0]
		var shift *Event
		for _, e := range t.of("copy") {
			dst, src := e.Loc, e.Val
			if dst == nil || src == nil || src.Op != "slice" || src.Args[2].Op != "none" {
				continue
			}
			if k, ok := src.Args[1].Int(); ok && k == 1 && t.eq(dst, l) && t.eq(src.Args[0], l) {
				shift = e
			}
		}
		if shift != nil && (n.Cut == tAdd(tLen(l), -1) || t.Facts.Eval(tEq(n.Cut, tAdd(tLen(l), -1))) == 1) {
			n = normList(l)
			for _, e := range t.of("mapdel") {
				// what is read at the head after the shift is the next element
				if e.Seq > shift.Seq {
					if _, _, ok := elemIndex(e.Key); ok {
						n.Bulk = true
					}
				}
			}
			n.Drop++
			return n
		}
	}
	if n.Base != nil && n.Drop == 0 && len(n.Removed) == 0 && n.clean() {
		if l, k := t.filtered(n.Base); l != nil {
			m := normList(l)
			if m.Without == nil && len(m.App) == 0 && len(m.Removed) == 0 {
				m.Without, m.App = k, n.App
				n = m
			}
		}
	}
	return n
}

// filtered: the value is the list without the elements equal to k.
func (t *Trace) filtered(val *Term) (list, k *Term) {
	for _, inst := range t.loopsIn() {
		v := inst.Var(val)
		if v == nil || !normList(v.Init).isEmpty2() || len(inst.Iters) == 0 {
			continue
		}
		var idx *Term
		good := true
		for _, it := range inst.Iters {
			found := false
			for _, f := range it.Facts[inst.NFacts:] {
				if f.Atom.Op != "eq" {
					continue
				}
				for x := 0; x < 2; x++ {
					l, i, is := elemIndex(f.Atom.Args[x])
					if !is || !covers(inst, tLen(l), i) || list != nil && l != list || idx != nil && i != idx || k != nil && k != f.Atom.Args[1-x] {
						continue
					}
					nx := it.Next[val]
					if f.Val && nx == val || !f.Val && nx != nil && nx.Op == "append" && len(nx.Args) == 2 && nx.Args[0] == val && nx.Args[1] == f.Atom.Args[x] {
						list, idx, k, found = l, i, f.Atom.Args[1-x], true
					}
				}
			}
			good = good && found
		}
		if good && len(inst.Iters) >= 2 && covers(inst, tLen(list), idx) && t.leftExhausted(inst, idx, tLen(list)) {
			return list, k
		}
		list, k = nil, nil
	}
	return nil, nil
}

func (c *Chk) bounded(rule string, procs []*Proc, sp *boundedSpec) {
	for _, p := range procs {
		for _, t := range p.Traces {
			if t.End == "cut" {
				continue
			}
			c.boundedTrace(rule, p, t, sp)
		}
	}
	if g := sp.grows; g != nil {
		c.check(rule+".leak", sp.keeps == nil, g.t, g.e, "without a maximum the insertion order list takes up new keys while removed ones stay in it, so it grows without bound")
	}
}

func (c *Chk) boundedTrace(rule string, p *Proc, t *Trace, sp *boundedSpec) {
	max := maxTermOf(t, sp.Max)
	for _, cs := range t.writeSections(sp.Map, sp.List) {
		var sets, dels, resets, lstores []*Event
		var L0, M0 *Term
		var fresh bool
		var loops []*LoopInst
		for _, e := range cs.Evs {
			switch {
			case e.Kind == "loopenter":
				loops = append(loops, e.Loop)
			case isReset(e, sp.Map):
				resets = append(resets, e)
				fresh = fresh || e.Fresh
			case e.Kind == "store" && e.Loc.S == sp.Map:
				c.check(rule+".replace", e.Fresh, t, e, "the map is replaced by something other than a new empty map")
			case e.Kind == "mapset" && place(e.Map) == sp.Map:
				if M0 == nil {
					M0 = e.Len0
				}
				if e.Pres != 1 {
					sets = append(sets, e)
				}
			case e.Kind == "mapdel" && place(e.Map) == sp.Map:
				if M0 == nil {
					M0 = e.Len0
				}
				if e.Pres != -1 {
					dels = append(dels, e)
				}
			case e.Kind == "maplen" && place(e.Map) == sp.Map && M0 == nil && len(sets)+len(dels) == 0:
				M0 = e.Res
			case e.Kind == "store" && e.Loc.S == sp.List:
				lstores = append(lstores, e)
				if e.Fresh {
					fresh = true
				}
			case e.Kind == "load" && e.Loc.S == sp.List:
				if L0 == nil {
					L0 = e.Val
				}
			}
		}
		for _, e := range lstores {
			if e.Fresh && len(sets) == 0 {
				ok := isNilVal(e.Val) || t.listAt(e.Val).isEmpty() || t.Facts.Eval(tEq(tLen(e.Val), tInt(0))) == 1
				c.check(rule+".initial", ok, t, e, "the insertion order list of a new object is not empty")
			}
		}
		if len(sets)+len(dels)+len(resets)+len(lstores) == 0 || fresh {
			continue
		}
		if sp.evictLoop(c, rule, p, t, cs, max) {
			continue
		}
		facts := t.Facts
		if L0 != nil && M0 != nil {
			facts = facts.Add(tEq(tLen(L0), M0), true) // keys and list agree before the section
		}
		unlimited := max != nil && facts.ProveLE(max, tInt(0), 0)
		// paths that the invariant rules out: a listed key missing from the
		// map, or a present key that is not listed
		skip := false
		for _, e := range t.mapEvs(sp.Map, "mapget") {
			if l, _, ok := elemIndex(e.Key); ok && place2(t, l) == sp.List && wsec(e) == cs.Seq && t.truth(e.Ok) == -1 {
				skip = true
			}
		}
		for _, e := range dels {
			if l, _, ok := elemIndex(e.Key); ok && place2(t, l) == sp.List && L0 != nil && t.searchedAll(l, e.Key) {
				skip = true
			}
			// removal of a key proven present that the list search missed
			if L0 != nil && e.Pres == 1 && t.searchedAll(L0, e.Key) && !(sp.Limited && unlimited) {
				skip = true
			}
		}
		if skip || t.End == "back" && len(loops) > 0 && t.Loop != nil && len(sets)+len(dels)+len(lstores) == 0 {
			continue
		}
		if t.End != "return" && t.End != "back" {
			continue
		}
		if t.End == "back" {
			// the path goes on in another iteration; its sections are judged
			// on the paths that leave the loop, unless the section closed
			closed := false
			for _, u := range t.of("unlock") {
				for _, h := range u.Locks {
					if h.Seq == cs.Seq {
						closed = true
					}
				}
			}
			if !closed {
				sp.iteration(c, rule, p, t, cs, dels, max)
				continue
			}
		}
		if max == nil || !facts.ProveLE(tInt(1), max, 0) {
			// no maximum may be set
			kept := len(lstores) == 0
			for _, e := range lstores {
				if n := t.listAt(e.Val); len(n.App) > 0 && sp.grows == nil {
					sp.grows = &leakSite{t, e}
				}
			}
			for _, e := range append(append([]*Event(nil), dels...), resets...) {
				if kept && sp.keeps == nil && !(L0 != nil && e.Kind == "mapdel" && t.searchedAll(L0, e.Key)) {
					sp.keeps = &leakSite{t, e}
				}
			}
		}
		if len(resets) > 0 {
			okList := len(lstores) > 0 && normList(lstores[len(lstores)-1].Val).isEmpty() || sp.Limited && unlimited
			c.check(rule+".clear", okList && len(sets) == 0, t, resets[0], "clearing the map leaves the insertion order list with old keys")
			continue
		}
		var final *listNF
		if len(lstores) > 0 {
			final = t.listAt(lstores[len(lstores)-1].Val)
		} else {
			final = &listNF{Base: L0}
		}
		// one list entry per new key
		for _, e := range sets {
			if !c.check(rule+".new-key", e.Pres == -1, t, e, "a key that may already be present is inserted as if it were new, so it could be listed twice") {
				return
			}
		}
		if !(sp.Limited && unlimited) {
			okApp := len(final.App) == len(sets) && !final.Bulk && final.Cut == nil
			for i := 0; okApp && i < len(sets); i++ {
				okApp = t.eq(final.App[i], sets[i].Key)
			}
			var ev *Event
			if len(sets) > 0 {
				ev = sets[0]
			} else if len(lstores) > 0 {
				ev = lstores[len(lstores)-1]
			}
			if len(sets) > 0 || len(lstores) > 0 {
				c.check(rule+".listed", okApp && (final.Base == L0 || L0 == nil || final.Empty), t, ev, "after the operation the insertion order list does not hold exactly the stored keys, newest last")
			}
			// removals from the map and from the list correspond
			removals := int(final.Drop) + len(final.Removed)
			if final.Without != nil {
				removals++
			}
			if final.Empty {
				removals = -1
			}
			matched := 0
			for _, e := range dels {
				if sp.delMatches(t, facts, e, final, L0) {
					matched++
				} else if L0 != nil && t.searchedAll(L0, e.Key) {
					// not listed, so by the invariant it was not present
				} else if okPresent := e.Pres == -1; !okPresent {
					c.check(rule+".unlisted", false, t, e, "a key is removed from the map but not (exactly) from the insertion order list")
				}
			}
			if len(dels) > 0 || removals > 0 {
				var e *Event
				if len(dels) > 0 {
					e = dels[0]
				} else {
					e = lstores[len(lstores)-1]
				}
				c.check(rule+".unlisted", matched == removals, t, e, "the insertion order list loses %d keys while the map loses %d of them", removals, matched)
			}
		}
		// eviction only to make room, of the oldest entry
		if !sp.MayDelete(p) {
			for _, e := range dels {
				full := max != nil && M0 != nil && facts.ProveLE(max, M0, 0) && facts.ProveLT(tInt(0), max)
				c.check(rule+".evict-when-full", len(sets) > 0 && len(dels) <= len(sets) && full, t, e, "an entry is removed although the map is not proven full (limit %v, size %v) when a new key is added", max, M0)
				l, i, ok := elemIndex(e.Key)
				okOld := ok && place2(t, l) == sp.List && isZero(i)
				if okOld {
					n := normList(l)
					okOld = n.Drop == 0 && n.clean() && len(n.Removed) == 0
					if okOld && len(n.App) > 0 {
						okOld = n.Base != nil && facts.ProveLT(tInt(0), tLen(n.Base))
					}
				}
				c.check(rule+".evict-oldest", okOld, t, e, "the evicted key is not the head of the insertion order list, so not the oldest entry")
			}
		}
		// the limit holds afterwards
		if len(sets) > 0 {
			ok := unlimited
			if !ok && max != nil && M0 != nil {
				ok = len(dels) >= len(sets) && !sp.MayDelete(p) || facts.ProveLE(tAdd(M0, int64(len(sets)-len(dels))), max, 0)
			}
			c.check(rule+".limit", ok, t, sets[len(sets)-1], "an entry is added without proof that the size stays within the limit (limit %v, size before %v, %d added, %d removed)", max, M0, len(sets), len(dels))
		}
	}
}

func (n *listNF) isEmpty() bool { return n.Empty && len(n.App) == 0 && !n.Bulk }

func tAdd(a *Term, k int64) *Term {
	if k == 0 {
		return a
	}
	return mk("bin", "+", types.Typ[types.Int], a, tInt(k))
}

// delMatches: the key removed from the map is one the list loses.
func (sp *boundedSpec) delMatches(t *Trace, facts Facts, e *Event, final *listNF, L0 *Term) bool {
	if final.Without != nil && t.eq(e.Key, final.Without) {
		return true
	}
	l, i, ok := elemIndex(e.Key)
	if ok {
		n := normList(l)
		if k, is := i.Int(); is && n.Base == final.Base && n.clean() && len(n.Removed) == 0 && n.Drop+k < final.Drop {
			return true
		}
	}
	for _, r := range final.Removed {
		for _, f := range facts {
			if !f.Val || f.Atom.Op != "eq" {
				continue
			}
			for k := 0; k < 2; k++ {
				el, ei, is := elemIndex(f.Atom.Args[k])
				if is && place2(t, el) == sp.List && (ei == r || facts.Eval(tEq(ei, r)) == 1) && t.eq(f.Atom.Args[1-k], e.Key) {
					return true
				}
			}
		}
		if ok && (i == r || facts.Eval(tEq(i, r)) == 1) {
			return true
		}
	}
	// removal of element 0 found by search for the head
	if final.Drop > 0 {
		for _, f := range facts {
			if f.Val && f.Atom.Op == "eq" {
				for k := 0; k < 2; k++ {
					el, ei, is := elemIndex(f.Atom.Args[k])
					if is && place2(t, el) == sp.List && isZero(ei) && t.eq(f.Atom.Args[1-k], e.Key) {
						return true
					}
				}
			}
		}
	}
	return false
}

// evictLoop judges sections that trim the map in a loop. It reports whether
// the section has that shape.
func (sp *boundedSpec) evictLoop(c *Chk, rule string, p *Proc, t *Trace, cs *critSec, max *Term) bool {
	var inst *LoopInst
	enter := -1
	for _, e := range cs.Evs {
		if e.Kind != "loopenter" {
			continue
		}
		for _, it := range e.Loop.Iters {
			in := false
			for _, x := range it.Events {
				in = in || x.Kind == "loopenter" && x.Loop == e.Loop
				if in && x.Kind == "mapdel" && place(x.Map) == sp.Map {
					inst, enter = e.Loop, e.Seq
				}
			}
		}
	}
	if inst == nil || max == nil || sp.MayDelete(p) {
		return false
	}
	if sp.roomLoop(c, rule, p, t, cs, max, inst, enter) {
		return true
	}
	var sets, dels, pre, post []*Event
	var base, head *Term // the list when the section and when the iteration starts
	var sizes []*Term
	for _, e := range cs.Evs {
		in := e.Seq > enter
		switch {
		case isReset(e, sp.Map) || e.Kind == "store" && e.Loc.S == sp.Map || e.Kind == "copy":
			return false
		case e.Kind == "mapset" && place(e.Map) == sp.Map && e.Pres != 1:
			if in {
				return false
			}
			sets = append(sets, e)
		case e.Kind == "mapdel" && place(e.Map) == sp.Map:
			if !in {
				return false
			}
			dels = append(dels, e)
		case e.Kind == "maplen" && place(e.Map) == sp.Map && in && len(dels) == 0:
			sizes = append(sizes, e.Res)
		case e.Kind == "load" && e.Loc.S == sp.List:
			if base == nil && !in {
				base = e.Val
			}
			if in && head == nil {
				head = e.Val
				sizes = append(sizes, tLen(e.Val))
			}
		case e.Kind == "store" && e.Loc.S == sp.List:
			if in {
				post = append(post, e)
			} else {
				pre = append(pre, e)
			}
		}
	}
	if t.End == "back" && t.Loop == inst {
		over := t.Facts.ProveLT(tInt(0), max)
		some := false
		for _, s := range sizes {
			some = some || t.Facts.ProveLT(max, s)
		}
		var n *listNF
		if len(post) > 0 {
			n = t.listAt(post[len(post)-1].Val)
		}
		for _, e := range dels {
			c.check(rule+".evict-when-full", over && some, t, e, "an entry is removed although the map is not proven to exceed its limit (limit %v)", max)
			l, i, ok := elemIndex(e.Key)
			c.check(rule+".evict-oldest", ok && l == head && isZero(i), t, e, "the evicted key is not the head of the insertion order list, so not the oldest entry")
		}
		ev := t.Events[len(t.Events)-1]
		if len(dels) > 0 {
			ev = dels[0]
		}
		c.check(rule+".unlisted", n != nil && n.Base == head && n.clean() && int(n.Drop) == len(dels) && len(dels) == 1 && len(n.Removed)+len(n.App) == 0 && n.Without == nil, t, ev,
			"an iteration of the eviction does not take exactly the head off the insertion order list and its key out of the map")
		return true
	}
	if t.End != "return" || len(post) > 0 || len(dels) > 0 {
		return false
	}
	for _, e := range sets {
		c.check(rule+".new-key", e.Pres == -1, t, e, "a key that may already be present is inserted as if it were new, so it could be listed twice")
	}
	n := &listNF{Base: base}
	if len(pre) > 0 {
		n = t.listAt(pre[len(pre)-1].Val)
	}
	ok := n.Base == base && n.clean() && n.Drop == 0 && len(n.Removed) == 0 && n.Without == nil && len(n.App) == len(sets)
	for i := 0; ok && i < len(sets); i++ {
		ok = t.eq(n.App[i], sets[i].Key)
	}
	var ev *Event
	if len(sets) > 0 {
		ev = sets[0]
	}
	c.check(rule+".listed", ok, t, ev, "after the operation the insertion order list does not hold exactly the stored keys, newest last")
	fits := t.Facts.ProveLE(max, tInt(0), 0)
	for _, s := range sizes {
		fits = fits || t.Facts.ProveLE(s, max, 0)
	}
	c.check(rule+".limit", fits, t, ev, "the eviction can stop although the size still exceeds the limit %v", max)
	return true
}

// iteration judges an iteration of a loop that removes keys.
func (sp *boundedSpec) iteration(c *Chk, rule string, p *Proc, t *Trace, cs *critSec, dels []*Event, max *Term) {
	enter := -1
	for _, e := range t.of("loopenter") {
		if e.Loop == t.Loop {
			enter = e.Seq
		}
	}
	var mine, lstores []*Event
	var head *Term
	for _, e := range dels {
		if e.Seq > enter {
			mine = append(mine, e)
		}
	}
	if enter < 0 || len(mine) == 0 || sp.Limited && max != nil && t.Facts.ProveLE(max, tInt(0), 0) {
		return
	}
	for _, e := range cs.Evs {
		switch {
		case e.Seq < enter:
		case e.Kind == "store" && e.Loc.S == sp.List:
			lstores = append(lstores, e)
		case e.Kind == "load" && e.Loc.S == sp.List && head == nil:
			head = e.Val
		}
	}
	// the paths that leave the loop may reset the list as a whole
	all, n := true, 0
	for _, u := range p.Traces {
		if u.End != "return" {
			continue
		}
		passed := -1
		for _, e := range u.of("loopenter") {
			if e.Loop == t.Loop {
				passed = e.Seq
			}
		}
		if passed < 0 {
			continue
		}
		n++
		empty := false
		for _, e := range u.of("store") {
			if e.Loc.Op == "faddr" && e.Loc.S == sp.List {
				empty = normList(e.Val).isEmpty()
			}
		}
		unl := false
		if m := maxTermOf(u, sp.Max); m != nil {
			unl = sp.Limited && u.Facts.ProveLE(m, tInt(0), 0)
		}
		all = all && (u.emptied(sp.Map) && empty || unl)
	}
	if all && n > 0 {
		c.check(rule+".clear", true, t, mine[0], "")
		return
	}
	if head != nil {
		for _, e := range mine {
			if t.searchedAll(head, e.Key) {
				return
			}
		}
	}
	ok := len(lstores) > 0
	if ok {
		n := t.listAt(lstores[len(lstores)-1].Val)
		removals := int(n.Drop) + len(n.Removed)
		if n.Without != nil {
			removals++
		}
		ok = !n.Bulk && n.Cut == nil && len(n.App) == 0 && removals == len(mine)
		for _, e := range mine {
			ok = ok && sp.delMatches(t, t.Facts, e, n, head)
		}
	}
	c.check(rule+".unlisted", ok, t, mine[0], "a loop removes keys from the map but not (exactly) from the insertion order list")
}

// roomLoop judges sections that make room in a loop before they add a key.
func (sp *boundedSpec) roomLoop(c *Chk, rule string, p *Proc, t *Trace, cs *critSec, max *Term, inst *LoopInst, enter int) bool {
	var dels, lstores, sets, after []*Event
	var head *Term // the list when an iteration starts
	var sizes []*Term
	skip := false
	for _, e := range cs.Evs {
		in := e.Seq > enter
		switch {
		case isReset(e, sp.Map) || e.Kind == "store" && e.Loc.S == sp.Map:
			return false
		case e.Kind == "mapset" && place(e.Map) == sp.Map && e.Pres != 1:
			if !in {
				return false
			}
			sets = append(sets, e)
		case e.Kind == "mapdel" && place(e.Map) == sp.Map:
			if !in {
				return false
			}
			dels = append(dels, e)
		case e.Kind == "mapget" && place(e.Map) == sp.Map && in:
			if l, _, ok := elemIndex(e.Key); ok && place2(t, l) == sp.List && t.truth(e.Ok) == -1 {
				skip = true
			}
		case e.Kind == "maplen" && place(e.Map) == sp.Map && in && len(dels) == 0:
			sizes = append(sizes, e.Res)
		case e.Kind == "load" && e.Loc.S == sp.List:
			if in && head == nil {
				head = e.Val
				sizes = append(sizes, tLen(e.Val))
			}
		case e.Kind == "store" && e.Loc.S == sp.List:
			if !in {
				return false
			}
			lstores = append(lstores, e)
			if len(sets) > 0 {
				after = append(after, e)
			}
		}
	}
	room, full := false, false
	for _, s := range sizes {
		room = room || t.Facts.ProveLT(s, max)
		full = full || t.Facts.ProveLE(max, s, 0)
	}
	unlimited := t.Facts.ProveLE(max, tInt(0), 0)
	switch {
	case t.End == "back" && t.Loop != inst:
		return true // a search inside of an iteration
	case t.End == "back":
		for _, e := range dels {
			if head != nil && t.searchedAll(head, e.Key) {
				skip = true
			}
		}
		if skip {
			return true
		}
		if !full || len(sets) > 0 {
			return false
		}
		ev := t.Events[len(t.Events)-1]
		if len(dels) > 0 {
			ev = dels[0]
		}
		for _, e := range dels {
			c.check(rule+".evict-when-full", t.Facts.ProveLT(tInt(0), max), t, e, "an entry is removed although the map is not proven to be limited (limit %v)", max)
			l, i, ok := elemIndex(e.Key)
			c.check(rule+".evict-oldest", ok && l == head && isZero(i), t, e, "the evicted key is not the head of the insertion order list, so not the oldest entry")
		}
		ok := len(dels) == 1 && len(lstores) > 0
		if ok {
			n := t.listAt(lstores[len(lstores)-1].Val)
			removals := int(n.Drop) + len(n.Removed)
			if n.Without != nil {
				removals++
			}
			ok = n.Base == head && !n.Bulk && n.Cut == nil && len(n.App) == 0 && removals == 1 && sp.delMatches(t, t.Facts, dels[0], n, head)
		}
		c.check(rule+".unlisted", ok, t, ev, "an iteration of the eviction does not take exactly the head off the insertion order list and its key out of the map")
		return true
	case t.End != "return" || len(dels) > 0 || !room && !unlimited || len(sets) != 1:
		return false
	}
	c.check(rule+".new-key", sets[0].Pres == -1, t, sets[0], "a key that may already be present is inserted as if it were new, so it could be listed twice")
	if !(sp.Limited && unlimited) {
		ok := len(lstores) > 0 && len(lstores)-len(after) <= 1
		if ok {
			n := t.listAt(lstores[len(lstores)-1].Val)
			ok = n.Base == head && n.clean() && n.Drop == 0 && len(n.Removed) == 0 && len(n.App) == 1 && t.eq(n.App[0], sets[0].Key)
		}
		c.check(rule+".listed", ok, t, sets[0], "after the operation the insertion order list does not hold exactly the stored keys, newest last")
	}
	c.check(rule+".limit", true, t, sets[0], "")
	return true
}

func init() {
	register("H01", "every write section of HashSet keeps the key map and the insertion order list in step, inserts only absent keys, evicts only the list head of a provably full set, and provably leaves at most the maximum", func(c *Chk) {
		m := c.presenceMap("collections.HashSet.Has")
		list := c.listField("collections.HashSet", m)
		procs := c.family("collections", "HashSet", "HashSetBuilder", "NewHashSet")
		sp := &boundedSpec{Map: m, List: list, Max: c.optionFields("collections.HashSetBuilder", "WithMaxCount"),
			MayDelete: func(p *Proc) bool {
				return p.Name == "collections.HashSet.Delete" || p.Name == "collections.HashSet.Clear"
			}}
		if m == "" || list == "" {
			return
		}
		c.bounded("bounded", procs, sp)
		c.atLeast("bounded.limit", 2)
		c.atLeast("bounded.evict-oldest", 1)
		c.atLeast("bounded.unlisted", 1)
		// Delete takes the key out
		for _, t := range returns(c.P("collections.HashSet.Delete")) {
			c.check("delete", t.finalPresence(m, param(t.Proc, 1)) == -1, t, nil, "Delete can return with the key still in the set")
		}
	})
}

// listField: the slice field of the type that operations on the map append
// keys to.
func (c *Chk) listField(typ, mapField string) string {
	cnt := map[string]int{}
	for _, p := range c.x.order {
		if !strings.HasPrefix(p.root().Name, typ+".") {
			continue
		}
		for _, t := range p.Traces {
			keys := map[*Term]bool{}
			for _, e := range t.mapEvs(mapField, "mapset") {
				keys[e.Key] = true
			}
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Val.Op == "append" && place(e.Val) == e.Loc.S && keys[e.Val.Args[len(e.Val.Args)-1]] {
					cnt[e.Loc.S]++
				}
			}
		}
	}
	best := ""
	for f, n := range cnt {
		if best == "" || n > cnt[best] || n == cnt[best] && f < best {
			best = f
		}
	}
	if best == "" {
		c.bad("anchor", typ, "no insertion order list of %s found", typ)
	}
	return best
}

func (c *Chk) guavaFamily() []*Proc {
	return c.family("collections", "GuavaMap", "GuavaMapBuilder", "NewGuavaMap")
}

func init() {
	register("G01", "every write section of GuavaMap keeps the stored map and the insertion order list in step while a maximum is set, inserts only absent keys, evicts only the list head of a provably full map, and provably leaves at most the maximum", func(c *Chk) {
		m := c.countMap("collections.GuavaMap.Size")
		list := c.listField("collections.GuavaMap", m)
		if m == "" || list == "" {
			return
		}
		sp := &boundedSpec{Map: m, List: list, Max: c.optionFields("collections.GuavaMapBuilder", "WithMaxCount"), Limited: true,
			MayDelete: func(p *Proc) bool {
				return p.Kind == "go" || p.Name == "collections.GuavaMap.Delete" || p.Name == "collections.GuavaMap.Clear"
			}}
		c.bounded("bounded", c.guavaFamily(), sp)
		c.atLeast("bounded.limit", 2)
		c.atLeast("bounded.evict-oldest", 1)
		c.atLeast("bounded.unlisted", 1)
	})
}

package main

import "go/types"

// Rules for the waiter registries: RequestMap, WaitMap, ResponseMap, HolderMap.
// A registry is a list of channels, one per waiting caller, kept under a key
// of a map or in a field of an entry.

type regn struct {
	T     *Trace
	Ev    *Event
	Ch    *Term
	Field string
	IsMap bool
	Key   *Term
	Owner *Term
	NF    *listNF
}

// registrations finds the places where a channel made on the path joins a list.
func (c *Chk) registrations(procs []*Proc) []*regn {
	var out []*regn
	for _, p := range procs {
		for _, t := range p.Traces {
			if t.End == "cut" || t.End == "back" {
				continue
			}
			for _, e := range t.of("mapset", "store") {
				if e.Kind == "store" && e.Loc.Op != "faddr" {
					continue
				}
				if e.Val == nil {
					continue
				}
				nf := normList(e.Val)
				for _, a := range nf.App {
					if a.Op != "mkchan" {
						continue
					}
					r := &regn{T: t, Ev: e, Ch: a, NF: nf}
					if e.Kind == "mapset" {
						r.IsMap, r.Field, r.Key = true, place(e.Map), e.Key
					} else {
						r.Field, r.Owner = e.Loc.S, e.Loc.Args[0]
					}
					if r.Field != "" {
						out = append(out, r)
					}
				}
			}
		}
	}
	return out
}

type drain struct {
	List  *Term
	Inst  *LoopInst
	Val   *Term
	Close bool
	Bad   string
}

// wake: the event sends to or closes an element of a list.
func wakeOf(e *Event) (list, idx, val *Term, closes, ok bool) {
	switch e.Kind {
	case "send", "close":
		if l, i, is := elemIndex(e.Ch); is {
			return l, i, e.Val, e.Kind == "close", true
		}
	case "select":
		for _, cs := range e.Cases {
			if l, i, is := elemIndex(cs.Ch); is && cs.Send {
				return l, i, cs.Val, false, true
			}
		}
	}
	return
}

// drainOf describes what a loop does to the channels of the list it covers.
func drainOf(inst *LoopInst) *drain {
	d := &drain{Inst: inst}
	for _, it := range inst.Iters {
		sends, closes := 0, 0
		var idx *Term
		var first string
		for _, e := range it.Events {
			if !inLoop(e, inst) {
				continue
			}
			l, i, v, cl, ok := wakeOf(e)
			if !ok {
				continue
			}
			if d.List == nil {
				d.List = l
			}
			if d.List != l || idx != nil && idx != i {
				d.Bad = "touches more than one element in one round"
			}
			idx = i
			if cl {
				closes++
				d.Close = true
			} else {
				sends++
				if closes > 0 {
					d.Bad = "sends after closing"
				}
				if d.Val != nil && d.Val != v {
					d.Bad = "sends different values"
				}
				d.Val = v
			}
			_ = first
		}
		if idx == nil {
			d.Bad = "passes a waiter without waking it"
			continue
		}
		if sends > 1 || closes > 1 {
			d.Bad = "wakes a waiter more than once"
		}
		if !covers(inst, tLen(d.List), idx) {
			d.Bad = "does not visit every waiter exactly once"
		}
	}
	if d.List == nil {
		return nil
	}
	return d
}

// drains: the complete wake-up loops of a path.
func (t *Trace) drains() []*drain {
	var out []*drain
	for _, inst := range t.loopsIn() {
		d := drainOf(inst)
		if d == nil {
			continue
		}
		if d.Bad == "" {
			left := false
			for _, it := range inst.Iters {
				for _, e := range it.Events {
					if _, i, _, _, ok := wakeOf(e); ok && inLoop(e, inst) && t.leftExhausted(inst, i, tLen(d.List)) {
						left = true
					}
				}
			}
			if !left {
				d.Bad = "can stop before the last waiter"
			}
		}
		out = append(out, d)
	}
	return out
}

// drainedList: the path wakes every element of the list; returns the drain.
func (t *Trace) drained(list *Term) *drain {
	for _, d := range t.drains() {
		if d.Bad == "" && t.eq(d.List, list) {
			return d
		}
	}
	return nil
}

func (t *Trace) knownEmpty(list *Term) bool {
	return list != nil && (list.IsNil() || t.Facts.ProveLE(tLen(list), tInt(0), 0) || t.Facts.Eval(tEq(list, tNil)) == 1)
}

// ---- registries kept under a key of a map ----

type mapReg struct {
	c      *Chk
	Field  string // registry
	Result string // map of settled results
	Procs  []*Proc
	Regs   []*regn
	Prod   map[*Proc]*regn // producer goroutines and the registration that started them
}

// lastGet: the latest lookup of the key in the same critical section before e.
func (t *Trace) lastGet(field string, key *Term, e *Event) *Event {
	var out *Event
	for _, g := range t.mapEvs(field, "mapget") {
		if g.Seq < e.Seq && sameSection(g, e) && t.eq(g.Key, key) {
			out = g
		}
	}
	return out
}

// absentIn: the key is known absent from the map at e, decided in the same
// critical section (before or after e, the map not being changed between).
func (t *Trace) presentIn(field string, key *Term, e *Event) int {
	pres := 0
	for _, g := range t.Events {
		if g.Map == nil || place(g.Map) != field || !sameSection(g, e) || g.Seq > e.Seq {
			continue
		}
		switch g.Kind {
		case "mapget":
			if t.eq(g.Key, key) {
				if v := t.truth(g.Ok); v != 0 {
					pres = v
				} else if t.knownEmpty(g.Res) {
					pres = -1
				} else if t.Facts.ProveLT(tInt(0), tLen(g.Res)) {
					pres = 1
				}
			}
		case "mapset":
			if t.eq(g.Key, key) && g != e {
				pres = 1
			}
		case "mapdel":
			if t.eq(g.Key, key) {
				pres = -1
			}
		}
	}
	if pres == 0 && e.Map != nil && place(e.Map) == field && t.eq(e.Key, key) {
		pres = e.Pres
	}
	return pres
}

func (c *Chk) mapRegistry(procs []*Proc, result string) *mapReg {
	m := &mapReg{c: c, Result: result, Procs: procs, Prod: map[*Proc]*regn{}}
	for _, r := range c.registrations(procs) {
		if r.IsMap {
			if m.Field == "" {
				m.Field = r.Field
			}
			if r.Field == m.Field {
				m.Regs = append(m.Regs, r)
			}
		}
	}
	if m.Field == "" {
		c.bad("anchor", "registry", "no map of waiting channels found")
		return nil
	}
	for _, r := range m.Regs {
		for _, e := range r.T.of("go") {
			if e.Proc != nil && m.wakes(e.Proc) {
				m.Prod[e.Proc] = r
			}
		}
	}
	return m
}

// wakes: some path of the goroutine removes waiters.
func (m *mapReg) wakes(p *Proc) bool {
	for _, t := range p.Traces {
		for _, e := range t.Events {
			if mapChange(e, m.Field) && e.Kind != "mapset" {
				return true
			}
		}
	}
	return false
}

// register: joining the list, rechecking that nothing is settled, one
// producer per key, and waiting for the own channel.
func (m *mapReg) register(rule string, sends, doneOK bool) {
	c := m.c
	for _, r := range m.Regs {
		t, e := r.T, r.Ev
		base := r.NF.Base
		first := t.presentIn(m.Field, r.Key, e)
		ok := r.NF.clean() && r.NF.Drop == 0 && len(r.NF.Removed) == 0 && len(r.NF.App) == 1
		if base != nil {
			g := t.lastGet(m.Field, r.Key, e)
			ok = ok && g != nil && g.Res == base
		} else {
			ok = ok && first == -1
		}
		c.check(rule+".joins", ok, t, e, "a waiter registers without keeping the waiters already registered for the key")
		c.check(rule+".recheck", t.presentIn(m.Result, r.Key, e) == -1, t, e, "a waiter registers without having seen, in the same critical section, that the key has no result yet")
		if sends {
			k, isC := r.Ch.Args[0].Int()
			c.check(rule+".buffered", isC && k >= 1, t, e, "waking a registered channel can block: it has no buffer")
		}
		var spawn []*Event
		for _, g := range t.of("go") {
			if g.Proc != nil && m.Prod[g.Proc] != nil {
				spawn = append(spawn, g)
			}
		}
		switch first {
		case -1:
			c.check(rule+".producer", len(spawn) == 1, t, e, "the first waiter of a key starts %d goroutines that serve the key, not one", len(spawn))
		case 1:
			c.check(rule+".producer", len(spawn) == 0, t, e, "a further waiter of a key starts another goroutine serving the key")
		default:
			c.check(rule+".producer", false, t, e, "whether a goroutine serving the key is started does not depend on the waiter being the first")
		}
		for _, g := range spawn {
			c.check(rule+".order", sameSection(g, e) || g.Seq > e.Seq, t, g, "the goroutine serving the key can finish before its first waiter is registered")
		}
		c.ownRecv(rule, r, doneOK)
	}
	c.atLeast(rule+".joins", 1)
	c.atLeast(rule+".producer", 1)
}

// ownRecv: a registered caller waits for its own channel, without locks.
func (c *Chk) ownRecv(rule string, r *regn, doneOK bool) {
	t := r.T
	if t.End != "return" {
		return
	}
	n := 0
	for _, e := range t.of("recv", "select") {
		if e.Kind == "select" {
			own, other := false, false
			for _, cs := range e.Cases {
				own = own || cs.Ch == r.Ch && !cs.Send
				other = other || cs.Ch != r.Ch && !(doneOK && cs.Ch.IsCall("(context.Context).Done"))
			}
			if !own {
				continue
			}
			if other || e.Dflt {
				c.check(rule+".waits", false, t, e, "a registered caller can stop waiting for another reason")
				continue
			}
		} else if e.Ch != r.Ch {
			continue
		}
		if e.Seq < r.Ev.Seq {
			continue
		}
		n++
		c.check(rule+".unlocked", len(e.Locks) == 0, t, e, "a caller waits while holding a lock")
	}
	c.check(rule+".waits", n == 1, t, r.Ev, "a registered caller does not wait for its channel exactly once")
}

// gotOwn: the value received from the own channel on this path.
func (r *regn) gotOwn() (*Term, *Event) {
	for _, e := range r.T.of("recv", "select") {
		if e.Ch == r.Ch && e.Seq > r.Ev.Seq {
			return e.Res, e
		}
	}
	return nil, nil
}

// dropped: every removal of waiters wakes each of them once.
func (m *mapReg) dropped(rule string, each func(t *Trace, e *Event, d *drain)) {
	c := m.c
	for _, p := range m.Procs {
		for _, t := range p.Traces {
			if t.End == "cut" {
				continue
			}
			for _, e := range t.Events {
				if e.Fresh || !mapChange(e, m.Field) {
					continue
				}
				if e.Kind == "mapset" {
					reg := false
					for _, r := range m.Regs {
						reg = reg || r.Ev == e
					}
					if t.End != "back" && t.End != "panic" {
						c.check(rule+".only-joins", reg, t, e, "the waiters of a key are replaced")
					}
					continue
				}
				if e.Kind != "mapdel" {
					c.check(rule+".wakes-all", false, t, e, "all waiters are dropped without being woken")
					continue
				}
				if e.Pres == -1 || t.End == "back" && !inLoop(e, t.Loop) {
					continue
				}
				old := e.Old
				if g := t.lastGet(m.Field, e.Key, e); g != nil {
					old = g.Res
					if t.truth(g.Ok) == -1 || t.knownEmpty(g.Res) {
						continue
					}
				}
				var d *drain
				if old != nil {
					d = t.drained(old)
				}
				if c.check(rule+".wakes-all", d != nil, t, e, "waiters are dropped without waking each of them exactly once%s", badDrain(t)) {
					each(t, e, d)
				}
			}
			// waking and keeping
			if t.End == "return" {
				for _, d := range t.drains() {
					if place(d.List) != m.Field && !m.listOf(t, d.List) {
						continue
					}
					ok := false
					for _, e := range t.mapEvs(m.Field, "mapdel") {
						if g := t.lastGet(m.Field, e.Key, e); e.Old == d.List || g != nil && g.Res == d.List {
							ok = true
						}
					}
					c.check(rule+".woken-once", ok && d.Bad == "", t, nil, "woken waiters stay registered or are woken more than once%s", badDrain(t))
				}
			}
		}
	}
	c.atLeast(rule+".wakes-all", 1)
}

func (m *mapReg) listOf(t *Trace, l *Term) bool {
	for _, g := range t.mapEvs(m.Field, "mapget") {
		if g.Res == l {
			return true
		}
	}
	return false
}

func badDrain(t *Trace) string {
	for _, d := range t.drains() {
		if d.Bad != "" {
			return " (the loop " + d.Bad + ")"
		}
	}
	return ""
}

// serves: every way out of a producer leaves no waiter behind.
func (m *mapReg) serves(rule string) {
	c := m.c
	for p, r := range m.Prod {
		for _, t := range p.Traces {
			if t.End == "back" || t.End == "cut" {
				continue
			}
			if t.End == "panic" {
				// an uncaught panic of the caller's function ends the program
				continue
			}
			ok := false
			for _, e := range t.mapEvs(m.Field, "mapdel") {
				ok = ok || t.eq(e.Key, r.Key)
			}
			for _, g := range t.mapEvs(m.Field, "mapget") {
				if !t.eq(g.Key, r.Key) || len(g.Locks) == 0 {
					continue
				}
				if t.truth(g.Ok) == -1 || t.knownEmpty(g.Res) {
					ok = true
				}
				for _, f := range t.Facts {
					if !f.Val && f.Atom.Op == "eq" {
						for i := 0; i < 2; i++ {
							if l, ix, is := elemIndex(f.Atom.Args[i]); is && l == g.Res && isZero(ix) && f.Atom.Args[1-i] == r.Ch {
								ok = true
							}
						}
					}
				}
			}
			if m.Result != "" {
				for _, g := range t.mapEvs(m.Result, "mapget") {
					if t.eq(g.Key, r.Key) && t.truth(g.Ok) == 1 && len(g.Locks) > 0 {
						ok = true
					}
				}
			}
			c.check(rule+".serves", ok, t, nil, "the goroutine serving a key can end while waiters of the key are registered")
		}
	}
	c.atLeast(rule+".serves", 1)
}

// ---- RequestMap ----

type requestMap struct {
	*mapReg
	Res, Err string // fields of a stored result
}

// fieldIn: the value of a field of a struct value or of a new object.
func (t *Trace) fieldIn(v *Term, field string, before *Event) *Term {
	if v == nil {
		return nil
	}
	if field == "" {
		return v
	}
	switch v.Op {
	case "mk":
		if st := structOf(v.T); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if fieldKey(v.T, i) == field && i < len(v.Args) {
					return v.Args[i]
				}
			}
		}
		return nil
	case "zero", "nil":
		return mk("zero", "", nil)
	case "new":
		out := mk("zero", "", nil)
		for _, s := range t.of("store") {
			if s.Loc.Op == "faddr" && s.Loc.S == field && s.Loc.Args[0] == v && (before == nil || s.Seq < before.Seq) {
				out = s.Val
			}
		}
		return out
	}
	return nil
}

func isField(x *Term, field string, v *Term) bool {
	if field == "" {
		return x == v
	}
	n, b := fieldBase(x)
	return n == field && b == v
}

var requestNames = []string{"collections.RequestMap.GetOrCreate", "collections.RequestMap.GetOrCreateWithErr"}

func (c *Chk) requests() *requestMap {
	resp := c.presenceMap(requestNames[0])
	if resp == "" {
		return nil
	}
	procs := c.family("collections", "RequestMap", "NewRequestMap")
	m := c.mapRegistry(procs, resp)
	if m == nil {
		return nil
	}
	q := &requestMap{mapReg: m}
	for i, n := range requestNames {
		for _, t := range returns(c.P(n)) {
			for _, g := range t.mapEvs(resp, "mapget") {
				if t.truth(g.Ok) != 1 {
					continue
				}
				for j, r := range t.Ret {
					f, b := fieldBase(r)
					if b != g.Res {
						continue
					}
					if j == 0 && q.Res == "" {
						q.Res = f
					}
					if i == 1 && j == 1 {
						q.Err = f
					}
				}
			}
		}
	}
	return q
}

func isErrZero(t *Term) bool { return t != nil && (t.IsNil() || t.Op == "zero") }

func ruleR01(c *Chk) {
	q := c.requests()
	if q == nil {
		return
	}
	q.register("join", true, false)
	ctor := c.P("collections.NewRequestMap")
	for _, n := range requestNames {
		p := c.P(n)
		if p == nil {
			continue
		}
		fn, key := param(p, 2), param(p, 1)
		for _, t := range p.Traces {
			for _, e := range t.of("callback") {
				if e.FnT == fn {
					c.check("runs-once", false, t, e, "the creating function is called outside the one goroutine serving the key")
				}
			}
			if t.End != "return" {
				continue
			}
			// a settled key starts nothing
			reg := false
			for _, r := range q.Regs {
				reg = reg || r.T == t
			}
			if !reg {
				for _, g := range t.of("go") {
					c.check("cached-runs-nothing", g.Proc == nil || q.Prod[g.Proc] == nil, t, g, "a goroutine serving the key is started without registering a waiter")
				}
			}
		}
		found := 0
		for _, d := range c.children(p) {
			if q.Prod[d] == nil {
				for _, t := range d.Traces {
					for _, e := range t.of("callback") {
						c.check("runs-once", e.FnT != fn, t, e, "the creating function is called outside the one goroutine serving the key")
					}
				}
				continue
			}
			found++
			for _, t := range d.Traces {
				calls := 0
				var call *Event
				for _, e := range t.of("callback") {
					if e.FnT == fn {
						calls++
						call = e
						c.check("called-with-key", len(e.Args) == 1 && e.Args[0] == key, t, e, "the creating function is not called with the key")
						c.check("called-in-line", len(e.Loops) == 0, t, e, "the creating function is called in a loop")
					}
				}
				if t.End != "return" {
					continue
				}
				c.check("runs-once", calls == 1, t, nil, "the creating function is called %d times by the goroutine serving the key", calls)
				if calls != 1 {
					continue
				}
				// what is stored is what the function returned
				sets := t.mapEvs(q.Result, "mapset")
				if !c.check("stored", len(sets) == 1 && t.eq(sets[0].Key, key), t, nil, "the result of the creating function is not stored once under the key") {
					continue
				}
				v, err := call.Res, (*Term)(nil)
				if tupleAt(v, 0) != nil {
					v, err = tupleAt(call.Res, 0), tupleAt(call.Res, 1)
				}
				s := sets[0]
				c.check("stored-value", t.eq(t.fieldIn(s.Val, q.Res, s), v), t, s, "the stored result is not the value the creating function returned")
				if q.Err != "" {
					se := t.fieldIn(s.Val, q.Err, s)
					if err != nil {
						c.check("stored-error", t.eq(se, err), t, s, "the stored error is not the error the creating function returned")
					} else {
						c.check("stored-error", isErrZero(se), t, s, "an error is stored although the creating function returned none")
					}
				}
				// removing the waiters and publishing the result are one step
				for _, e := range t.mapEvs(q.Field, "mapdel") {
					c.check("published", sameSection(e, s), t, e, "the waiters are removed in another critical section than the result is stored: the function can be called again in between")
				}
				for _, e := range t.mapEvs(q.Result, "mapdel", "mapclear") {
					c.check("published", false, t, e, "the result is removed by the goroutine that stores it")
				}
			}
		}
		c.check("producer-found", found > 0, nil, nil, "%s starts no goroutine that serves the key", n)
	}
	// nobody else stores results
	for _, p := range q.Procs {
		if q.Prod[p] != nil || p.root() == ctor && p.Parent == nil {
			continue
		}
		for _, t := range p.Traces {
			for _, e := range t.mapEvs(q.Result, "mapset") {
				if t.End == "back" {
					continue
				}
				c.check("only-producer", false, t, e, "a result is stored outside the goroutine serving the key")
			}
		}
	}
	c.dropKinds(q.mapReg)
	// preloaded results are stored under their own key with their own value
	for _, t := range ctor0(ctor) {
		for _, e := range t.mapEvs(q.Result, "mapset") {
			if t.End == "back" && !inLoop(e, t.Loop) {
				continue
			}
			rk, rb := fieldBase(e.Key)
			rv, rc := fieldBase(t.fieldIn(e.Val, q.Res, e))
			c.check("preloaded", rk != "" && rv != "" && rb == rc && rk != rv, t, e, "a preloaded result is not stored under its own key")
			if q.Err != "" {
				re, rd := fieldBase(t.fieldIn(e.Val, q.Err, e))
				c.check("preloaded", re != "" && rd == rb && re != rv, t, e, "the error of a preloaded result is lost")
			}
		}
	}
	c.atLeast("runs-once", 2)
	c.atLeast("stored-value", 2)
	c.atLeast("preloaded", 1)
}

func ctor0(p *Proc) []*Trace {
	if p == nil {
		return nil
	}
	return p.Traces
}

// dropKinds: waiters are only removed for the key served.
func (c *Chk) dropKinds(m *mapReg) {
	for p, r := range m.Prod {
		for _, t := range p.Traces {
			for _, e := range t.Events {
				if !e.Fresh && mapChange(e, m.Field) {
					c.check("own-key", e.Kind == "mapdel" && t.eq(e.Key, r.Key), t, e, "the goroutine serving a key removes waiters of other keys")
				}
			}
		}
	}
}

func ruleR02(c *Chk) {
	q := c.requests()
	if q == nil {
		return
	}
	q.register("join", true, false)
	q.dropped("wake", func(t *Trace, e *Event, d *drain) {
		ok := false
		for _, s := range t.mapEvs(q.Result, "mapset") {
			ok = ok || sameSection(s, e) && t.eq(s.Key, e.Key) && d.Val != nil && (d.Val == s.Val || t.sameResult(q, d.Val, s.Val, s))
		}
		c.check("wake.value", ok && !(d.Close && d.Val == nil), t, e, "the waiters of a key are not handed the result stored for the key")
	})
	q.serves("producer")
	for _, n := range requestNames {
		p := c.P(n)
		for _, t := range returns(p) {
			var reg *regn
			for _, r := range q.Regs {
				if r.T == t {
					reg = r
				}
			}
			want := []string{q.Res, q.Err}
			for i := range t.Ret {
				if reg != nil {
					v, _ := reg.gotOwn()
					c.check("result.received", isField(t.Ret[i], want[i], v), t, nil, "a waiting caller does not return what it was sent")
					continue
				}
				ok := false
				for _, g := range t.mapEvs(q.Result, "mapget") {
					ok = ok || t.truth(g.Ok) == 1 && t.eq(g.Key, param(p, 1)) && isField(t.Ret[i], want[i], g.Res)
				}
				c.check("result.cached", ok, t, nil, "a caller finding a result does not return it")
			}
		}
	}
	c.atLeast("result.received", 2)
	c.atLeast("result.cached", 2)
}

func (t *Trace) sameResult(q *requestMap, a, b *Term, e *Event) bool {
	x, y := t.fieldIn(a, q.Res, nil), t.fieldIn(b, q.Res, e)
	u, v := t.fieldIn(a, q.Err, nil), t.fieldIn(b, q.Err, e)
	return x != nil && x == y && u != nil && u == v
}

// closedDone: the only goroutine started closes the channel instead of sending.
func (t *Trace) closedDone(sel *Event, ch *Term) *Proc {
	var g *Proc
	for _, e := range t.of("go") {
		if e.Proc == nil || g != nil {
			return nil
		}
		g = e.Proc
	}
	if g == nil {
		return nil
	}
	closes := false
	for _, u := range g.Traces {
		for _, e := range u.of("close", "send", "select") {
			if e.Kind != "close" && e.Ch == ch {
				return nil
			}
			closes = closes || e.Kind == "close" && e.Ch == ch
		}
	}
	if !closes {
		return nil
	}
	return g
}

// doneVariant: the goroutine leaves its results in shared variables and closes a
// channel; the results are read only after the close was seen.
func (c *Chk) doneVariant(t *Trace, sel *Event, done *Term, g *Proc, fn, key *Term) {
	if sel.Ch != done {
		ok := len(t.Ret) == 2 && isZeroVal(t.Ret[0]) && t.Ret[1].Any(func(s *Term) bool { return s.Op == "global" && lastSeg(s.S) == "ErrTimeout" })
		c.check("returns-timeout", ok, t, sel, "after the duration the wrapped call does not return the zero value and ErrTimeout")
	}
	for _, u := range g.Traces {
		calls := 0
		var call, cl *Event
		for _, e := range u.of("callback") {
			if e.FnT == fn {
				calls++
				call = e
				c.check("called-with-key", len(e.Args) == 1 && e.Args[0] == key, u, e, "the original function is not called with the given key")
				c.check("called-once", len(e.Loops) == 0, u, e, "the original function is called in a loop")
			}
		}
		for _, e := range u.of("close") {
			if e.Ch == done {
				cl = e
			}
		}
		if u.End != "return" {
			c.check("runs-once", cl == nil || u.End != "panic", u, cl, "the result is announced although the function did not return")
			continue
		}
		if !c.check("runs-once", calls == 1 && cl != nil && len(cl.Loops) == 0, u, nil, "the goroutine does not call the function once and announce its result once") || sel.Ch != done {
			continue
		}
		for i, want := range []*Term{tupleAt(call.Res, 0), tupleAt(call.Res, 1)} {
			ok := false
			if len(t.Ret) == 2 {
				for _, l := range t.of("load") {
					if l.Val != t.Ret[i] || l.Seq < sel.Seq {
						continue
					}
					var last *Term
					for _, s := range u.of("store") {
						if s.Loc == l.Loc {
							last = s.Val
							if s.Seq > cl.Seq {
								last = nil
								break
							}
						}
					}
					ok = ok || last == want
				}
			}
			c.check("returns-result", ok, t, sel, "the wrapped call does not return the value and error of the function that arrived in time")
		}
	}
}

func ruleR04(c *Chk) {
	n := 0
	for _, p := range c.x.order {
		if p.root().Name != "collections.RequestMap.Timeout" || p.Kind == "api" {
			continue
		}
		c.use(p)
		if p.Kind != "returned" {
			continue
		}
		n++
		root := p.root()
		dur, fn := param(root, 1), param(root, 2)
		var key *Term
		if len(p.Params) > 0 {
			key = p.Params[len(p.Params)-1]
		}
		for _, t := range p.Traces {
			for _, e := range t.of("callback") {
				c.check("runs-once", e.FnT != fn, t, e, "the wrapped call runs the function itself and cannot time out")
			}
			if t.End != "return" {
				continue
			}
			var sel *Event
			for _, e := range t.of("select") {
				sel = e
			}
			if !c.check("select", sel != nil && !sel.Dflt && len(sel.Cases) == 2, t, nil, "the wrapped call does not wait for the result and the timeout only") {
				continue
			}
			var res *Term
			timeout := false
			for _, cs := range sel.Cases {
				if cs.Ch.Op == "mkchan" && !cs.Send {
					res = cs.Ch
				}
				if cs.Ch.IsCall("time.After") && cs.Ch.Args[0] == dur {
					timeout = true
				}
				if fl, b := fieldBase(cs.Ch); fl == "time.Timer.C" && b.IsCall("time.NewTimer") && b.Args[0] == dur {
					timeout = true
				}
				if isTimeoutCtx(cs.Ch, dur) {
					timeout = true
				}
			}
			if !c.check("select", res != nil && timeout, t, sel, "the wrapped call does not wait for the result and for the given duration") {
				continue
			}
			if g := t.closedDone(sel, res); g != nil {
				c.doneVariant(t, sel, res, g, fn, key)
				continue
			}
			k, isC := res.Args[0].Int()
			c.check("buffered", isC && k >= 1, t, sel, "a late result blocks the goroutine that produced it: the channel has no buffer")
			// the goroutine
			var gos []*Event
			for _, g := range t.of("go") {
				if g.Proc != nil {
					gos = append(gos, g)
				}
			}
			if !c.check("one-goroutine", len(gos) == 1, t, nil, "the wrapped call does not start exactly one goroutine") {
				continue
			}
			var sent *Term
			for _, u := range gos[0].Proc.Traces {
				calls := 0
				var call *Event
				for _, e := range u.of("callback") {
					if e.FnT == fn {
						calls++
						call = e
						c.check("called-with-key", len(e.Args) == 1 && e.Args[0] == key, u, e, "the original function is not called with the given key")
						c.check("called-once", len(e.Loops) == 0, u, e, "the original function is called in a loop")
					}
				}
				if u.End != "return" {
					continue
				}
				var sends []*Event
				for _, e := range u.of("send", "select") {
					if e.Ch == res || e.Kind == "select" && len(e.Cases) == 1 && e.Cases[0].Ch == res && e.Dflt {
						sends = append(sends, e)
					}
				}
				if c.check("runs-once", calls == 1 && len(sends) == 1 && len(sends[0].Loops) == 0, u, nil, "the goroutine does not call the function once and send its result once") {
					sent = sends[0].Val
					if sends[0].Kind == "select" {
						sent = sends[0].Cases[0].Val
					}
					v, err := tupleAt(call.Res, 0), tupleAt(call.Res, 1)
					okv, oke := false, false
					if st := structOf2(sent); st != nil {
						for i := 0; i < st.NumFields(); i++ {
							x := u.fieldIn(sent, fieldKey(sentType(sent), i), nil)
							okv = okv || x == v
							oke = oke || x == err
						}
					}
					c.check("sends-result", okv && oke, u, sends[0], "the goroutine does not send the value and the error of the function")
					if sel.Ch == res && sel.Idx >= 0 && st2(sent) {
						got := func(x, want *Term) bool {
							f, b := fieldBase(x)
							return b == sel.Res && f != "" && u.fieldIn(sent, f, nil) == want
						}
						c.check("returns-result", len(t.Ret) == 2 && got(t.Ret[0], v) && got(t.Ret[1], err), t, sel, "the wrapped call does not return the value and error of the function that arrived in time")
					}
				}
			}
			if sel.Ch != res {
				ok := len(t.Ret) == 2 && isZeroVal(t.Ret[0]) && t.Ret[1].Any(func(s *Term) bool { return s.Op == "global" && lastSeg(s.S) == "ErrTimeout" })
				c.check("returns-timeout", ok, t, sel, "after the duration the wrapped call does not return the zero value and ErrTimeout")
			}
		}
	}
	if n == 0 {
		c.bad("anchor", "collections.RequestMap.Timeout", "Timeout returns no function")
	}
	c.atLeast("returns-result", 1)
	c.atLeast("returns-timeout", 1)
	c.atLeast("runs-once", 1)
}

// isTimeoutCtx: the channel is that of a context that ends only after the
// given duration.
func isTimeoutCtx(ch, dur *Term) bool {
	if !ch.IsCall("(context.Context).Done") || len(ch.Args) != 1 {
		return false
	}
	x := ch.Args[0]
	if x.Op != "extract" || !x.Args[0].IsCall("context.WithTimeout") {
		return false
	}
	a := x.Args[0].Args
	return len(a) == 2 && a[1] == dur && a[0].IsCall("context.Background", "context.TODO")
}

func sentType(t *Term) types.Type {
	if t == nil || t.T == nil {
		return nil
	}
	if p, ok := t.T.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t.T
}
func structOf2(t *Term) *types.Struct {
	if ty := sentType(t); ty != nil {
		return structOf(ty)
	}
	return nil
}
func st2(t *Term) bool { return structOf2(t) != nil }

func init() {
	register("R01", "waiter-registry typestate: registration rechecks the result under the same lock, first registrant spawns the one producer, producer calls f once with the key and publishes atomically", ruleR01)
	register("R02", "waiter-registry typestate: every removal of waiters wakes each exactly once with the stored result, producers never end with waiters left, callers return what they received", ruleR02)
	register("R04", "path rule on the function returned by Timeout: one goroutine, one call, buffered hand-over, select on result and duration", ruleR04)
}

// ruleR03: every stored result is enlisted once and removed by the cleanup
// once it is old enough.
func ruleR03(c *Chk) {
	q := c.requests()
	if q == nil {
		return
	}
	ctor := c.P("collections.NewRequestMap")
	ttl := map[string]bool{}
	ctx := map[string]bool{}
	for _, t := range ctor0(ctor) {
		for _, e := range t.of("store") {
			if e.Loc.Op == "faddr" && e.Val == param(ctor, 1) {
				ttl[e.Loc.S] = true
			}
			if e.Loc.Op == "faddr" && e.Val == param(ctor, 0) {
				ctx[e.Loc.S] = true
			}
		}
	}
	age := c.ager(q.Procs, ttl, param(ctor, 1))
	created := age.Created
	list := ""
	for _, p := range q.Procs {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Val.Op == "append" && place(e.Val) == e.Loc.S {
					if nf := normList(e.Val); len(nf.App) == 1 && (t.isStored(q, nf.App[0]) || t.isRecord(nf.App[0], created)) {
						list = e.Loc.S
					}
				}
			}
		}
	}
	if list == "" {
		c.bad("anchor", "enlist", "stored results are not queued for expiry")
		return
	}
	k := &cleaner{Map: q.Result, List: list, Age: age, Ctx: ctx}
	n := 0
	for _, p := range q.Procs {
		clean := false
		for _, t := range p.Traces {
			for _, e := range t.Events {
				if !e.Fresh && mapChange(e, q.Result) && e.Kind != "mapset" {
					clean = true
				}
				// age starts when the result exists
				if e.Kind == "mapset" && place(e.Map) == q.Result {
					c.enlisted("enlist", q, k, t, e, p.root() == ctor && p.Parent == nil)
				}
			}
		}
		if clean {
			n++
			ok := p.root() == ctor && p.Parent == ctor && p.Kind == "go"
			c.check("only-cleanup", ok, nil, nil, "%s removes results although it is not the periodic cleanup", p.Name)
			if ok {
				c.cleanup("cleanup", p, k)
			}
		}
	}
	c.check("cleanup-exists", n > 0, nil, nil, "no periodic cleanup removes results")
	for _, t := range returns(ctor) {
		m := 0
		for _, g := range t.of("go") {
			if g.Proc != nil {
				for _, u := range g.Proc.Traces {
					if len(u.mapEvs(q.Result, "mapdel", "mapclear")) > 0 {
						m++
						break
					}
				}
			}
		}
		c.check("cleanup-started", m == 1, t, nil, "the cleanup is started %d times", m)
	}
	c.atLeast("cleanup-started", 1)
	c.atLeast("enlist", 2)
	// the queue only grows outside the cleanup
	for _, p := range q.Procs {
		if p.Kind == "go" && p.Parent == ctor {
			continue
		}
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Loc.S == list && !(e.Fresh && normList(e.Val).isEmpty2()) {
					nl := normList(e.Val)
					c.check("queue", nl.clean() && nl.Drop == 0 && len(nl.Removed) == 0 && len(nl.App) == 1 && (place2(t, nl.base()) == list || e.Fresh), t, e, "the queue of results loses entries outside the cleanup")
				}
			}
		}
	}
}

func (n *listNF) base() *Term {
	if n.Base == nil {
		return mk("none", "", nil)
	}
	return n.Base
}

// isStored: the value looks like what is stored as a result (same type).
func (t *Trace) isStored(q *requestMap, v *Term) bool {
	a := sentType(v)
	if a == nil {
		return false
	}
	st := structOf(a)
	if st == nil {
		return q.Res == ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldKey(a, i) == q.Res {
			return true
		}
	}
	return false
}

// isRecord: a struct with a creation time.
func (t *Trace) isRecord(v *Term, created map[string]bool) bool {
	st := structOf2(v)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if created[fieldKey(sentType(v), i)] {
			return true
		}
	}
	return false
}

// enlisted: the stored result joins the queue exactly once, and its age
// starts no earlier than when it was produced.
func (c *Chk) enlisted(rule string, q *requestMap, k *cleaner, t *Trace, e *Event, init bool) {
	if t.End == "back" && !inLoop(e, t.Loop) || t.End == "cut" || t.End == "panic" || init && t.End == "return" && len(e.Loops) > 0 {
		return
	}
	if !init && t.End == "back" {
		return
	}
	n := 0
	elem := e.Val // what carries the age
	names := func(u *Trace, a *Term) bool {
		if !u.isRecord(a, k.Age.Created) || u.isStored(q, a) {
			return false
		}
		st := structOf2(a)
		for i := 0; i < st.NumFields(); i++ {
			if f := u.fieldIn(a, fieldKey(sentType(a), i), nil); f != nil && u.eq(f, e.Key) {
				return true
			}
		}
		return false
	}
	queued := func(u *Trace, once bool) {
		for _, s := range u.of("store") {
			if s.Loc.Op == "faddr" && s.Loc.S == k.List {
				for _, a := range normList(s.Val).App {
					if (a == e.Val || u.eq(a, e.Val) || names(u, a)) && (len(s.Loops) == 0 || u == t && init) {
						n++
						elem = a
					}
				}
			}
		}
	}
	queued(t, false)
	for _, g := range t.of("go") {
		if g.Proc == nil || g.Seq < e.Seq {
			continue
		}
		for _, u := range returns(g.Proc) {
			m := n
			queued(u, true)
			if n == m {
				n = -100
			}
		}
	}
	want := 1
	if init {
		switch t.presentIn0(k.Map, e.Key, e) {
		case 1:
			want = 0
		case 0:
			want = -1
		}
	}
	c.check(rule, n == want, t, e, "a stored result is queued %d times for expiry instead of %d", n, want)
	if n == 0 && want == 0 {
		return
	}
	// creation time
	now := (*Event)(nil)
	for f := range k.Age.Created {
		v := t.fieldIn(elem, f, e)
		if v != nil && k.Age.Ends[f] && v.Op == "timeadd" {
			v = v.Args[0]
		}
		for _, x := range t.of("call") {
			if x.Res == v && x.Name == "time.Now" {
				now = x
			}
		}
	}
	ok := now != nil
	for _, x := range t.of("callback") {
		ok = ok && now != nil && now.Seq > x.Seq
	}
	c.check(rule+".age", ok, t, e, "the age of a result does not start when the result was produced")
}

// presentIn0: as presentIn for objects not yet shared, where no lock is held.
func (t *Trace) presentIn0(field string, key *Term, e *Event) int {
	pres := 0
	for _, g := range t.mapEvs(field, "mapget") {
		if g.Seq < e.Seq && t.eq(g.Key, key) {
			pres = t.truth(g.Ok)
		}
	}
	if pres == 0 {
		pres = e.Pres
	}
	return pres
}

func init() {
	register("R03", "queue/cleanup dataflow: every stored result enlisted exactly once with a fresh timestamp, cleanup removes only proven-expired elements and stops only at a younger one", ruleR03)
}

// ---- WaitMap ----

// clockOf: the duration after which the channel fires, for clock channels.
func (t *Trace) clockOf(ch *Term) *Term {
	if ch == nil {
		return nil
	}
	if ch.IsCall("time.After", "time.Tick") && len(ch.Args) == 1 {
		return ch.Args[0]
	}
	n, b := fieldBase(ch)
	if n != "time.Timer.C" && n != "time.Ticker.C" {
		return nil
	}
	if b.IsCall("time.NewTimer", "time.NewTicker") && len(b.Args) == 1 {
		return b.Args[0]
	}
	return nil
}

// waitsFor: what a blocking event of a goroutine can wake up on.
func (t *Trace) waitsFor(e *Event, ctx, dur map[string]bool) (done, clock, other bool) {
	var chs []*Term
	if e.Kind == "select" {
		for _, cs := range e.Cases {
			chs = append(chs, cs.Ch)
		}
	} else {
		chs = append(chs, e.Ch)
	}
	for _, ch := range chs {
		switch {
		case isDone(&Event{Ch: ch}, ctx):
			done = true
		case fromField(t.clockOf(ch), dur):
			clock = true
		default:
			other = true
		}
	}
	return
}

// first waits: the events on which a path blocked.
func (t *Trace) blocked() []*Event {
	var out []*Event
	for _, e := range t.of("select", "recv") {
		if e.Kind == "select" && e.Dflt {
			continue
		}
		out = append(out, e)
	}
	return out
}

type waitMap struct {
	*mapReg
	ReqTimeout, TTL, Ctx map[string]bool
}

func (c *Chk) waitMap() *waitMap {
	res := c.presenceMap("collections.WaitMap.Wait")
	if res == "" {
		return nil
	}
	m := c.mapRegistry(c.family("collections", "WaitMap", "WaitMapBuilder", "NewWaitMap"), res)
	if m == nil {
		return nil
	}
	b := "collections.WaitMapBuilder"
	return &waitMap{m, c.optionFields(b, "WithRequestTimeout"), c.optionFields(b, "WithResponseTtl"), c.optionFields(b, "WithContext")}
}

// identity: the path saw that the waiter that started the goroutine is still
// (val 1) or no longer (-1) the first registered one.
func (m *mapReg) identity(t *Trace, r *regn, e *Event) int {
	for _, g := range t.mapEvs(m.Field, "mapget") {
		if !t.eq(g.Key, r.Key) || len(g.Locks) == 0 || e != nil && !sameSection(g, e) {
			continue
		}
		for _, f := range t.Facts {
			if f.Atom.Op != "eq" {
				continue
			}
			for i := 0; i < 2; i++ {
				if l, ix, is := elemIndex(f.Atom.Args[i]); is && l == g.Res && isZero(ix) && f.Atom.Args[1-i] == r.Ch {
					if f.Val {
						return 1
					}
					return -1
				}
			}
		}
	}
	return 0
}

func ruleV01(c *Chk) {
	w := c.waitMap()
	if w == nil {
		return
	}
	w.register("join", true, true)
	w.dropped("wake", func(t *Trace, e *Event, d *drain) {
		set := (*Event)(nil)
		for _, s := range t.mapEvs(w.Result, "mapset") {
			if sameSection(s, e) && t.eq(s.Key, e.Key) {
				set = s
			}
		}
		if set != nil {
			c.check("wake.value", d.Val != nil && t.eq(d.Val, set.Val), t, e, "waiters are not handed the value stored for the key")
			return
		}
		done := false
		for _, s := range t.of("select", "recv") {
			done = done || isDone(s, w.Ctx)
		}
		c.check("wake.context", done && (d.Val == nil && d.Close || isZeroVal(d.Val)), t, e, "waiters are woken without a value although the context has not ended")
	})
	w.serves("producer")
	c.dropKinds(w.mapReg)
	for _, p := range w.Procs {
		for _, t := range p.Traces {
			if t.End != "return" {
				continue
			}
			for _, s := range t.mapEvs(w.Result, "mapset") {
				if s.Fresh {
					continue
				}
				ok := false
				for _, g := range t.mapEvs(w.Field) {
					if !sameSection(g, s) || !t.eq(g.Key, s.Key) {
						continue
					}
					ok = ok || g.Kind == "mapdel" || g.Kind == "mapget" && (t.truth(g.Ok) == -1 || t.knownEmpty(g.Res))
				}
				c.check("set.wakes", ok, t, s, "a value is stored without waking the registered waiters in the same critical section")
			}
		}
	}
	for p := range w.Prod {
		for _, t := range p.Traces {
			bl := t.blocked()
			if len(bl) == 0 {
				c.check("bounded", t.End != "return" || c.started(p, w.ReqTimeout), t, nil, "waiters are served without waiting for the request timeout")
				continue
			}
			e := bl[0]
			done, clock, other := t.waitsFor(e, w.Ctx, w.ReqTimeout)
			c.check("bounded", len(bl) == 1 && done && clock && !other, t, e, "the goroutine serving a key does not wait for exactly the request timeout and the context")
		}
	}
	p := c.P("collections.WaitMap.Wait")
	for _, t := range returns(p) {
		var reg *regn
		for _, r := range w.Regs {
			if r.T == t {
				reg = r
			}
		}
		if reg != nil {
			v, _ := reg.gotOwn()
			c.check("result.received", len(t.Ret) == 1 && (v != nil && t.eq(t.Ret[0], v) || v == nil && isZeroVal(t.Ret[0])), t, nil, "a waiting caller does not return what it was sent")
			continue
		}
		ok := false
		for _, g := range t.mapEvs(w.Result, "mapget") {
			ok = ok || t.truth(g.Ok) == 1 && t.eq(g.Key, param(p, 1)) && t.eq(t.Ret[0], g.Res)
		}
		c.check("result.present", ok, t, nil, "a caller finding a value does not return it")
	}
	c.atLeast("result.received", 1)
	c.atLeast("result.present", 1)
	c.atLeast("set.wakes", 1)
	c.atLeast("bounded", 1)
	c.ctorMakes("collections.WaitMapBuilder.Build", w.Field, w.Result)
}

// started: the goroutine is started by a timer armed with the duration.
func (c *Chk) started(p *Proc, dur map[string]bool) bool {
	e := p.Spawn
	return e != nil && e.Name == "time.AfterFunc" && len(e.Args) > 0 && fromField(e.Args[0], dur)
}

func ruleV02(c *Chk) {
	w := c.waitMap()
	if w == nil {
		return
	}
	set := c.P("collections.WaitMap.Set")
	deletes := func(p *Proc) bool {
		for _, t := range p.Traces {
			if len(t.mapEvs(w.Result, "mapdel", "mapclear")) > 0 {
				return true
			}
		}
		return false
	}
	expiry := map[*Proc]*Term{}
	for _, p := range w.Procs {
		for _, t := range p.Traces {
			if t.End != "return" && t.End != "panic" {
				continue
			}
			for _, e := range t.mapEvs(w.Result, "mapset") {
				if e.Fresh {
					continue
				}
				c.check("first-wins", t.presentIn(w.Result, e.Key, e) == -1, t, e, "a value is stored without having seen, in the same critical section, that the key has none")
				c.check("stored-once", len(e.Loops) == 0, t, e, "a value is stored in a loop")
				switch {
				case p == set:
					c.check("stored-value", t.eq(e.Key, param(p, 1)) && t.eq(e.Val, param(p, 2)), t, e, "Set does not store its value under its key")
				case w.Prod[p] != nil:
					r := w.Prod[p]
					c.check("timeout-local", t.eq(e.Key, r.Key) && w.identity(t, r, e) == 1, t, e, "a request timeout stores a value without having seen that the waiter it was armed for is still waiting")
					c.check("timeout-zero", isZeroVal(e.Val), t, e, "a request timeout stores something else than the zero value")
				default:
					c.check("stored-value", false, t, e, "a value is stored outside Set and the request timeout")
				}
				n := 0
				for _, g := range t.Events {
					if g.Proc != nil && g.Proc.Kind == "go" && (g.Kind == "go" || g.Name == "time.AfterFunc") && deletes(g.Proc) && w.Prod[g.Proc] == nil {
						n++
						if len(g.Loops) > 0 {
							n++
						}
						expiry[g.Proc] = e.Key
					}
				}
				c.check("armed", n == 1, t, e, "a stored value gets %d goroutines that end its lifetime, not one", n)
			}
			// nothing armed without a value
			if len(t.mapEvs(w.Result, "mapset")) == 0 {
				for _, g := range t.Events {
					if g.Proc != nil && g.Proc.Kind == "go" && w.Prod[g.Proc] == nil && deletes(g.Proc) {
						c.check("armed-only-for-stored", false, t, g, "a lifetime is armed although no value was stored")
					}
				}
			}
		}
		// a request timeout touches the waiters it was armed for only
		if r := w.Prod[p]; r != nil {
			for _, t := range p.Traces {
				done := false
				for _, s := range t.of("select", "recv") {
					done = done || isDone(s, w.Ctx)
				}
				for _, e := range t.mapEvs(w.Field, "mapdel") {
					c.check("timeout-local", done || w.identity(t, r, e) == 1, t, e, "a request timeout removes waiters without having seen that the waiter it was armed for is still waiting")
				}
			}
		}
	}
	for _, t := range returns(set) {
		sets := t.mapEvs(w.Result, "mapset")
		seen := false
		for _, g := range t.mapEvs(w.Result, "mapget") {
			seen = seen || t.eq(g.Key, param(set, 1)) && t.truth(g.Ok) == 1
		}
		c.check("set-stores", len(sets) == 1 || seen && len(sets) == 0, t, nil, "Set neither stores its value nor finds one present")
	}
	for _, p := range w.Procs {
		key, isExp := expiry[p]
		for _, t := range p.Traces {
			n := 0
			for _, e := range t.Events {
				if e.Fresh || !mapChange(e, w.Result) || e.Kind == "mapset" {
					continue
				}
				if !c.check("only-expiry", isExp && e.Kind == "mapdel", t, e, "a value is removed before its lifetime ended") {
					continue
				}
				n++
				c.check("expiry-key", t.eq(e.Key, key), t, e, "the end of a lifetime removes another key")
				ok := c.started(p, w.TTL)
				for _, s := range t.blocked() {
					done, clock, other := t.waitsFor(s, w.Ctx, w.TTL)
					ok = ok || clock && !other && done && s.Seq < e.Seq
				}
				c.check("expiry-waits", ok, t, e, "a value is removed without waiting for its lifetime or the context")
			}
			if isExp && t.End == "return" {
				c.check("expiry-removes", n == 1, t, nil, "the end of a lifetime does not remove the value")
			}
		}
	}
	c.atLeast("armed", 2)
	c.atLeast("timeout-local", 1)
	c.atLeast("stored-value", 1)
	c.atLeast("expiry-removes", 1)
}

func init() {
	register("V01", "waiter-registry typestate: registration rechecks the value under the same lock, every store or context end wakes each waiter once, a bounded producer per key never leaves waiters behind", ruleV01)
	register("V02", "path rules on stores and removals: store only when absent, timeout guarded by the identity of its waiter, one lifetime goroutine per stored value, no other removal", ruleV02)
}

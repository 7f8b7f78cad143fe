package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

func init() {
	register("Q02", "lock typestate over the abstract paths of every procedure, panics of user callbacks included: locks held at every way out, releases of locks not held, acquisition of a held lock, cycles of the graph of lock kinds acquired while others are held, and every callback or blocking operation met while a lock is held",
		ruleQ02)
}

// lockEdge: a lock of kind To acquired while one of kind From is held.
type lockEdge struct{ From, To string }

type lockWorld struct {
	c     *Chk
	edges map[lockEdge]*Event
	at    map[lockEdge]*Trace
	long  map[string]bool // kinds held while user code runs
	regs  []*regn
	regBy map[string][]*regn
}

// lockKind names a lock by the field that holds it.
func lockKind(loc *Term) string {
	switch loc.Op {
	case "keyed":
		return "key of " + place(loc.Args[0])
	case "global":
		return "global " + loc.S
	}
	if k := place(loc); k != "" {
		return k
	}
	if loc.Op == "new" {
		return fmt.Sprintf("variable #%d", loc.ID)
	}
	return loc.String()
}

// perKey: the lock belongs to one key: it is held in a keyed table or lives in
// an object found or kept in a map.
func perKey(t *Trace, loc *Term) bool {
	if loc.Op == "keyed" {
		return true
	}
	b := loc
	for {
		switch b.Op {
		case "faddr":
			b = b.Args[0]
			continue
		case "load":
			if b.Args[0].Op == "faddr" {
				b = b.Args[0].Args[0]
				continue
			}
		case "assert", "extract", "conv":
			b = b.Args[0]
			continue
		}
		break
	}
	return fromTable(t, b)
}

func fromTable(t *Trace, b *Term) bool {
	if b.Op == "lookup" {
		return true
	}
	if b.Op == "call" && strings.HasPrefix(b.S, "(*sync.Map).Load") {
		return true
	}
	if b.Op == "new" || b.Op == "phi" {
		for _, e := range t.of("mapset") {
			if e.Val == b || e.Val.Op == "iface" && e.Val.Args[0] == b {
				return true
			}
		}
		for _, e := range t.of("call") {
			if strings.HasPrefix(e.Name, "(*sync.Map).") {
				for _, a := range e.Args {
					if mentions(a, b) {
						return true
					}
				}
			}
		}
	}
	for _, g := range t.of("mapget") {
		if g.Res == b {
			return true
		}
	}
	return false
}

// lockAPI: an exported method whose contract is to take or give back a lock.
func lockAPI(p *Proc) (takes, gives bool) {
	if p.Kind != "api" {
		return
	}
	switch lastSeg(p.Name) {
	case "Lock", "RLock", "TryLock", "TryRLock":
		takes = true
	case "Unlock", "RUnlock":
		gives = true
	}
	return
}

// funcParam: the function value is a parameter of the exported operation.
func funcParam(p *Proc, f *Term) bool {
	for _, q := range p.root().Params {
		if q == f {
			return true
		}
	}
	return false
}

func ruleQ02(c *Chk) {
	r := &lockWorld{c: c, edges: map[lockEdge]*Event{}, at: map[lockEdge]*Trace{}, long: map[string]bool{}, regBy: map[string][]*regn{}}
	for _, g := range c.registrations(c.x.order) {
		r.regBy[g.Field] = append(r.regBy[g.Field], g)
	}
	for _, p := range c.x.order {
		c.use(p)
		takes, gives := lockAPI(p)
		for _, t := range p.Traces {
			r.balance(p, t, takes, gives)
			for _, e := range t.Events {
				if e.Kind == "callback" {
					for _, h := range e.Locks {
						r.long[lockKind(h.Loc)] = true
					}
				}
			}
		}
	}
	for _, p := range c.x.order {
		_, gives := lockAPI(p)
		for _, t := range p.Traces {
			for _, e := range t.Events {
				switch e.Kind {
				case "lock":
					r.acquire(p, t, e)
				case "callback":
					r.callback(p, t, e)
				default:
					r.blocking(p, t, e)
				}
			}
			if gives {
				// the caller holds what this call gives back
				for _, u := range t.of("badunlock") {
					for _, e := range t.of("lock") {
						if e.Seq < u.Seq {
							r.edge(lockKind(u.Loc), lockKind(e.Loc), t, e)
						}
					}
				}
			}
			r.wokenOnce(p, t)
		}
	}
	r.cycles()
	c.atLeast("released", 10)
	c.atLeast("balanced-release", 10)
	c.atLeast("not-held", 10)
	c.atLeast("callback", 1)
	c.atLeast("nonblocking", 1)
}

// balance: what is held where a path ends.
func (r *lockWorld) balance(p *Proc, t *Trace, takes, gives bool) {
	c := r.c
	switch t.End {
	case "return", "panic":
		left := t.Locks
		if takes && t.End == "return" && len(left) == 1 && perKey(t, left[0].Loc) {
			left = nil
			r.long[lockKind(t.Locks[0].Loc)] = true
		}
		var e *Event
		if len(left) > 0 {
			e = t.Events[min(left[0].Seq, len(t.Events)-1)]
			for _, q := range t.of("lock") {
				if q.Pos == left[0].Pos && q.Loc == left[0].Loc {
					e = q
				}
			}
		}
		if t.End == "return" {
			c.check("released", len(left) == 0, t, e, "a lock taken here (%s) is still held when the call or goroutine returns", heldKinds(left))
		} else {
			c.check("released-on-panic", len(left) == 0, t, e, "a lock taken here (%s) stays held when a panic leaves the call or goroutine", heldKinds(left))
		}
	case "back":
		var in, out *Event
		for _, e := range t.Events {
			if e.Kind == "loopenter" && e.Loop == t.Loop {
				in = e
			}
			if e.Kind == "loopback" && e.Loop == t.Loop {
				out = e
			}
		}
		if in != nil {
			end := t.Locks
			if out != nil {
				end = out.Locks
			}
			c.check("loop-balanced", sameLocks(in.Locks, end), t, in, "a round of the loop starts holding [%s] and ends holding [%s]", heldKinds(in.Locks), heldKinds(end))
		}
	}
	for _, e := range t.of("badunlock", "unlock") {
		if e.Kind == "badunlock" && gives && perKey(t, e.Loc) {
			continue
		}
		c.check("balanced-release", e.Kind != "badunlock", t, e, "%s releases %s, which the path does not hold%s", lastSeg(e.Name), lockKind(e.Loc), map[bool]string{true: " in that mode", false: ""}[e.Name == "mode"])
	}
}

func heldKinds(l []Held) string {
	var out []string
	for _, h := range l {
		m := ""
		if !h.Write {
			m = " (shared)"
		}
		out = append(out, lockKind(h.Loc)+m)
	}
	return strings.Join(out, ", ")
}

func sameLocks(a, b []Held) bool {
	if len(a) != len(b) {
		return false
	}
	n := map[string]int{}
	for _, h := range a {
		n[fmt.Sprint(h.Loc.ID, h.Write)]++
	}
	for _, h := range b {
		n[fmt.Sprint(h.Loc.ID, h.Write)]--
	}
	for _, k := range n {
		if k != 0 {
			return false
		}
	}
	return true
}

func (r *lockWorld) edge(from, to string, t *Trace, e *Event) {
	k := lockEdge{from, to}
	if r.edges[k] == nil {
		r.edges[k], r.at[k] = e, t
	}
}

// acquire: not the lock already held, and no wait for a lock held by user code
// under a lock others need.
func (r *lockWorld) acquire(p *Proc, t *Trace, e *Event) {
	c := r.c
	if strings.HasPrefix(e.Name, "Try") {
		return
	}
	f := t.at(e)
	to := lockKind(e.Loc)
	for _, h := range e.Locks {
		from := lockKind(h.Loc)
		same := h.Loc == e.Loc || f.Eval(tEq(h.Loc, e.Loc)) == 1
		if !c.check("not-held", !same, t, e, "acquires %s, which the path already holds since %s: the goroutine waits for itself", to, c.w.pos(h.Pos)) {
			continue
		}
		if from == to && (f.Eval(tEq(h.Loc, e.Loc)) == -1 || ascending(f, h.Loc, e.Loc)) {
			continue
		}
		r.edge(from, to, t, e)
		if !perKey(t, h.Loc) {
			c.check("no-long-wait", !r.long[to], t, e, "waits for %s, under which user code runs, while holding %s", to, from)
		}
	}
	if len(e.Locks) == 0 {
		c.check("not-held", true, t, e, "")
	}
}

// ascending: two elements of one list, taken in the order of their indices.
func ascending(f Facts, a, b *Term) bool {
	for a.Op == "faddr" && b.Op == "faddr" && a.S == b.S {
		a, b = a.Args[0], b.Args[0]
	}
	l, i, ok := elemIndex(a)
	m, j, ok2 := elemIndex(b)
	return ok && ok2 && l == m && f.ProveLT(i, j)
}

func (r *lockWorld) callback(p *Proc, t *Trace, e *Event) {
	bad := ""
	for _, h := range e.Locks {
		if perKey(t, h.Loc) {
			continue
		}
		if lastSeg(p.root().Name) == "SetIfNotExistsWithFunc" && p.Kind == "api" && funcParam(p, e.FnT) {
			continue
		}
		bad = lockKind(h.Loc)
	}
	r.c.check("callback", bad == "", t, e, "the user's function runs while %s is held", bad)
}

var blockingCalls = []string{"time.Sleep", "net.", "(net.", "(*net.", "io.", "(io.", "net/http.", "(*net/http.", "os/exec.", "(*os/exec.", "(*golang.org/x/sync/errgroup.Group).Wait"}

func (r *lockWorld) blocking(p *Proc, t *Trace, e *Event) {
	if len(e.Locks) == 0 {
		return
	}
	c := r.c
	held := heldKinds(e.Locks)
	switch e.Kind {
	case "blockforever":
		c.check("nonblocking", false, t, e, "blocks forever holding %s", held)
	case "select":
		if e.Dflt {
			c.check("nonblocking", true, t, e, "")
			return
		}
		for _, cs := range e.Cases {
			if cs.Send && r.room(p, t, e, cs.Ch) == "" {
				c.check("nonblocking", true, t, e, "")
				return
			}
		}
		c.check("nonblocking", false, t, e, "waits in a select while holding %s", held)
	case "recv":
		ok := t.closedBefore(e)
		c.check("nonblocking", ok, t, e, "waits for a channel while holding %s", held)
	case "send":
		why := r.room(p, t, e, e.Ch)
		c.check("nonblocking", why == "", t, e, "a send while holding %s can block: %s", held, why)
	case "wait":
		if strings.Contains(e.Name, "sync.Cond") {
			c.check("nonblocking", len(e.Locks) == 1, t, e, "waits for a condition while holding %s", held)
			return
		}
		c.check("nonblocking", false, t, e, "waits for other goroutines while holding %s", held)
	case "call":
		for _, b := range blockingCalls {
			if strings.HasPrefix(e.Name, b) {
				c.check("nonblocking", false, t, e, "%s can block while %s is held", e.Name, held)
			}
		}
	}
}

// closedBefore: the channel received from was closed earlier on the path.
func (t *Trace) closedBefore(e *Event) bool {
	for _, q := range t.of("close") {
		if q.Ch == e.Ch && q.Seq < e.Seq {
			return true
		}
	}
	return false
}

// room: why the channel may have no free place for a send ("" if it has one).
func (r *lockWorld) room(p *Proc, t *Trace, e *Event, ch *Term) string {
	if ch.Op == "mkchan" {
		k, isC := ch.Args[0].Int()
		n := 0
		for _, q := range t.of("send", "select") {
			if q.Kind == "send" && q.Ch == ch {
				n++
				if len(q.Loops) > 0 {
					return "the channel is sent to in a loop"
				}
			}
		}
		if !isC || int64(n) > k {
			return "the channel has not enough buffer"
		}
		return ""
	}
	l, _, ok := elemIndex(ch)
	if !ok {
		return "nothing bounds what the channel already holds"
	}
	field := place(l)
	if l.Op == "lookup" || field == "" {
		for _, g := range t.of("mapget") {
			if g.Res == l || normList(l).Base == g.Res && g.Res != nil {
				field = place(g.Map)
			}
		}
	}
	regs := r.regBy[field]
	if len(regs) == 0 {
		return "no registration of the waiting channels of " + field + " is known"
	}
	for _, g := range regs {
		if k, isC := g.Ch.Args[0].Int(); !isC || k < 1 {
			return "the waiting channel registered at " + r.c.w.pos(g.Ev.Pos) + " has no buffer"
		}
	}
	return ""
}

// wokenOnce: the channels sent to under a lock leave their list in the same
// critical section (or nobody wakes them again), so a buffer of one suffices.
func (r *lockWorld) wokenOnce(p *Proc, t *Trace) {
	c := r.c
	if t.End != "return" {
		return
	}
	for _, d := range t.drains() {
		en := t.enter(d.Inst)
		if en == nil || d.Val == nil || len(en.Locks) == 0 {
			continue
		}
		field := place(d.List)
		var key, owner2 *Term
		for _, g := range t.of("mapget") {
			if g.Res == d.List {
				field, key = place(g.Map), g.Key
			}
		}
		if len(r.regBy[field]) == 0 {
			continue
		}
		owner2 = owner(d.List)
		ok := false
		for _, e := range t.Events {
			switch {
			case e.Kind == "mapclear" && key != nil && place(e.Map) == field && sameSection(e, en):
				ok = true
			case e.Kind == "mapdel" && key != nil && place(e.Map) == field && t.eq(e.Key, key) && sameSection(e, en):
				ok = true
			case e.Kind == "mapset" && key != nil && place(e.Map) == field && t.eq(e.Key, key) && sameSection(e, en):
				ok = ok || normList(e.Val).isEmpty2()
			case e.Kind == "store" && key == nil && e.Loc.Op == "faddr" && e.Loc.S == field && e.Loc.Args[0] == owner2 && (sameSection(e, en) || e == t.claim(d, field)):
				ok = ok || normList(e.Val).isEmpty2()
			}
		}
		if !ok && key == nil {
			for _, er := range r.entryRegs() {
				if er.List == field && er.settledIn(t, en, owner2) && (er.sawOpen(t, en, owner2) || er.onlyOnce(p, en)) {
					ok = true
				}
			}
		}
		c.check("sent-once", ok && !strings.Contains(d.Bad, "more than once"), t, en, "channels sent to while %s is held stay registered or get two values: the next send to them blocks under the lock", heldKinds(en.Locks))
	}
}

func (r *lockWorld) entryRegs() []*entryReg {
	var out []*entryReg
	quiet := newChk(r.c.w, r.c.x, r.c.ID, r.c.Tier)
	for _, f := range []func() *entryReg{quiet.holderMap, quiet.responseMap} {
		if er := f(); er != nil {
			out = append(out, er)
		}
	}
	return out
}

// cycles of the acquisition order.
func (r *lockWorld) cycles() {
	c := r.c
	next := map[string][]string{}
	var keys []lockEdge
	for k := range r.edges {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		return keys[i].From < keys[j].From || keys[i].From == keys[j].From && keys[i].To < keys[j].To
	})
	for _, k := range keys {
		next[k.From] = append(next[k.From], k.To)
	}
	for _, k := range keys {
		// does To reach From?
		seen := map[string]string{}
		queue := []string{k.To}
		seen[k.To] = "-"
		found := k.To == k.From
		for len(queue) > 0 && !found {
			n := queue[0]
			queue = queue[1:]
			for _, m := range next[n] {
				if seen[m] != "" {
					continue
				}
				seen[m] = n
				queue = append(queue, m)
				found = found || m == k.From
			}
		}
		t := r.at[k]
		if k.From == k.To {
			c.check("order", !found, t, r.edges[k], "acquires another %s while one is held: two goroutines doing so in opposite order wait for each other", k.To)
			continue
		}
		back := ""
		for n := k.From; found && n != "-" && n != k.To; n = seen[n] {
			back = " → " + n + back
		}
		other := token.NoPos
		if found {
			for q, e := range r.edges {
				if q.To == k.From && (other == token.NoPos || e.Pos < other) {
					other = e.Pos
				}
			}
		}
		c.check("order", !found, t, r.edges[k], "acquires %s while holding %s, but elsewhere (%s) the order is %s%s", k.To, k.From, c.w.pos(other), k.To, back)
	}
	c.Obl["lock-kinds"] = len(next)
}

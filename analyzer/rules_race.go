package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("Q01", "lockset analysis over the abstract paths of all concurrent types: every two accesses to one field, map, list or captured variable of which one writes share a lock of the owning object held exclusively by one of them, or one happens before the other through object construction, a channel, a once or a wait group; no internal map or in-place changed list is handed out",
		ruleQ01)
}

// concurrentType: types meant for use by several goroutines.
func concurrentKey(key string) bool {
	pkg, rest, ok := strings.Cut(key, ".")
	if !ok || pkg != "collections" && pkg != "chans" && pkg != "workers" {
		return false
	}
	t, _, _ := strings.Cut(rest, ".")
	return t != "Set" && !strings.HasSuffix(t, "Builder")
}

func concurrentProc(p *Proc) bool {
	n := p.root().Name
	pkg, rest, ok := strings.Cut(n, ".")
	if !ok || pkg != "collections" && pkg != "chans" && pkg != "workers" {
		return false
	}
	t, _, _ := strings.Cut(rest, ".")
	return t != "Set" && t != "NewSet"
}

// a level of the path to a location: the object and the element indices
// passed since.
type locLevel struct {
	Base *Term
	Idx  []*Term
}

// raceAcc is one access of shared memory.
type raceAcc struct {
	Key    string
	Path   string // the fields it lies in, as far as they are part of one object
	Write  bool
	Atomic bool
	Lev    []locLevel
	Guards map[string]bool // name → held exclusively
	P      *Proc
	T      *Trace
	E      *Event
	Sig    string
}

type raceWorld struct {
	c       *Chk
	mutable mutFields // field keys written after construction
	acc     map[string][]*raceAcc
	seen    map[string]bool
	rel     map[string][]relEv // releases by channel
	elemMut map[string]bool
	mapMut  map[string]bool
}

type relEv struct {
	p *Proc
	t *Trace
	e *Event
}

// initLocal: the object was made on this path and was only made reachable
// inside the critical section that is still held.
func initLocal(t *Trace, e *Event, root *Term) bool {
	if root == nil || root.Op != "new" && root.Op != "mkmap" && root.Op != "mkslice" {
		return false
	}
	for _, q := range t.Events[:min(e.Seq, len(t.Events))] {
		if q == e {
			break
		}
		var vals []*Term
		switch q.Kind {
		case "mapset":
			vals = []*Term{q.Val, q.Key}
		case "store":
			vals = []*Term{q.Val}
		case "send", "select":
			vals = []*Term{q.Val}
		case "go", "callback", "call":
			vals = append([]*Term{q.FnT}, q.Args...)
		}
		for _, v := range vals {
			if v == nil || !mentions(v, root) {
				continue
			}
			switch q.Kind {
			case "mapset", "store":
				if q.Fresh {
					continue
				}
				if !sameSection(q, e) || wsec(q) < 0 {
					return false
				}
			case "call":
				if strings.HasPrefix(q.Name, "time.AfterFunc") {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// mentions: the term refers to the object, not merely to a value read from it.
func mentions(t, root *Term) bool {
	if t == root {
		return true
	}
	switch t.Op {
	case "load", "lookup", "has", "maplen", "len", "eq", "lt", "call", "recv":
		return false
	}
	for _, a := range t.Args {
		if a != nil && mentions(a, root) {
			return true
		}
	}
	return false
}

// levels walks from a location to the objects it is part of.
func levels(t *Trace, loc *Term) []locLevel {
	var out []locLevel
	var idx []*Term
	for n := 0; n < 8 && loc != nil; n++ {
		switch loc.Op {
		case "faddr":
			loc = loc.Args[0]
			out = append(out, locLevel{loc, idx})
			continue
		case "iaddr":
			idx = append(append([]*Term(nil), idx...), loc.Args[1])
			loc = loc.Args[0]
			if l := valLoc(t, loc); l != nil {
				loc = l
			} else {
				out = append(out, locLevel{loc, idx})
			}
			continue
		}
		if len(out) == 0 {
			out = append(out, locLevel{loc, idx})
		}
		return out
	}
	return out
}

// valLoc: the location a map or slice value was read from.
func valLoc(t *Trace, v *Term) *Term {
	for n := 0; v != nil && n < 12; n++ {
		switch v.Op {
		case "load":
			return v.Args[0]
		case "slice", "append", "appends", "removeat":
			v = v.Args[0]
		case "hv", "phi":
			var lv *LoopVar
			for _, e := range t.Events {
				if e.Kind == "loopenter" {
					if x := e.Loop.Var(v); x != nil {
						lv = x
					}
				}
			}
			if lv == nil {
				return nil
			}
			if lv.Loc != nil {
				return lv.Loc
			}
			v = lv.Init
		default:
			return nil
		}
	}
	return nil
}

func (r *raceWorld) locKey(t *Trace, loc *Term) string {
	switch loc.Op {
	case "faddr":
		return loc.S
	case "iaddr":
		if l := valLoc(t, loc.Args[0]); l != nil {
			return "elements of " + r.locKey(t, l)
		}
		if k := place(loc); k != "" {
			return "elements of " + k
		}
		return "elements of " + r.locKey(t, loc.Args[0])
	case "global":
		return "global " + loc.S
	case "new":
		return fmt.Sprintf("variable #%d", loc.ID)
	}
	return "memory " + loc.String()
}

// guards names the locks held at an event in relation to the object accessed.
func (r *raceWorld) guards(t *Trace, e *Event, key string, lev []locLevel, extra []Held) map[string]bool {
	out := map[string]bool{}
	add := func(n string, w bool) {
		out[n] = out[n] || w
	}
	typ := func(k string) string {
		k = k[strings.LastIndex(k, " ")+1:]
		if i := strings.LastIndex(k, "."); i > 0 {
			return k[:i]
		}
		return k
	}
	name := func(loc *Term, w bool, tag string) {
		path := tag
		var idx []*Term
		first := ""
		l := loc
		if l.Op == "load" {
			l = l.Args[0]
			if l.Op != "faddr" {
				return
			}
		}
		var bases []locLevel
		for {
			if l.Op == "faddr" {
				if first == "" {
					first = l.S
				}
				// the field holding the lock (or the list of locks) must not change
				path += "/" + l.S
				if r.mutable.has(l) {
					return
				}
				l = l.Args[0]
				bases = append(bases, locLevel{l, idx})
				continue
			}
			if l.Op == "iaddr" {
				idx = append(append([]*Term(nil), idx...), l.Args[1])
				path += "[]"
				l = l.Args[0]
				if l.Op == "load" {
					l = l.Args[0]
				}
				continue
			}
			break
		}
		if first == "" {
			// a lock in a variable of its own
			if loc.Op == "new" || loc.Op == "global" {
				add(fmt.Sprintf("var%s#%d", tag, loc.ID), w)
			}
			return
		}
		lockTyp := typ(first)
		for _, b := range bases {
			for _, a := range lev {
				if a.Base != nil && (a.Base == b.Base || t.eq(a.Base, b.Base)) {
					if len(b.Idx) == 0 {
						add("self"+path, w)
						return
					}
					if len(a.Idx) >= len(b.Idx) {
						ok := true
						for i := range b.Idx {
							x, y := a.Idx[len(a.Idx)-1-i], b.Idx[len(b.Idx)-1-i]
							ok = ok && (x == y || t.at(e).Eval(tEq(x, y)) == 1)
						}
						if ok {
							add("self"+path, w)
						}
					}
					return
				}
			}
		}
		if len(idx) > 0 {
			return
		}
		unknown := len(lev) == 0
		for _, a := range lev {
			unknown = unknown || a.Base == nil
		}
		if unknown && lockTyp == typ(key) {
			add("self"+path, w)
			return
		}
		if lockTyp != typ(key) {
			b := bases[len(bases)-1].Base
			if b.Op == "new" || b.Op == "param" || b.Op == "load" || b.Op == "fld" {
				add("any"+path, w)
			}
		}
	}
	for _, h := range append(append([]Held(nil), e.Locks...), extra...) {
		if h.Loc.Op == "keyed" {
			continue
		}
		name(h.Loc, h.Write, "")
	}
	// a once: its function runs before every later part of any caller
	for _, q := range t.Events {
		if q.Seq >= e.Seq || q.Kind != "once" {
			continue
		}
		name(q.Loc, strings.HasPrefix(e.Ctx, q.Name), "once:")
	}
	return out
}

// builderPart: the location lies in a builder, which is used by one goroutine.
func builderPart(loc *Term) bool {
	b := loc
	for b.Op == "faddr" || b.Op == "iaddr" {
		b = b.Args[0]
	}
	if b == loc || b.Op != "param" || b.T == nil {
		return false
	}
	n, ok := deref(b.T).(*types.Named)
	return ok && strings.HasSuffix(n.Obj().Name(), "Builder")
}

func (r *raceWorld) record(p *Proc, t *Trace, e *Event, loc *Term, key string, write, atomic bool) {
	if strings.Contains(key, ".") && !strings.Contains(key, "#") && !strings.HasPrefix(key, "global ") && !strings.HasPrefix(key, "memory ") {
		if !concurrentKey(key[strings.LastIndex(key, " ")+1:]) {
			return
		}
	}
	var lev []locLevel
	if loc != nil && builderPart(loc) {
		return
	}
	if loc != nil {
		lev = levels(t, loc)
		if root := lev[len(lev)-1].Base; root != nil && initLocal(t, e, RootOf(root)) && ownAlloc(p, RootOf(root)) {
			return
		}
	}
	var extra []Held
	if p.Kind == "callback" && p.Spawn != nil {
		extra = p.Spawn.Locks
	}
	g := r.guards(t, e, key, lev, extra)
	if r.mutable != nil {
		var gs []string
		for _, n := range sortedKeys(g) {
			gs = append(gs, fmt.Sprintf("%s=%v", n, g[n]))
		}
		base := ""
		if len(lev) > 0 && lev[len(lev)-1].Base != nil {
			base = fmt.Sprint(lev[len(lev)-1].Base.ID)
		}
		a := &raceAcc{Key: key, Path: accPath(loc), Write: write, Atomic: atomic, Lev: lev, Guards: g, P: p, T: t, E: e,
			Sig: fmt.Sprintf("%p|%v|%v|%s|%s", p, write, atomic, base, strings.Join(gs, ","))}
		// the position on the path matters for the orderings through channels
		a.Sig += "|" + acquired(t, e)
		if r.seen[key+a.Sig] && !r.releasesAfter(a) {
			return
		}
		r.seen[key+a.Sig] = true
		r.acc[key] = append(r.acc[key], a)
	}
}

// ownAlloc: the object was made by this very procedure.
func ownAlloc(p *Proc, root *Term) bool {
	pre := "@" + p.Ctx
	return strings.HasPrefix(root.S, pre+":") || strings.HasPrefix(root.S, pre+".")
}

// acquired: the channels received from, and groups waited for, before an
// event.
func acquired(t *Trace, e *Event) string {
	var b strings.Builder
	for _, q := range t.Events {
		if q.Seq >= e.Seq {
			break
		}
		switch {
		case q.Kind == "recv" || q.Kind == "select" && q.Idx >= 0 && !q.Cases[q.Idx].Send:
			fmt.Fprintf(&b, ",%d", q.Ch.ID)
		case q.Kind == "wait" && len(q.Args) > 0:
			fmt.Fprintf(&b, ",%d", q.Args[0].ID)
		}
	}
	return b.String()
}

// same: the procedures are the same goroutine or call, perhaps reached with
// different knowledge about the paths before.
func same(p, q *Proc) bool {
	for p != q {
		if p == nil || q == nil || p.Fn != q.Fn || p.Spawn == nil || q.Spawn == nil || p.Spawn.Pos != q.Spawn.Pos || p.Spawn.Ctx != q.Spawn.Ctx {
			return false
		}
		p, q = p.Parent, q.Parent
	}
	return true
}

func (r *raceWorld) releasesAfter(a *raceAcc) bool {
	for _, q := range a.T.Events {
		if q.Seq > a.E.Seq && (q.Kind == "close" || q.Kind == "send" || q.Kind == "select" && q.Idx >= 0 && q.Cases[q.Idx].Send) {
			return true
		}
	}
	return false
}

// safe library types: their methods may be called by several goroutines.
var syncSafe = []string{"sync.", "sync/atomic.", "time.", "context.", "reflect.", "log.", "log/slog.", "os.", "net.", "github.com/rs/zerolog.", "errors.", "fmt.", "regexp.", "crypto/cipher.", "io."}

func syncSafeName(n string) bool {
	n = strings.TrimLeft(n, "(*")
	for _, p := range syncSafe {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

// each lists the shared-memory accesses of a path.
func (r *raceWorld) each(p *Proc, t *Trace) {
	fields := func(e *Event, loc *Term, typ types.Type, w bool) bool {
		if typ == nil || !expandable(typ) {
			return false
		}
		s := structOf(typ)
		for i := 0; i < s.NumFields(); i++ {
			r.record(p, t, e, mk("faddr", fieldKey(typ, i), s.Field(i).Type(), loc), fieldKey(typ, i), w, false)
		}
		return true
	}
	contents := func(e *Event, v *Term, what string, w bool) {
		loc := valLoc(t, v)
		key := ""
		if loc != nil {
			key = r.locKey(t, loc)
		} else if key = place2(t, v); key == "" {
			key = "memory " + v.String()
			if v.Op == "mkmap" || v.Op == "mkslice" || v.Op == "new" {
				loc = v
			}
		}
		if w {
			if what == "content of " {
				r.mapMut[key] = true
			} else {
				r.elemMut[key] = true
			}
		}
		r.record(p, t, e, loc, what+key, w, false)
	}
	for _, e := range t.Events {
		switch e.Kind {
		case "load", "store":
			if e.Fresh {
				continue
			}
			if e.Loc.Op == "new" && p.ownOnly(e.Loc, t) {
				continue
			}
			w := e.Kind == "store"
			var typ types.Type
			if e.Val != nil {
				typ = e.Val.T
			}
			if e.Loc.Op != "new" && fields(e, e.Loc, typ, w) {
				continue
			}
			key := r.locKey(t, e.Loc)
			if w && e.Loc.Op == "iaddr" {
				r.elemMut[strings.TrimPrefix(key, "elements of ")] = true
			}
			r.record(p, t, e, e.Loc, key, w, false)
			if w && (e.Val.Op == "removeat" || overwrites(e.Val)) {
				contents(e, e.Val, "elements of ", true)
			}
		case "mapget", "maplen", "maprange", "mapnext":
			if !e.Fresh && e.Map != nil {
				contents(e, e.Map, "content of ", false)
			}
		case "mapset", "mapdel", "mapclear":
			if !e.Fresh && e.Map != nil {
				contents(e, e.Map, "content of ", true)
			}
		case "copy":
			if !e.Fresh {
				contents(e, e.Loc, "elements of ", true)
			}
			contents(e, e.Val, "elements of ", false)
		case "append":
			for _, a := range e.Args {
				if a.Op == "load" || a.Op == "slice" && a.Args[0].Op == "load" {
					contents(e, a, "elements of ", false)
				}
			}
			if overwrites(mk("append", "", e.Val.T, e.Val)) {
				contents(e, e.Val, "elements of ", true)
			}
		case "call":
			r.libCall(p, t, e, contents)
		}
	}
}

// ownOnly: a variable of this procedure that no goroutine shares.
func (p *Proc) ownOnly(root *Term, t *Trace) bool { return !t.Pub[root] }

// overwrites: appending to a shortened list reuses its storage.
func overwrites(v *Term) bool {
	if v.Op != "append" && v.Op != "appends" {
		return false
	}
	b := v.Args[0]
	for b.Op == "append" || b.Op == "appends" {
		b = b.Args[0]
	}
	if b.Op != "slice" || b.Args[2].Op == "none" {
		return false
	}
	if k := b.Args[0]; k.Op == "new" || k.Op == "mkslice" {
		return false
	}
	return len(b.Args) < 4 || b.Args[3].Op == "none"
}

// libCall: what a library function does to the memory handed to it.
func (r *raceWorld) libCall(p *Proc, t *Trace, e *Event, contents func(*Event, *Term, string, bool)) {
	n := e.Name
	if strings.HasPrefix(n, "sync/atomic.") && len(e.Args) > 0 {
		a := e.Args[0]
		if a.Op == "faddr" || a.Op == "iaddr" || a.Op == "global" || a.Op == "new" && t.Pub[a] {
			r.record(p, t, e, a, r.locKey(t, a), !strings.HasPrefix(n, "sync/atomic.Load"), true)
		}
		return
	}
	if strings.HasPrefix(n, "(*") && len(e.Args) > 0 && !syncSafeName(n) {
		a := e.Args[0]
		l := a
		if a.Op == "load" {
			l = a.Args[0]
		}
		if l.Op == "faddr" || l.Op == "global" {
			r.record(p, t, e, l, "object at "+r.locKey(t, l), true, false)
		}
		return
	}
	for i, a := range e.Args {
		if a == nil || a.T == nil || valLoc(t, a) == nil {
			continue
		}
		switch a.T.Underlying().(type) {
		case *types.Slice:
			w := i == 0 && (strings.HasPrefix(n, "sort.") || hasAny(n, "slices.Sort", "slices.Reverse", "slices.Delete", "slices.Insert", "slices.Replace", "slices.Compact"))
			contents(e, a, "elements of ", w)
		case *types.Map:
			contents(e, a, "content of ", i == 0 && hasAny(n, "maps.Copy", "maps.DeleteFunc", "maps.Insert"))
		}
	}
}

// concurrent: two accesses can be made at the same time by different
// goroutines on the same object.
func (r *raceWorld) concurrent(a, b *raceAcc) bool {
	sync := func(p *Proc) *Proc {
		for p.Kind == "callback" && p.Parent != nil {
			p = p.Parent
		}
		return p
	}
	p, q := sync(a.P), sync(b.P)
	ra, rb := root(a), root(b)
	na, nb := ra != nil && ra.Op == "new", rb != nil && rb.Op == "new"
	if na && nb && ra != rb {
		return false
	}
	if na && nb && same(p, q) {
		// one goroutine per object, unless it was started in a loop after the
		// object was made
		return !r.single(p, ra)
	}
	if na && nb && p.root() != q.root() {
		return false
	}
	if same(p, q) && strings.HasPrefix(a.Key, "variable #") {
		return !r.single(p, ra)
	}
	return true
}

func root(a *raceAcc) *Term {
	if len(a.Lev) == 0 {
		return nil
	}
	b := a.Lev[len(a.Lev)-1].Base
	if b == nil {
		return nil
	}
	return RootOf(b)
}

// single: at most one run of the procedure works on the object.
func (r *raceWorld) single(p *Proc, obj *Term) bool {
	for q := p; q != nil; q = q.Parent {
		if ownAlloc(q, obj) {
			return true
		}
		if q.Spawn == nil {
			return q.Kind == "api"
		}
		for _, l := range q.Spawn.Loops {
			if !r.madeIn(q.Parent, l, obj) {
				return false
			}
		}
	}
	return true
}

// madeIn: the object is made anew in every iteration of the loop.
func (r *raceWorld) madeIn(p *Proc, l *LoopInst, obj *Term) bool {
	i, ok := obj.Obj.(ssa.Instruction)
	if !ok || p == nil {
		return false
	}
	if i.Parent() == l.Fn {
		return l.Blocks[i.Block()]
	}
	// made by a function that the loop, or code before it, calls
	for _, t := range p.Traces {
		for _, e := range t.Events {
			if e.Kind == "loopenter" && (e.Loop == l || e.Loop.Header == l.Header) {
				break
			}
			if e.Loc != nil && RootOf(e.Loc) == obj || e.Val != nil && mentions(e.Val, obj) {
				return false
			}
		}
	}
	return true
}

// chanName identifies a channel relative to the object accessed.
func (r *raceWorld) chanName(t *Trace, ch *Term, lev []locLevel) []string {
	out := []string{fmt.Sprintf("#%d", ch.ID)}
	if ch.Op == "load" && ch.Args[0].Op == "faddr" && !r.mutable.has(ch.Args[0]) {
		for _, l := range lev {
			if l.Base != nil && t.eq(l.Base, ch.Args[0].Args[0]) {
				out = append(out, "self/"+ch.Args[0].S)
			}
		}
	}
	if ch.Op == "mkchan" && allocField[ch] != "" {
		out = append(out, "self/"+allocField[ch])
	}
	return out
}

func chanPlace(ch *Term) string {
	if p := place(ch); p != "" {
		return p
	}
	return fmt.Sprintf("#%d", ch.ID)
}

// before: access a is ordered before access b through a channel, a wait
// group or a once.
func (r *raceWorld) before(a, b *raceAcc) bool {
	// acquisitions before b
	for _, q := range b.T.Events {
		if q.Seq >= b.E.Seq {
			break
		}
		if q.Kind == "wait" && strings.Contains(q.Name, "WaitGroup") && len(q.Args) > 0 {
			if r.doneAfter(a, q.Args[0]) {
				return true
			}
		}
		var ch *Term
		switch {
		case q.Kind == "recv":
			ch = q.Ch
		case q.Kind == "select" && q.Idx >= 0 && !q.Cases[q.Idx].Send:
			ch = q.Ch
		}
		if ch == nil {
			continue
		}
		acq := r.chanName(b.T, ch, b.Lev)
		for _, rl := range a.T.Events {
			if rl.Seq <= a.E.Seq {
				continue
			}
			isClose := rl.Kind == "close"
			isSend := rl.Kind == "send" || rl.Kind == "select" && rl.Idx >= 0 && rl.Cases[rl.Idx].Send
			if !isClose && !isSend {
				continue
			}
			hit := false
			for _, n := range r.chanName(a.T, rl.Ch, a.Lev) {
				for _, m := range acq {
					hit = hit || n == m
				}
			}
			if !hit {
				continue
			}
			if r.ordered(a, rl.Ch, isClose) {
				return true
			}
		}
	}
	return false
}

func (r *raceWorld) doneAfter(a *raceAcc, wg *Term) bool {
	for _, q := range a.T.Events {
		if q.Kind == "call" && q.Name == "(*sync.WaitGroup).Done" && len(q.Args) > 0 && q.Args[0] == wg && q.Seq > a.E.Seq {
			return true
		}
	}
	// wg.Go runs the procedure to its end before Wait returns
	return a.P.Spawn != nil && a.P.Spawn.Name == "wg.Go"
}

// ordered: whoever is released by the channel is released after the access.
func (r *raceWorld) ordered(a *raceAcc, ch *Term, closes bool) bool {
	name := chanPlace(ch)
	sends, others := false, false
	for _, e := range r.rel[name] {
		if e.e.Kind != "close" {
			sends = true
		}
		if !same(e.p, a.P) {
			others = true
		}
	}
	if closes && !sends {
		return true
	}
	if others {
		return false
	}
	// all accesses precede all releases in the releasing procedure
	for _, t := range a.P.Traces {
		first := -1
		for _, e := range t.Events {
			isRel := e.Kind == "close" || e.Kind == "send" || e.Kind == "select" && e.Idx >= 0 && e.Cases[e.Idx].Send
			if isRel && chanPlace(e.Ch) == name {
				first = e.Seq
				break
			}
		}
		if first < 0 {
			continue
		}
		for _, b := range r.acc[a.Key] {
			if b.T == t && b.E.Seq > first {
				return false
			}
		}
	}
	return true
}

func ruleQ01(c *Chk) {
	r := &raceWorld{c: c, acc: map[string][]*raceAcc{}, seen: map[string]bool{}, rel: map[string][]relEv{}, elemMut: map[string]bool{}, mapMut: map[string]bool{}}
	var procs []*Proc
	for _, p := range c.x.order {
		if concurrentProc(p) {
			c.use(p)
			procs = append(procs, p)
		}
	}
	mut := mutFields{}
	for _, p := range procs {
		for _, t := range p.Traces {
			for _, e := range t.Events {
				if e.Kind == "store" && !e.Fresh && e.Loc.Op == "faddr" {
					mut.add(e.Loc)
				}
				if e.Kind == "close" || e.Kind == "send" || e.Kind == "select" && e.Idx >= 0 && e.Cases[e.Idx].Send {
					n := chanPlace(e.Ch)
					r.rel[n] = append(r.rel[n], relEv{p, t, e})
				}
			}
		}
	}
	r.mutable = mut
	for _, p := range procs {
		for _, t := range p.Traces {
			r.each(p, t)
		}
	}
	keys := sortedKeys(r.acc)
	for _, k := range keys {
		as := r.acc[k]
		w := 0
		for _, a := range as {
			if a.Write {
				w++
			}
		}
		if w == 0 {
			c.check("constant", true, as[0].T, as[0].E, "")
			continue
		}
		sort.SliceStable(as, func(i, j int) bool { return as[i].Write && !as[j].Write })
		for i, a := range as {
			if !a.Write {
				break
			}
			for j := i; j < len(as); j++ {
				b := as[j]
				if a.Atomic && b.Atomic || apart(a.Path, b.Path) || !r.concurrent(a, b) {
					continue
				}
				c.check("race", r.protected(a, b) || r.before(a, b) || r.before(b, a), a.T, a.E,
					"%s is written by %s %s while %s may %s it at %s %s: no lock of the owner is held by both with one of them exclusive, and nothing orders the two",
					k, a.P.Name, held(a), b.P.Name, map[bool]string{true: "write", false: "read"}[b.Write], c.w.pos(b.E.Pos), held(b))
			}
		}
	}
	r.leaks(procs)
	r.copies()
	c.atLeast("race", 200)
	c.atLeast("constant", 15)
	c.atLeast("leak", 3)
}

func accPath(loc *Term) string {
	for loc != nil && len(loc.Args) > 0 {
		switch loc.Op {
		case "faddr":
			return fieldPath(loc)
		case "load", "iaddr", "slice":
			loc = loc.Args[0]
		default:
			return ""
		}
	}
	return ""
}

// apart: the two locations are parts of different kinds of objects.
func apart(p, q string) bool {
	return p != "" && q != "" && p != q && !strings.HasSuffix(p, "/"+q) && !strings.HasSuffix(q, "/"+p)
}

func held(a *raceAcc) string {
	if len(a.Guards) == 0 {
		return "without a lock"
	}
	var s []string
	for _, g := range sortedKeys(a.Guards) {
		m := "shared"
		if a.Guards[g] {
			m = "exclusive"
		}
		s = append(s, g[strings.LastIndex(g, "/")+1:]+" "+m)
	}
	return "holding " + strings.Join(s, ", ")
}

func (r *raceWorld) protected(a, b *raceAcc) bool {
	for g, w := range a.Guards {
		if v, ok := b.Guards[g]; ok && (w || v) {
			return true
		}
	}
	return false
}

// leaks: internal maps, and lists changed in place, stay inside.
func (r *raceWorld) leaks(procs []*Proc) {
	for _, p := range procs {
		for _, t := range p.Traces {
			out := func(v *Term, e *Event) {
				if v == nil || v.T == nil {
					return
				}
				switch v.T.Underlying().(type) {
				case *types.Map, *types.Slice:
				default:
					return
				}
				loc := valLoc(t, v)
				key := ""
				if loc != nil {
					key = r.locKey(t, loc)
				}
				_, isMap := v.T.Underlying().(*types.Map)
				bad := key != "" && concurrentKey(key[strings.LastIndex(key, " ")+1:]) && (isMap && r.mapMut[key] || !isMap && r.elemMut[key])
				r.c.check("leak", !bad, t, e, "%s hands out %s itself, which the library goes on changing", p.Name, key)
			}
			if t.End == "return" && p.Kind == "api" {
				for _, v := range t.Ret {
					out(v, nil)
				}
			}
			for _, e := range t.of("callback", "send") {
				for _, a := range e.Args {
					out(a, e)
				}
				if e.Kind == "send" {
					out(e.Val, e)
				}
			}
		}
	}
}

// copies: methods work on the object itself, not on a copy taken without its
// lock.
func (r *raceWorld) copies() {
	for _, p := range r.c.x.order {
		if p.Kind != "api" || !concurrentProc(p) || p.Fn == nil || p.Fn.Signature.Recv() == nil {
			continue
		}
		rt := p.Fn.Signature.Recv().Type()
		_, ptr := rt.Underlying().(*types.Pointer)
		bad := false
		if s := structOf(rt); s != nil && !ptr {
			for i := 0; i < s.NumFields(); i++ {
				k := fieldKey(rt, i)
				bad = bad || concurrentKey(k) && (len(r.mutable[k]) > 0 || strings.HasPrefix(typeKey(s.Field(i).Type()), "sync."))
			}
		}
		var t *Trace
		if len(p.Traces) > 0 {
			t = p.Traces[0]
		}
		r.c.check("copy", !bad, t, nil, "%s works on a copy of its object: the copy is read without a lock and carries a copy of the lock", p.Name)
	}
}

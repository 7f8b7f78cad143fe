package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated obligation.
type Finding struct {
	Rule  string
	Where string // construct: function and rule detail, stable under line shifts
	Msg   string
	Pos   token.Pos
	Trace *Trace
	Ev    *Event
	text  string
}

// Chk collects the obligations of one property.
type Chk struct {
	w        *World
	x        *Exec
	ID       string
	Tier     string
	Obl      map[string]int
	Fail     map[string]int
	Findings []*Finding
	Procs    map[*Proc]bool
	Assume   map[string]bool
	Samples  map[string]string
	seen     map[string]bool
	pr       *panicRule
}

// bounds: the index and count arithmetic of the program.
func (c *Chk) bounds() *panicRule {
	if c.pr == nil {
		c.pr = c.newPanicRule()
	}
	return c.pr
}

func newChk(w *World, x *Exec, id, tier string) *Chk {
	return &Chk{w: w, x: x, ID: id, Tier: tier, Obl: map[string]int{}, Fail: map[string]int{}, Procs: map[*Proc]bool{},
		Assume: map[string]bool{}, Samples: map[string]string{}, seen: map[string]bool{}}
}

// check records one obligation of a rule and whether it is discharged.
func (c *Chk) check(rule string, ok bool, t *Trace, e *Event, format string, args ...any) bool {
	c.Obl[rule]++
	where, pos := "", token.NoPos
	if e != nil {
		pos = e.Pos
		if e.Fn != nil {
			where = fnName(e.Fn)
		}
	}
	if t != nil && t.Proc != nil {
		if where == "" {
			where = t.Proc.Name
		} else if !strings.HasSuffix(where, lastSeg(t.Proc.Name)) {
			where = t.Proc.Name + " in " + where
		}
		if !pos.IsValid() {
			pos = t.Pos
			for i := len(t.Events) - 1; i >= 0 && !pos.IsValid(); i-- {
				pos = t.Events[i].Pos
			}
		}
	}
	if ok {
		if c.Samples[rule] == "" && where != "" {
			c.Samples[rule] = fmt.Sprintf("%s at %s", where, c.w.pos(pos))
		}
		return true
	}
	c.Fail[rule]++
	key := rule + "|" + where
	if c.seen[key] {
		return false
	}
	c.seen[key] = true
	c.Findings = append(c.Findings, &Finding{Rule: rule, Where: where, Msg: fmt.Sprintf(format, args...), Pos: pos, Trace: t, Ev: e})
	return false
}

func (c *Chk) bad(rule string, where string, format string, args ...any) {
	c.Obl[rule]++
	c.Fail[rule]++
	if c.seen[rule+"|"+where] {
		return
	}
	c.seen[rule+"|"+where] = true
	c.Findings = append(c.Findings, &Finding{Rule: rule, Where: where, Msg: fmt.Sprintf(format, args...)})
}

// atLeast guards against vacuous success: a rule must have met the
// constructs it speaks about.
func (c *Chk) atLeast(rule string, n int) {
	if os.Getenv("AXV_MIN") != "" {
		fmt.Println("MIN", rule, n, c.Obl[rule])
	}
	if c.Obl[rule] < n {
		c.bad("anchor", rule, "rule %q found %d constructs to decide, needs at least %d: the construct the property is anchored on is gone", rule, c.Obl[rule], n)
	}
}

// P resolves an analysed entry point; its absence is reported.
func (c *Chk) P(name string) *Proc {
	p := c.x.P(name)
	if p == nil {
		c.bad("anchor", name, "entry point %s not found", name)
		return nil
	}
	c.use(p)
	return p
}

func (c *Chk) use(p *Proc) {
	c.Procs[p] = true
	if p.Cut > 0 {
		c.bad("bound", p.Name, "path exploration of %s was cut off", p.Name)
	}
}

// Ts resolves the paths of an entry point.
func (c *Chk) Ts(name string) []*Trace {
	p := c.P(name)
	if p == nil {
		return nil
	}
	return p.Traces
}

// family: the entry points of a type and of its builder, with everything
// they spawn.
func (c *Chk) family(pkg string, typs ...string) []*Proc {
	var out []*Proc
	for _, p := range c.x.order {
		root := p
		for root.Parent != nil {
			root = root.Parent
		}
		n := root.Name
		hit := false
		for _, t := range typs {
			full := pkg + "." + t
			if n == full || strings.HasPrefix(n, full+".") {
				hit = true
			}
		}
		if hit {
			c.use(p)
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		c.bad("anchor", pkg+"."+strings.Join(typs, "/"), "no entry points of %s found", strings.Join(typs, "/"))
	}
	return out
}

func (p *Proc) root() *Proc {
	for p.Parent != nil {
		p = p.Parent
	}
	return p
}

// children: procedures started while p (or what it starts) runs.
func (c *Chk) children(p *Proc) []*Proc {
	var out []*Proc
	for _, q := range c.x.order {
		for r := q.Parent; r != nil; r = r.Parent {
			if r == p {
				out = append(out, q)
				c.use(q)
				break
			}
		}
	}
	return out
}

// ---- naming of places ----

// allocField: the field an allocated map, slice, channel or object is first
// kept in, by its allocation.
var allocField = map[*Term]string{}

func learnAllocs(x *Exec) {
	allocField = map[*Term]string{}
	for _, p := range x.order {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op != "faddr" {
					continue
				}
				switch e.Val.Op {
				case "mkmap", "mkslice", "mkchan":
					old, ok := allocField[e.Val]
					if !ok || strings.Contains(old, "Builder.") {
						allocField[e.Val] = e.Loc.S
					}
				}
			}
		}
	}
}

// place names the storage a term was read from: the field key for fields,
// "" when unknown.
func place(t *Term) string {
	for t != nil {
		switch t.Op {
		case "load", "iaddr", "slice", "append", "appends", "removeat":
			t = t.Args[0]
		case "faddr", "fld":
			return t.S
		case "hv":
			if len(t.Args) > 0 {
				t = t.Args[0]
				continue
			}
			return ""
		case "mkmap", "mkslice", "mkchan":
			return allocField[t]
		default:
			return ""
		}
	}
	return ""
}

// place2 also resolves loop variables of the trace that stand for a field.
func place2(tr *Trace, t *Term) string {
	if p := place(t); p != "" {
		return p
	}
	if t.Op == "hv" || t.Op == "phi" {
		for _, e := range tr.Events {
			if e.Kind == "loopenter" {
				if v := e.Loop.Var(t); v != nil && v.Loc != nil {
					return place(v.Loc)
				}
			}
		}
	}
	return ""
}

// owner returns the object a field term belongs to.
func owner(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case "load", "iaddr", "slice", "append":
			t = t.Args[0]
		case "hv":
			if len(t.Args) != 1 {
				return nil
			}
			t = t.Args[0]
		case "faddr", "fld":
			return t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// ---- events ----

func (t *Trace) of(kinds ...string) []*Event {
	var out []*Event
	for _, e := range t.Events {
		for _, k := range kinds {
			if e.Kind == k {
				out = append(out, e)
			}
		}
	}
	return out
}

// at: the facts known when the event happened.
func (t *Trace) at(e *Event) Facts {
	if e == nil || e.NF > len(t.Facts) {
		return t.Facts
	}
	return t.Facts[:e.NF]
}

func (t *Trace) eq(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	return a == b || t.Facts.Eval(tEq(a, b)) == 1
}

func (t *Trace) ne(a, b *Term) bool {
	return a != nil && b != nil && t.Facts.Eval(tEq(a, b)) == -1
}

// isTrue / isFalse: outcome of a boolean result on this path.
func (t *Trace) truth(b *Term) int {
	if b == nil {
		return 0
	}
	return t.Facts.Eval(b)
}

// section identifies the critical section of an event for locks satisfying
// pred; -1 when none is held.
func section(e *Event, pred func(Held) bool) int {
	for _, h := range e.Locks {
		if pred == nil || pred(h) {
			return h.Seq
		}
	}
	return -1
}

func wsec(e *Event) int {
	return section(e, func(h Held) bool { return h.Write && h.Loc.Op != "keyed" })
}
func anysec(e *Event) int {
	return section(e, func(h Held) bool { return h.Loc.Op != "keyed" })
}

// sameSection: both events happen inside one uninterrupted holding of a lock.
func sameSection(a, b *Event) bool {
	for _, h := range a.Locks {
		for _, g := range b.Locks {
			if h.Seq == g.Seq && h.Loc == g.Loc {
				return true
			}
		}
	}
	return false
}

func returns(p *Proc) []*Trace { return ends(p, "return") }
func ends(p *Proc, kinds ...string) []*Trace {
	var out []*Trace
	if p == nil {
		return nil
	}
	for _, t := range p.Traces {
		for _, k := range kinds {
			if t.End == k {
				out = append(out, t)
			}
		}
	}
	return out
}

// param: the i-th parameter (receiver is 0 for methods).
func param(p *Proc, i int) *Term {
	if p == nil || i >= len(p.Params) {
		return nil
	}
	return p.Params[i]
}

// ---- maps ----

func isMapEv(e *Event, field string, kinds ...string) bool {
	if e.Map == nil {
		return false
	}
	ok := len(kinds) == 0
	for _, k := range kinds {
		if e.Kind == k {
			ok = true
		}
	}
	return ok && place(e.Map) == field
}

// mapEvs lists the events of one map field.
func (t *Trace) mapEvs(field string, kinds ...string) []*Event {
	var out []*Event
	for _, e := range t.Events {
		if e.Map != nil && isMapEv(e, field, kinds...) {
			out = append(out, e)
		}
	}
	return out
}

// presenceMap: the map field whose membership test decides the boolean
// result of an entry point.
func (c *Chk) presenceMap(name string) string {
	p := c.P(name)
	if p == nil {
		return ""
	}
	key := param(p, 1)
	for _, t := range returns(p) {
		for _, e := range t.of("mapget") {
			if t.eq(e.Key, key) && place(e.Map) != "" {
				return place(e.Map)
			}
		}
	}
	c.bad("anchor", name, "no map of the receiver decides the result of %s", name)
	return ""
}

// reset: the event makes the field's map empty.
func isReset(e *Event, field string) bool {
	switch e.Kind {
	case "store":
		return mapSlot(e, field) && e.Val.Op == "mkmap"
	case "mapclear":
		return place(e.Map) == field
	}
	return false
}

// touches: the event may change the field's map.
func mapChange(e *Event, field string) bool {
	switch e.Kind {
	case "mapset", "mapdel", "mapclear":
		return place(e.Map) == field
	case "store":
		return mapSlot(e, field)
	}
	return false
}

// mapSlot: the store replaces the map held in the field (or in an element of
// a slice of maps held there).
func mapSlot(e *Event, field string) bool {
	return e.Loc.Op == "faddr" && e.Loc.S == field || e.Loc.Op == "iaddr" && place(e.Loc) == field
}

// finalPresence follows one key through a path: 1 present, -1 absent, 0
// unknown after the last event that tells.
func (t *Trace) finalPresence(field string, key *Term) int {
	pres := 0
	for _, e := range t.Events {
		switch {
		case e.Kind == "mapget" && place(e.Map) == field && t.eq(e.Key, key):
			if v := t.truth(e.Ok); v != 0 {
				pres = v
			}
		case e.Kind == "mapset" && place(e.Map) == field:
			if t.eq(e.Key, key) {
				pres = 1
			}
		case e.Kind == "mapdel" && place(e.Map) == field:
			if t.eq(e.Key, key) {
				pres = -1
			} else if pres == 1 && !t.ne(e.Key, key) && e.Pres != 1 {
				pres = 2 // possibly removed again
			}
		case isReset(e, field):
			pres = -1
		}
	}
	return pres
}

// initialPresence: presence of the key when the deciding step started.
func (t *Trace) initialPresence(field string, key *Term) int {
	for _, e := range t.Events {
		switch {
		case e.Kind == "mapget" && place(e.Map) == field && t.eq(e.Key, key):
			if v := t.truth(e.Ok); v != 0 {
				return v
			}
		case (e.Kind == "mapset" || e.Kind == "mapdel") && place(e.Map) == field && t.eq(e.Key, key):
			return e.Pres
		}
	}
	return 0
}

// ---- loops over collections ----

// covers decides whether the loop instance visits every element of coll
// (slice or array term; length term n) exactly once: an induction variable
// runs over 0..n-1 in steps of one, either way, and the loop is left only
// when it is exhausted (or by an early exit the caller accepts).
// sharedVar: the loop variable lives in memory others can change.
func (l *LoopInst) sharedVar(v *LoopVar) bool {
	if v.Loc == nil {
		return false
	}
	if v.Loc.Op != "new" {
		return true
	}
	for _, it := range l.Iters {
		if it.Pub[v.Loc] {
			return true
		}
	}
	return false
}

func covers(inst *LoopInst, n *Term, idx *Term) bool {
	for _, v := range inst.Phis {
		if inst.sharedVar(v) || v.Term.T == nil && idx == nil {
			continue
		}
		d := linDiff(idx, v.Term)
		if !d.isConst() {
			continue
		}
		step, ok := inductionStep(inst, v)
		if !ok {
			continue
		}
		first := newLin()
		first.add(lin(v.Init), 1)
		first.C += d.C
		switch step {
		case 1:
			if len(first.Coef) == 0 && first.C == 0 && exhaustsUp(inst, idx, n) {
				return true
			}
		case -1:
			f2 := newLin()
			f2.add(first, 1)
			f2.add(lin(n), -1)
			if f2.isConst() && f2.C == -1 && exhaustsDown(inst, idx) {
				return true
			}
		}
	}
	return false
}

func inductionStep(inst *LoopInst, v *LoopVar) (int64, bool) {
	var step int64
	n := 0
	for _, it := range inst.Iters {
		nx := it.Next[v.Term]
		if nx == nil {
			return 0, false
		}
		d := linDiff(nx, v.Term)
		if !d.isConst() || n > 0 && d.C != step {
			return 0, false
		}
		step = d.C
		n++
	}
	return step, n > 0
}

// exhaustsUp: some exit of the loop is taken exactly when idx reached n.
func exhaustsUp(inst *LoopInst, idx, n *Term) bool {
	for _, ex := range inst.Exits {
		if ex.Facts.ProveLE(n, idx, 0) {
			return true
		}
	}
	return false
}

func exhaustsDown(inst *LoopInst, idx *Term) bool {
	for _, ex := range inst.Exits {
		if ex.Facts.ProveLT(idx, tInt(0)) {
			return true
		}
	}
	return false
}

// exhausted: this path left the loop only because every element was visited.
func (t *Trace) leftExhausted(inst *LoopInst, idx, n *Term) bool {
	if inst.Mapiter != nil {
		for _, e := range t.of("exhausted") {
			if e.Res == inst.Mapiter {
				return true
			}
		}
		return false
	}
	return t.Facts.ProveLE(n, idx, 0) || t.Facts.ProveLT(idx, tInt(0))
}

// loopsIn lists the loops a path went through (entered and left).
func (t *Trace) loopsIn() []*LoopInst {
	var out []*LoopInst
	for _, e := range t.of("loopenter") {
		out = append(out, e.Loop)
	}
	return out
}

// elemIndex: t is element idx of list (load of an element address).
func elemIndex(t *Term) (list, idx *Term, ok bool) {
	if t != nil && t.Op == "load" && t.Args[0].Op == "iaddr" {
		return t.Args[0].Args[0], t.Args[0].Args[1], true
	}
	return nil, nil, false
}

// fullLoop: does the loop visit all elements of the list? idx is the index
// term used in its body.
func fullSliceLoop(inst *LoopInst, list, idx *Term) bool {
	return covers(inst, tLen(list), idx)
}

// ---- lists ----

// listNF describes a slice value as edits of a base slice.
type listNF struct {
	Base    *Term
	Drop    int64   // elements dropped from the front
	Removed []*Term // single elements removed, by index in the slice at that time
	App     []*Term // elements appended
	Bulk    bool    // slices appended
	Cut     *Term   // shortened to this length
	Without *Term   // all elements equal to this value filtered out
	Empty   bool
}

func normList(t *Term) *listNF {
	if t == nil {
		return &listNF{Bulk: true} // unknown
	}
	switch t.Op {
	case "append":
		n := normList(t.Args[0])
		n.App = append(append([]*Term(nil), n.App...), t.Args[1:]...)
		n.Empty = false
		return n
	case "appends":
		a, b := t.Args[0], t.Args[1]
		na := normList(a)
		nb := normList(b)
		if na.Empty && len(na.App) == 0 {
			return nb
		}
		if nb.Empty && len(nb.App) == 0 {
			return na
		}
		na.Bulk = true
		return na
	case "removeat":
		n := normList(t.Args[0])
		if k, ok := t.Args[1].Int(); ok && k == 0 && len(n.App) == 0 {
			n.Drop++
			return n
		}
		if k, ok := t.Args[1].Int(); ok && k == 0 && n.Base != nil {
			n.Drop++
			return n
		}
		n.Removed = append(append([]*Term(nil), n.Removed...), t.Args[1])
		return n
	case "slice":
		lo, hi := t.Args[1], t.Args[2]
		if hi.Op == "none" || t.Args[0].Op != "new" && hi == tLen(t.Args[0]) {
			n := normList(t.Args[0])
			if lo.Op == "none" {
				return n
			}
			if k, ok := lo.Int(); ok {
				n.Drop += k
				return n
			}
			n2 := &listNF{Base: t}
			return n2
		}
		if k, ok := hi.Int(); ok && k == 0 {
			return &listNF{Empty: true}
		}
		n := normList(t.Args[0])
		if lo.Op == "none" || isZero(lo) {
			n.Cut = hi
			return n
		}
	case "without":
		n := normList(t.Args[0])
		if n.Without != nil || len(n.Removed) > 0 {
			return &listNF{Base: t}
		}
		n.Without = t.Args[1]
		return n
	case "nil":
		return &listNF{Empty: true}
	case "mkslice":
		if len(t.Args) > 0 && isZero(t.Args[0]) {
			return &listNF{Empty: true}
		}
	case "arr":
		return &listNF{Empty: len(t.Args) == 0, App: t.Args}
	}
	return &listNF{Base: t}
}

func isZero(t *Term) bool {
	k, ok := t.Int()
	return ok && k == 0
}

// ---- misc ----

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func fnOf(e *Event) string {
	if e == nil || e.Fn == nil {
		return ""
	}
	return fnName(e.Fn)
}

func typeIs(t types.Type, f func(types.Type) bool) bool { return t != nil && f(t) }

func isErrType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

var _ = ssa.Function{}

func hasAny(s string, subs ...string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

// liveMap: an access under a lock to a map that operations replace is made to
// the map found, or put in place, in that very critical section.
func (c *Chk) liveMap(pkg, typ string) {
	procs := c.family(pkg, typ)
	replaced := map[string]bool{}
	for _, p := range procs {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if !e.Fresh && e.Val != nil && e.Val.T != nil && e.Loc.Op != "new" {
					if _, ok := e.Val.T.Underlying().(*types.Map); ok {
						replaced[place(e.Loc)] = true
					}
				}
			}
		}
	}
	for _, p := range procs {
		for _, t := range p.Traces {
			for _, e := range t.Events {
				switch e.Kind {
				case "mapget", "mapset", "mapdel", "maplen", "mapclear", "maprange":
				default:
					continue
				}
				f := place(e.Map)
				if e.Fresh || f == "" || !replaced[f] || len(e.Locks) == 0 || !strings.HasPrefix(f, pkg+"."+typ+".") {
					continue
				}
				ok := false
				for _, l := range t.of("load", "store") {
					if l.Seq < e.Seq && l.Val == e.Map && place(l.Loc) == f && sameSection(l, e) {
						ok = true
					}
				}
				c.check("live-map", ok, t, e, "the map accessed under the lock was taken before the lock was acquired and may have been replaced since")
			}
		}
	}
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Held struct {
	Loc   *Term
	Write bool
	Pos   token.Pos
	Depth int
	Seq   int // index of the acquiring event: identifies the critical section
}

type cell struct {
	Val    *Term
	Deps   []*Term
	Stored bool
	T      types.Type
}

type mapEnt struct {
	Key  *Term
	Pres int // 1 present, -1 absent, 0 decided by fact Has
	Val  *Term
	Has  *Term
}

type mapSt struct {
	Ver    int
	Len    *Term
	Ents   []mapEnt
	Deps   []*Term
	Closed bool // keys without entry are absent
}

type deferred struct {
	call *ssa.CallCommon
	fn   *Term
	args []*Term
	ins  ssa.Instruction
}

type Frame struct {
	fn        *ssa.Function
	ctx       string
	blk, prev *ssa.BasicBlock
	idx       int
	env       map[ssa.Value]*Term
	bind      []*Term
	defers    []deferred
	ret       ssa.Instruction // call instruction in the caller to receive the result
	discard   bool            // deferred call: result dropped
	loops     []*LoopInst
	visits    map[*ssa.BasicBlock]int
	unwinding bool
	recovered bool
	inCall    string // name under which the frame was entered
}

// LoopInst is one dynamic entry of a loop: its body is analysed once for a
// generic iteration, with everything the body changes replaced by new terms.
type LoopInst struct {
	ID      int
	Key     string
	Fn      *ssa.Function
	Header  *ssa.BasicBlock
	Blocks  map[*ssa.BasicBlock]bool
	Phis    []*LoopVar
	Iters   []*Trace
	Events  int // number of events before entry
	NFacts  int
	Locks   []Held
	Exits   []*LoopExit
	Mapiter *Term
}

type LoopExit struct {
	Facts Facts
	Pos   token.Pos
}

type LoopVar struct {
	Term *Term
	Init *Term
	Loc  *Term // nil for SSA variables
	Name string
}

func (l *LoopInst) Var(t *Term) *LoopVar {
	for _, v := range l.Phis {
		if v.Term == t {
			return v
		}
	}
	return nil
}

type Event struct {
	Kind  string
	Pos   token.Pos
	Fn    *ssa.Function
	Ctx   string
	Loc   *Term
	Val   *Term
	Map   *Term
	Key   *Term
	Ch    *Term
	Name  string
	FnT   *Term
	Args  []*Term
	Res   *Term
	Write bool
	Locks []Held
	Fresh bool // accessed object not yet visible to other goroutines
	Loop  *LoopInst
	Proc  *Proc // body of a go statement or of a callback handed to a library
	NF    int   // number of facts known before the event
	Idx   int   // selected case
	Cases []SelCase
	Block bool
	Dflt  bool
	Ok    *Term
	Defer bool // executed as a deferred call
	Old   *Term
	NLoop int   // number of loops active
	Len0  *Term // map size before a map update
	Pres  int   // was the key present before
	Seq   int   // position on the path
	Loops []*LoopInst
}

type SelCase struct {
	Ch, Val *Term
	Send    bool
}

type Trace struct {
	Proc   *Proc
	End    string // return back panic cut halt
	Ret    []*Term
	Events []*Event
	Facts  Facts
	Loop   *LoopInst
	Next   map[*Term]*Term
	Locks  []Held
	Pos    token.Pos
	Mem    map[*Term]*cell
	Maps   map[*Term]*mapSt
	Pub    map[*Term]bool
	Loops  []*LoopInst
}

type State struct {
	frames  []*Frame
	mem     map[*Term]*cell
	maps    map[*Term]*mapSt
	cnt     map[*Term]int
	facts   Facts
	locks   []Held
	ev      []*Event
	pub     map[*Term]bool
	modMaps map[*Term]int // maps changed: 1 by deleting keys, 2 otherwise
	touched map[*Term]bool
	shift   map[*Term]*Term // lists whose elements after an index were moved down
	steps   int
}

func (s *State) clone() *State {
	n := &State{facts: s.facts[:len(s.facts):len(s.facts)], steps: s.steps, shift: s.shift}
	n.ev = s.ev[:len(s.ev):len(s.ev)]
	n.locks = append([]Held(nil), s.locks...)
	n.mem = make(map[*Term]*cell, len(s.mem))
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.maps = make(map[*Term]*mapSt, len(s.maps))
	for k, v := range s.maps {
		n.maps[k] = v
	}
	n.cnt = make(map[*Term]int, len(s.cnt))
	for k, v := range s.cnt {
		n.cnt[k] = v
	}
	n.pub = make(map[*Term]bool, len(s.pub))
	for k, v := range s.pub {
		n.pub[k] = v
	}
	n.modMaps = make(map[*Term]int, len(s.modMaps))
	for k, v := range s.modMaps {
		n.modMaps[k] = v
	}
	n.touched = make(map[*Term]bool, len(s.touched))
	for k, v := range s.touched {
		n.touched[k] = v
	}
	for _, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]*Term, len(f.env)+4)
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		g.loops = append([]*LoopInst(nil), f.loops...)
		g.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			g.visits[k] = v
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func newState() *State {
	return &State{mem: map[*Term]*cell{}, maps: map[*Term]*mapSt{}, cnt: map[*Term]int{}, pub: map[*Term]bool{},
		modMaps: map[*Term]int{}, touched: map[*Term]bool{}}
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) lockLocs() []*Term {
	var out []*Term
	for _, h := range s.locks {
		out = append(out, h.Loc)
	}
	return out
}

// private: the object the location or reference belongs to has not escaped.
func (s *State) private(t *Term) bool {
	r := RootOf(t)
	switch r.Op {
	case "new", "mkmap", "mkslice", "mkchan":
		return !s.pub[r]
	}
	return false
}

// publish marks everything reachable from v as visible to other goroutines.
func (s *State) publish(v *Term) {
	if v == nil {
		return
	}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "new", "mkmap", "mkslice", "mkchan":
			if !s.pub[t] {
				s.pub[t] = true
				for l, c := range s.mem {
					if RootOf(l) == t {
						walk(c.Val)
					}
				}
				if m := s.maps[t]; m != nil {
					for _, e := range m.Ents {
						walk(e.Val)
					}
					c := *m
					c.Deps = union(c.Deps, s.lockLocs())
					s.maps[t] = &c
				} else if t.Op == "mkmap" && s.cnt[t] == 0 && len(s.locks) > 0 {
					s.maps[t] = &mapSt{Len: tInt(0), Closed: true, Deps: s.lockLocs()}
				}
			}
			return
		case "load", "call", "hv":
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(v)
}

// ---- memory ----

func (x *Exec) immutable(loc *Term) bool {
	if loc.Op == "faddr" {
		return !x.isMut(loc)
	}
	return false
}

func (x *Exec) loadLeaf(s *State, loc *Term, t types.Type) *Term {
	if c, ok := s.mem[loc]; ok {
		// remember which locks the knowledge relies on
		if !s.private(loc) {
			s.mem[loc] = &cell{Val: c.Val, Deps: union(c.Deps, s.lockLocs()), Stored: c.Stored, T: c.T}
		}
		return c.Val
	}
	var v *Term
	if at, ok := t.Underlying().(*types.Array); ok && s.private(loc) && s.elemStored(loc) {
		if at.Len() > 64 {
			return mk("load", fmt.Sprintf("a%d", len(s.ev)), t, loc)
		}
		var el []*Term
		for k := int64(0); k < at.Len(); k++ {
			el = append(el, x.load(s, mk("iaddr", "", at.Elem(), loc, tInt(k)), at.Elem()))
		}
		return mk("arr", "value", t, el...)
	}
	if whole := s.wholeArray(loc); whole != nil {
		v = mk("index", "", t, whole, loc.Args[1])
	} else if s.private(loc) && (RootOf(loc).Op == "new" && !x.external(s, loc) || RootOf(loc).Op == "mkslice") && s.unwritten(loc) {
		v = x.zero(t)
	} else if loc.Op == "global" {
		v = mkObj("global", loc.S, t, loc.Obj)
		if !nonNilOp(v) {
			v = mk("load", fmt.Sprint(s.cnt[loc]), t, loc)
		}
	} else {
		v = mk("load", fmt.Sprint(s.cnt[loc]), t, loc)
	}
	s.mem[loc] = &cell{Val: v, Deps: s.lockLocs(), T: t}
	return v
}

// external: the private object was handed to code outside the module.
func (x *Exec) external(s *State, loc *Term) bool { return s.touched[RootOf(loc)] }

func union(a, b []*Term) []*Term {
	out := append([]*Term(nil), a...)
	for _, y := range b {
		dup := false
		for _, z := range out {
			if z == y {
				dup = true
			}
		}
		if !dup {
			out = append(out, y)
		}
	}
	return out
}

func (x *Exec) load(s *State, loc *Term, t types.Type) *Term {
	if expandable(t) {
		st := structOf(t)
		var args []*Term
		var src *Term
		same := true
		for i := 0; i < st.NumFields(); i++ {
			fl := x.faddr(loc, t, i)
			v := x.load(s, fl, st.Field(i).Type())
			args = append(args, v)
			if v.Op == "fld" && v.S == fieldKey(t, i) && (src == nil || src == v.Args[0]) {
				src = v.Args[0]
			} else {
				same = false
			}
		}
		if same && src != nil {
			return src
		}
		return mk("mk", typeKey(t), t, args...)
	}
	return x.loadLeaf(s, loc, t)
}

func (x *Exec) faddr(base *Term, t types.Type, i int) *Term {
	st := structOf(t)
	return mkObj("faddr", fieldKey(t, i), st.Field(i).Type(), st.Field(i), base)
}

func (x *Exec) fieldOf(v *Term, t types.Type, i int) *Term {
	st := structOf(t)
	if v.Op == "mk" && i < len(v.Args) {
		return v.Args[i]
	}
	if v.Op == "zero" || v.Op == "nil" {
		return x.zero(st.Field(i).Type())
	}
	return mkObj("fld", fieldKey(t, i), st.Field(i).Type(), st.Field(i), v)
}

func (x *Exec) store(s *State, loc, v *Term, t types.Type, pos token.Pos, emit bool) {
	if expandable(t) {
		st := structOf(t)
		for i := 0; i < st.NumFields(); i++ {
			x.store(s, x.faddr(loc, t, i), x.fieldOf(v, t, i), st.Field(i).Type(), pos, emit)
		}
		return
	}
	priv := s.private(loc)
	var old *Term
	if c, ok := s.mem[loc]; ok {
		old = c.Val
	}
	if emit {
		x.emit(s, &Event{Kind: "store", Pos: pos, Loc: loc, Val: v, Fresh: priv, Old: old})
	}
	if !priv {
		s.publish(v)
		// other locations of the same field may be the same cell
		for l := range s.mem {
			if l != loc && l.Op == loc.Op && l.S == loc.S && !s.private(l) && x.mayAlias(s, l, loc) {
				s.drop(l)
			}
		}
	} else if loc.Op == "iaddr" {
		for l := range s.mem {
			if l != loc && l.Op == "iaddr" && l.Args[0] == loc.Args[0] && x.mayAlias(s, l, loc) {
				s.drop(l)
			}
		}
	}
	if varIndex(loc) {
		s.cnt[RootOf(loc)]++
	}
	if _, ok := t.Underlying().(*types.Array); ok {
		for l := range s.mem {
			if below(l, loc) {
				s.drop(l)
			}
		}
	}
	for b := loc; b.Op == "faddr" || b.Op == "iaddr"; b = b.Args[0] {
		if b.Op != "iaddr" {
			continue
		}
		if c := s.mem[b.Args[0]]; c != nil {
			// no longer as it was assigned
			at, ok := c.T.Underlying().(*types.Array)
			if ok && b == loc && b.Args[1].Op == "const" && c.Stored && at.Len() <= 64 {
				for k := int64(0); k < at.Len(); k++ {
					el := mk("iaddr", "", at.Elem(), b.Args[0], tInt(k))
					if s.mem[el] == nil {
						s.mem[el] = &cell{Val: mk("index", "", at.Elem(), c.Val, tInt(k)), Stored: true, T: at.Elem()}
					}
				}
			}
			delete(s.mem, b.Args[0])
			s.cnt[RootOf(loc)]++
		}
	}
	s.mem[loc] = &cell{Val: v, Deps: s.lockLocs(), Stored: true, T: t}
}

// below: the location is (part of) an element of the array at base.
func below(loc, base *Term) bool {
	for ; loc.Op == "faddr" || loc.Op == "iaddr"; loc = loc.Args[0] {
		if loc.Op == "iaddr" && loc.Args[0] == base {
			return true
		}
	}
	return false
}

// elemStored: elements of the array were assigned since it was as a whole.
func (s *State) elemStored(loc *Term) bool {
	for l, c := range s.mem {
		if c.Stored && below(l, loc) {
			return true
		}
	}
	return false
}

// wholeArray: the value of the array the element belongs to, when it was last
// assigned as a whole.
func (s *State) wholeArray(loc *Term) *Term {
	if loc.Op != "iaddr" || !s.private(loc) {
		return nil
	}
	if c := s.mem[loc.Args[0]]; c != nil && c.Stored {
		return c.Val
	}
	return nil
}

// varIndex: the address goes through an element whose index is not known.
func varIndex(loc *Term) bool {
	for ; loc.Op == "faddr" || loc.Op == "iaddr"; loc = loc.Args[0] {
		if loc.Op == "iaddr" && loc.Args[1].Op != "const" {
			return true
		}
	}
	return false
}

func elemOf(loc *Term) bool {
	for ; loc.Op == "faddr" || loc.Op == "iaddr"; loc = loc.Args[0] {
		if loc.Op == "iaddr" {
			return true
		}
	}
	return false
}

// unwritten: no element of the fresh object was written that may be this one.
func (s *State) unwritten(loc *Term) bool {
	if !elemOf(loc) {
		return true
	}
	r := RootOf(loc)
	if s.cnt[r] != 0 {
		return false
	}
	if varIndex(loc) {
		for l, c := range s.mem {
			if c.Stored && RootOf(l) == r && elemOf(l) {
				return false
			}
		}
	}
	return true
}

func (s *State) drop(l *Term) {
	if r := RootOf(l); r != l && elemOf(l) {
		s.cnt[r]++
	}
	delete(s.mem, l)
	s.cnt[l]++
}

func (x *Exec) mayAlias(s *State, a, b *Term) bool {
	if a.Op == "faddr" && b.Op == "faddr" {
		p, q := a.Args[0], b.Args[0]
		if p == q {
			return true
		}
		if s.private(p) || s.private(q) {
			return false
		}
		return s.facts.Eval(tEq(p, q)) != -1
	}
	if a.Op == "iaddr" && b.Op == "iaddr" {
		if a.T != nil && b.T != nil && typeKey(a.T) != typeKey(b.T) {
			return false
		}
		if a.Args[0] == b.Args[0] {
			return s.facts.Eval(tEq(a.Args[1], b.Args[1])) != -1
		}
		return true
	}
	return false
}

// release: knowledge relying only on the released lock becomes stale.
func (x *Exec) invalidateDeps(s *State, lock *Term) {
	for l, c := range s.mem {
		if s.private(l) || x.stable(s, l) {
			continue
		}
		var nd []*Term
		hit := false
		for _, d := range c.Deps {
			if d == lock {
				hit = true
			} else {
				nd = append(nd, d)
			}
		}
		if !hit {
			continue
		}
		if len(nd) == 0 {
			s.drop(l)
		} else {
			s.mem[l] = &cell{Val: c.Val, Deps: nd, Stored: c.Stored, T: c.T}
		}
	}
	for m, st := range s.maps {
		if s.private(m) {
			continue
		}
		var nd []*Term
		hit := false
		for _, d := range st.Deps {
			if d == lock {
				hit = true
			} else {
				nd = append(nd, d)
			}
		}
		if !hit {
			continue
		}
		if len(nd) == 0 {
			s.dropMap(m)
		} else {
			c := *st
			c.Deps = nd
			s.maps[m] = &c
		}
	}
}

// interfere: anything shared that is not protected by a held lock may change.
func (x *Exec) interfere(s *State) {
	for l, c := range s.mem {
		if s.private(l) || x.stable(s, l) || len(c.Deps) > 0 {
			continue
		}
		s.drop(l)
	}
	for m, st := range s.maps {
		if s.private(m) || len(st.Deps) > 0 {
			continue
		}
		s.dropMap(m)
	}
}

func (s *State) dropMap(m *Term) {
	delete(s.maps, m)
	s.cnt[m]++
	s.modMaps[m] |= 2
}

// stable: the location cannot change any more.
func (x *Exec) stable(s *State, loc *Term) bool {
	if loc.Op == "faddr" {
		return !x.isMut(loc) && x.stablePath(s, loc.Args[0])
	}
	if loc.Op == "new" {
		return x.stableCell(loc) // captured variable never written again
	}
	if loc.Op == "global" {
		return !x.mutGlobal[loc.S]
	}
	return false
}

// stablePath: base is an object identity or an embedded struct of one.
func (x *Exec) stablePath(s *State, b *Term) bool {
	if b.Op == "faddr" {
		return x.stablePath(s, b.Args[0])
	}
	if b.Op == "iaddr" {
		return false
	}
	return true
}

func (x *Exec) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return tBool(false)
		}
		if u.Info()&types.IsInteger != 0 {
			return tInt(0)
		}
		if u.Info()&types.IsString != 0 {
			return mk("const", "", t)
		}
		if u.Info()&types.IsFloat != 0 {
			return mk("const", "0.0", t)
		}
		return tNil
	case *types.Struct:
		if expandable(t) {
			var args []*Term
			for i := 0; i < u.NumFields(); i++ {
				args = append(args, x.zero(u.Field(i).Type()))
			}
			return mk("mk", typeKey(t), t, args...)
		}
		return mk("zero", "zero:"+typeKey(t), t)
	case *types.Array:
		return mk("zero", "zero:"+typeKey(t), t)
	case *types.Interface:
		if _, ok := t.(*types.TypeParam); ok {
			return mk("zero", "zero:T", nil)
		}
		return tNil
	}
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return mk("zero", "zero:T", nil)
	}
	return tNil
}

// ---- maps ----

func (x *Exec) mapState(s *State, m *Term) *mapSt {
	st := s.maps[m]
	if st == nil {
		st = &mapSt{Ver: s.cnt[m], Deps: s.lockLocs()}
		if m.Op == "mkmap" && s.private(m) && s.cnt[m] == 0 {
			st.Closed = true
			st.Len = tInt(0)
		} else if m.IsNil() {
			st.Closed = true
			st.Len = tInt(0)
		} else {
			st.Len = mk("maplen", fmt.Sprint(st.Ver), types.Typ[types.Int], m)
		}
		s.maps[m] = st
	} else if !s.private(m) {
		c := *st
		c.Deps = union(c.Deps, s.lockLocs())
		s.maps[m] = &c
		st = &c
	}
	return st
}

// mapLookup returns (value, has) for a key.
func (x *Exec) mapLookup(s *State, m, key *Term, vt types.Type) (*Term, *Term) {
	st := x.mapState(s, m)
	for i := range st.Ents {
		e := &st.Ents[i]
		if e.Key == key || s.facts.Eval(tEq(e.Key, key)) == 1 {
			switch e.Pres {
			case 1:
				return e.Val, tBool(true)
			case -1:
				return x.zero(vt), tBool(false)
			}
			switch s.facts.Eval(e.Has) {
			case -1:
				return x.zero(vt), tBool(false)
			case 1:
				return e.Val, tBool(true)
			}
			return e.Val, e.Has
		}
	}
	if st.Closed {
		all := true
		for i := range st.Ents {
			if s.facts.Eval(tEq(st.Ents[i].Key, key)) != -1 {
				all = false
			}
		}
		if all {
			return x.zero(vt), tBool(false)
		}
	}
	ver := fmt.Sprint(st.Ver)
	has := mk("has", ver, types.Typ[types.Bool], m, key)
	val := mk("lookup", ver, vt, m, key)
	c := *st
	c.Ents = append(append([]mapEnt(nil), st.Ents...), mapEnt{Key: key, Val: val, Has: has})
	s.maps[m] = &c
	return val, has
}

func (x *Exec) mapPresence(s *State, m, key *Term) int {
	_, has := x.mapLookup(s, m, key, types.Typ[types.Invalid])
	return s.facts.Eval(has)
}

func (x *Exec) mapWrite(s *State, m, key, val *Term, del bool) {
	st := x.mapState(s, m)
	pres := 0
	for i := range st.Ents {
		e := &st.Ents[i]
		if e.Key == key || s.facts.Eval(tEq(e.Key, key)) == 1 {
			pres = e.Pres
			if pres == 0 {
				pres = s.facts.Eval(e.Has)
			}
		}
	}
	if pres == 0 && st.Closed {
		all := true
		for i := range st.Ents {
			if s.facts.Eval(tEq(st.Ents[i].Key, key)) != -1 {
				all = false
			}
		}
		if all {
			pres = -1
		}
	}
	c := mapSt{Ver: st.Ver, Deps: st.Deps, Closed: st.Closed}
	s.cnt[m]++
	c.Ver = s.cnt[m]
	for _, e := range st.Ents {
		if s.facts.Eval(tEq(e.Key, key)) == -1 {
			c.Ents = append(c.Ents, e)
		} else if e.Key != key && del {
			// deleting a possibly equal key: an absent one stays absent
			p := e.Pres
			if p == 0 {
				p = s.facts.Eval(e.Has)
			}
			if p == -1 {
				e.Pres = -1
				c.Ents = append(c.Ents, e)
			} else {
				c.Closed = false
			}
		} else if e.Key != key && !del {
			p := e.Pres
			if p == 0 {
				p = s.facts.Eval(e.Has)
			}
			if p == 1 && pres == -1 {
				// the new key was absent, so it differs from a present one
				e.Pres = 1
				c.Ents = append(c.Ents, e)
			} else {
				c.Closed = false
			}
		}
	}
	switch {
	case del && pres == 1:
		c.Len = mk("bin", "-", types.Typ[types.Int], st.Len, tInt(1))
	case del && pres == -1, !del && pres == 1:
		c.Len = st.Len
	case !del && pres == -1:
		c.Len = mk("bin", "+", types.Typ[types.Int], st.Len, tInt(1))
	default:
		c.Len = mk("maplen", fmt.Sprint(c.Ver), types.Typ[types.Int], m)
	}
	if del {
		c.Ents = append(c.Ents, mapEnt{Key: key, Pres: -1})
	} else {
		c.Ents = append(c.Ents, mapEnt{Key: key, Pres: 1, Val: val})
	}
	s.maps[m] = &c
	if del {
		s.modMaps[m] |= 1
	} else {
		s.modMaps[m] |= 2
	}
	// the same map may be reachable under another term
	for o := range s.maps {
		if o != m && !s.private(o) && !s.private(m) && o.T != nil && m.T != nil && typeKey2(o.T) == typeKey2(m.T) && s.facts.Eval(tEq(o, m)) != -1 && !distinctMaps(o, m) {
			s.dropMap(o)
		}
	}
}

// distinctMaps: maps held in different fields are different objects (each map
// field of the module is only ever assigned a map made for it).
func distinctMaps(a, b *Term) bool {
	if a.Op == "load" && b.Op == "load" && a.Args[0].Op == "faddr" && b.Args[0].Op == "faddr" {
		return a.Args[0].S != b.Args[0].S
	}
	return false
}

func typeKey2(t types.Type) string {
	return types.TypeString(t.Underlying(), func(p *types.Package) string { return p.Name() })
}

func short(s string) string {
	return strings.TrimPrefix(s, modulePath+"/")
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Proc is one analysed entry point: an exported function or method, the body
// of a go statement, or a callback handed to a library function.
type Proc struct {
	Name   string
	Kind   string // api, go, callback
	Fn     *ssa.Function
	Params []*Term
	Binds  []*Term
	Traces []*Trace
	Parent *Proc
	Ctx    string // prefix of the names of what the procedure makes
	Spawn  *Event
	Loops  []*LoopInst
	Cut    int
	Done   bool
	Inl    map[*ssa.Function]bool
	init   *State
}

type Exec struct {
	w         *World
	allMut    bool
	mutField  mutFields
	mutGlobal map[string]bool
	cellMemo  map[*ssa.Alloc]bool
	insID     map[ssa.Instruction]int
	loopMemo  map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	procs     map[string]*Proc // go/callback bodies by key
	order     []*Proc
	cur       *Proc
	work      []*State
	disc      *discovery
	nloop     int
	maxTraces int
	maxSteps  int
	steps     int
	Sites     map[ssa.Instruction]bool
	Notes     map[string]bool
	opaqueFn  func(*ssa.Function) bool
	// fields holding maps in which only true is stored
	alwaysTrue map[string]bool
	neverNil   map[string]bool
}

type discovery struct {
	inst  *LoopInst
	base  *State
	depth int // frame depth of the loop
	backs []*State
	cut   bool
}

func newExec(w *World) *Exec {
	return &Exec{w: w, allMut: true, mutField: mutFields{}, mutGlobal: map[string]bool{}, cellMemo: map[*ssa.Alloc]bool{},
		insID: map[ssa.Instruction]int{}, loopMemo: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		procs: map[string]*Proc{}, maxTraces: 40000, maxSteps: 6000000, Sites: map[ssa.Instruction]bool{}, Notes: map[string]bool{}}
}

func (x *Exec) isMut(loc *Term) bool { return x.allMut || x.mutField.has(loc) }

// mutFields: the fields written after construction, by field name with the
// paths of enclosing structs they were written through. A struct type used
// for parts of several objects is so told apart where the part is known.
type mutFields map[string]map[string]bool

func fieldPath(loc *Term) string {
	p := loc.S
	for b := loc.Args[0]; b.Op == "faddr"; b = b.Args[0] {
		p = b.S + "/" + p
	}
	return p
}

func (m mutFields) add(loc *Term) {
	if m[loc.S] == nil {
		m[loc.S] = map[string]bool{}
	}
	m[loc.S][fieldPath(loc)] = true
}

func (m mutFields) has(loc *Term) bool {
	ps := m[loc.S]
	if len(ps) == 0 {
		return false
	}
	q := fieldPath(loc)
	for p := range ps {
		if p == q || strings.HasSuffix(p, "/"+q) || strings.HasSuffix(q, "/"+p) {
			return true
		}
	}
	return false
}

func (x *Exec) id(i ssa.Instruction) string {
	n, ok := x.insID[i]
	if !ok {
		n = len(x.insID) + 1
		x.insID[i] = n
	}
	return strconv.Itoa(n)
}

// stableCell: a captured variable that is never written once captured.
func (x *Exec) stableCell(t *Term) bool {
	a, ok := t.Obj.(*ssa.Alloc)
	if !ok {
		return false
	}
	if v, ok := x.cellMemo[a]; ok {
		return v
	}
	v := computeStable(a)
	x.cellMemo[a] = v
	return v
}

func computeStable(a *ssa.Alloc) bool {
	var closures []*ssa.MakeClosure
	stores := map[ssa.Instruction]bool{}
	for _, r := range *a.Referrers() {
		switch i := r.(type) {
		case *ssa.MakeClosure:
			if call, writes := calledInPlace(i, a); call != nil {
				if writes {
					stores[call] = true
				}
				continue
			}
			closures = append(closures, i)
		case *ssa.Store:
			if i.Addr == a {
				stores[i] = true
			} else {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr, *ssa.IndexAddr:
			return false
		default:
			return false
		}
	}
	for _, c := range closures {
		fn := c.Fn.(*ssa.Function)
		for bi, b := range c.Bindings {
			if b == a && freeVarWritten(fn.FreeVars[bi], map[ssa.Value]bool{}) {
				return false
			}
		}
		// forward reachability from the closure creation to a store
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock, from int) bool
		walk = func(b *ssa.BasicBlock, from int) bool {
			for _, in := range b.Instrs[from:] {
				if in == ssa.Instruction(a) {
					return false
				}
				if stores[in] {
					return true
				}
			}
			for _, s := range b.Succs {
				if !seen[s] {
					seen[s] = true
					if walk(s, 0) {
						return true
					}
				}
			}
			return false
		}
		for i, in := range c.Block().Instrs {
			if in == ssa.Instruction(c) {
				if walk(c.Block(), i+1) {
					return false
				}
			}
		}
	}
	return true
}

// calledInPlace: a function literal that is called once where it stands and
// passes the variable v on to no other kind of closure; the call, and whether
// it writes v.
func calledInPlace(m *ssa.MakeClosure, v ssa.Value) (ssa.Instruction, bool) {
	var call ssa.Instruction
	for _, r := range *m.Referrers() {
		switch i := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Call:
			if i.Call.Value != ssa.Value(m) || call != nil {
				return nil, false
			}
			for _, x := range i.Call.Args {
				if x == ssa.Value(m) {
					return nil, false
				}
			}
			call = i
		default:
			return nil, false
		}
	}
	if call == nil {
		return nil, false
	}
	writes := false
	for bi, b := range m.Bindings {
		if b != v {
			continue
		}
		fv := m.Fn.(*ssa.Function).FreeVars[bi]
		for _, r := range *fv.Referrers() {
			switch i := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if i.Addr != ssa.Value(fv) {
					return nil, false
				}
				writes = true
			case *ssa.MakeClosure:
				c, w := calledInPlace(i, fv)
				if c == nil {
					return nil, false
				}
				writes = writes || w
			default:
				return nil, false
			}
		}
	}
	return call, writes
}

func freeVarWritten(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	for _, r := range *v.Referrers() {
		switch i := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if i.Addr == v {
				return true
			}
		case *ssa.MakeClosure:
			for bi, b := range i.Bindings {
				if b == v && freeVarWritten(i.Fn.(*ssa.Function).FreeVars[bi], seen) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

// ---- loops ----

func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := x.loopMemo[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := res[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					res[s] = body
				}
				var st []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					st = append(st, b)
				}
				for len(st) > 0 {
					n := st[len(st)-1]
					st = st[:len(st)-1]
					for _, p := range n.Preds {
						if !body[p] {
							body[p] = true
							st = append(st, p)
						}
					}
				}
			}
		}
	}
	x.loopMemo[fn] = res
	return res
}

// ---- driver ----

func (x *Exec) explore(p *Proc, init *State) {
	saveCur, saveWork, saveDisc := x.cur, x.work, x.disc
	defer func() { x.cur, x.work, x.disc = saveCur, saveWork, saveDisc }()
	x.cur = p
	x.disc = nil
	x.work = []*State{init}
	p.Inl = map[*ssa.Function]bool{}
	x.drain()
	p.Done = true
}

func (x *Exec) drain() {
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.run(s)
		if x.disc == nil && len(x.cur.Traces) > x.maxTraces {
			x.cur.Cut++
			x.work = nil
			return
		}
	}
}

func (x *Exec) emit(s *State, e *Event) *Event {
	e.NF = len(s.facts)
	e.Seq = len(s.ev)
	e.Locks = append([]Held(nil), s.locks...)
	if len(s.frames) > 0 {
		fr := s.top()
		e.Fn = fr.fn
		e.Ctx = fr.ctx
		for _, f := range s.frames {
			e.Loops = append(e.Loops, f.loops...)
		}
		e.NLoop = len(e.Loops)
		for _, f := range s.frames {
			if f.discard || f.unwinding {
				e.Defer = e.Defer || f.discard
			}
		}
	}
	s.ev = append(s.ev, e)
	return e
}

func (x *Exec) finish(s *State, end string, ret []*Term, pos token.Pos, loop *LoopInst, next map[*Term]*Term) {
	if x.disc != nil {
		return
	}
	t := &Trace{Proc: x.cur, End: end, Ret: ret, Events: s.ev, Facts: s.facts, Loop: loop, Next: next, Locks: s.locks, Pos: pos,
		Mem: s.mem, Maps: s.maps, Pub: s.pub}
	for _, f := range s.frames {
		t.Loops = append(t.Loops, f.loops...)
	}
	x.cur.Traces = append(x.cur.Traces, t)
	if loop != nil {
		loop.Iters = append(loop.Iters, t)
	}
}

// run executes s until its path ends, pushing alternatives on the worklist.
func (x *Exec) run(s *State) {
	for {
		x.steps++
		s.steps++
		if s.steps > 20000 || x.steps > x.maxSteps {
			x.cur.Cut++
			x.finish(s, "cut", nil, token.NoPos, nil, nil)
			if x.disc != nil {
				x.disc.cut = true
			}
			return
		}
		if len(s.frames) == 0 {
			return
		}
		if !x.step(s) {
			return
		}
	}
}

func (x *Exec) val(s *State, v ssa.Value) *Term {
	fr := s.top()
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return x.zero(c.Type())
		}
		switch c.Value.Kind() {
		case constant.Int:
			return tConst(c.Value.ExactString(), c.Type())
		case constant.Bool:
			return tBool(constant.BoolVal(c.Value))
		case constant.String:
			return mk("const", strconv.Quote(constant.StringVal(c.Value)), c.Type())
		case constant.Float:
			if i := constant.ToInt(c.Value); i.Kind() == constant.Int {
				return tConst(i.ExactString(), c.Type())
			}
		}
		return tConst(c.Value.ExactString(), c.Type())
	case *ssa.Global:
		return mkObj("global", short(c.Pkg.Pkg.Path())+"."+c.Name(), c.Type(), c)
	case *ssa.Function:
		return mkObj("func", c.String(), c.Type(), c)
	case *ssa.Builtin:
		return mk("builtin", c.Name(), nil)
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == c && i < len(fr.bind) {
				return fr.bind[i]
			}
		}
		return mk("freevar", fr.fn.String()+"."+c.Name(), c.Type())
	}
	t := mk("undef", fmt.Sprintf("%s@%s", v.Name(), fr.ctx), v.Type())
	return t
}

func (x *Exec) set(s *State, v ssa.Value, t *Term) {
	fr := s.top()
	fr.env[v] = t
}

// fork continues with cond assumed true in s and false in a copy. It returns
// the states in which the condition is true and false (nil if infeasible).
func (x *Exec) fork(s *State, cond *Term) (yes, no *State) {
	switch s.facts.Eval(cond) {
	case 1:
		return s, nil
	case -1:
		return nil, s
	}
	n := s.clone()
	s.facts = s.facts.Add(cond, true)
	n.facts = n.facts.Add(cond, false)
	return s, n
}

func (x *Exec) jump(s *State, to *ssa.BasicBlock) bool {
	fr := s.top()
	from := fr.blk
	// leave loops
	for len(fr.loops) > 0 {
		l := fr.loops[len(fr.loops)-1]
		if l.Blocks[to] {
			break
		}
		x.emit(s, &Event{Kind: "loopexit", Loop: l, Pos: blockPos(from)})
		if x.disc == nil {
			l.Exits = append(l.Exits, &LoopExit{Facts: s.facts, Pos: blockPos(from)})
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
		if x.disc != nil && l == x.disc.inst && len(s.frames) == x.disc.depth {
			return false
		}
	}
	fr.visits[to]++
	loops := x.loopsOf(fr.fn)
	if body, ok := loops[to]; ok {
		var active *LoopInst
		for _, l := range fr.loops {
			if l.Header == to {
				active = l
			}
		}
		if active != nil {
			// back edge
			if fr.loops[len(fr.loops)-1] == active {
				stay := x.thread(s, from, to, active)
				for _, n := range stay {
					x.back(n, from, to, active)
				}
				return false
			}
			x.back(s, from, to, active)
			return false
		}
		return x.enterLoop(s, to, body, from)
	}
	if fr.visits[to] > 6 {
		x.cur.Cut++
		x.finish(s, "cut", nil, blockPos(to), nil, nil)
		return false
	}
	x.phis(s, from, to)
	fr.prev, fr.blk, fr.idx = from, to, countPhis(to)
	return true
}

func (x *Exec) back(s *State, from, to *ssa.BasicBlock, active *LoopInst) {
	fr := s.top()
	next := map[*Term]*Term{}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nv := x.val(s, ph.Edges[pi])
		if isBool(ph.Type()) && nv != fr.env[ph] {
			switch s.facts.Eval(nv) {
			case 1:
				nv = tBool(true)
			case -1:
				nv = tBool(false)
			}
		}
		next[fr.env[ph]] = nv
	}
	for _, v := range active.Phis {
		if v.Loc != nil {
			if c, ok := s.mem[v.Loc]; ok {
				next[v.Term] = c.Val
			}
		}
	}
	if x.disc != nil && x.disc.inst == active && len(s.frames) == x.disc.depth {
		s.facts = append(s.facts, Fact{mkNext(next), true})
		x.disc.backs = append(x.disc.backs, s)
		return
	}
	if x.disc != nil {
		return
	}
	x.emit(s, &Event{Kind: "loopback", Loop: active, Pos: blockPos(from)})
	x.finish(s, "back", nil, blockPos(from), active, next)
}

var nextTab = map[*Term]map[*Term]*Term{}
var nextN int

func mkNext(m map[*Term]*Term) *Term {
	nextN++
	t := mk("next", strconv.Itoa(nextN), nil)
	nextTab[t] = m
	return t
}

func countPhis(b *ssa.BasicBlock) int {
	n := 0
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			break
		}
		n++
	}
	return n
}

func (x *Exec) phis(s *State, from, to *ssa.BasicBlock) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	fr := s.top()
	vals := map[*ssa.Phi]*Term{}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[ph] = x.val(s, ph.Edges[pi])
	}
	for ph, v := range vals {
		fr.env[ph] = v
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, p := range b.Preds {
		for i := len(p.Instrs) - 1; i >= 0; i-- {
			if p.Instrs[i].Pos().IsValid() {
				return p.Instrs[i].Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// enterLoop analyses the loop body once in discovery mode to learn what it
// changes, then continues with a generic iteration.
func (x *Exec) enterLoop(s *State, hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, from *ssa.BasicBlock) bool {
	fr := s.top()
	x.nloop++
	key := "L" + fr.fn.Name() + x.id(hdr.Instrs[0]) + "." + strconv.Itoa(hdr.Index) + "@" + fr.ctx
	inst := &LoopInst{ID: x.nloop, Key: key, Fn: fr.fn, Header: hdr, Blocks: body, Events: len(s.ev) + 1, NFacts: len(s.facts), Locks: append([]Held(nil), s.locks...)}
	init := map[*ssa.Phi]*Term{}
	pi := -1
	for i, p := range hdr.Preds {
		if p == from {
			pi = i
		}
	}
	var order []*ssa.Phi
	for _, in := range hdr.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		init[ph] = x.val(s, ph.Edges[pi])
		order = append(order, ph)
	}
	constPhi := map[*ssa.Phi]bool{}
	hav := map[*Term]types.Type{}
	dropM := map[*Term]int{}
	dropL := map[*Term]bool{}
	type indf struct {
		t    *Term
		init *Term
		up   bool
	}
	var inds []indf

	setup := func(n *State) {
		f := n.top()
		inst.Phis = nil
		for _, ph := range order {
			if constPhi[ph] {
				f.env[ph] = init[ph]
				continue
			}
			t := mkObj("phi", key+":"+ph.Name(), ph.Type(), inst.Key)
			f.env[ph] = t
			inst.Phis = append(inst.Phis, &LoopVar{Term: t, Init: init[ph], Name: ph.Comment})
		}
		var locs []*Term
		for l := range hav {
			locs = append(locs, l)
		}
		sort.Slice(locs, func(i, j int) bool { return locs[i].ID < locs[j].ID })
		for _, l := range locs {
			var iv *Term
			if c, ok := n.mem[l]; ok {
				iv = c.Val
			} else if n.private(l) && RootOf(l).Op == "new" {
				iv = x.zero(hav[l])
			}
			t := mk("hv", key+":"+strconv.Itoa(l.ID), hav[l], l)
			if varIndex(l) {
				n.cnt[RootOf(l)]++
			}
			n.mem[l] = &cell{Val: t, Deps: n.lockLocs(), Stored: true, T: hav[l]}
			inst.Phis = append(inst.Phis, &LoopVar{Term: t, Init: iv, Loc: l, Name: l.String()})
		}
		for l := range dropL {
			n.drop(l)
		}
		for m, how := range dropM {
			st := n.maps[m]
			delete(n.maps, m)
			n.cnt[m]++
			n.modMaps[m] |= how
			if st == nil || how != 1 {
				continue
			}
			// only deletions: what was absent stays absent
			c := &mapSt{Ver: n.cnt[m], Deps: st.Deps, Closed: st.Closed}
			c.Len = mk("maplen", fmt.Sprint(c.Ver), types.Typ[types.Int], m)
			for _, e := range st.Ents {
				if e.Pres == -1 || e.Pres == 0 && n.facts.Eval(e.Has) == -1 {
					e.Pres = -1
					c.Ents = append(c.Ents, e)
				} else {
					c.Closed = false
				}
			}
			n.maps[m] = c
		}
		for _, i := range inds {
			if i.up {
				n.facts = n.facts.Add(tLt(i.t, i.init), false)
			} else {
				n.facts = n.facts.Add(tLt(i.init, i.t), false)
			}
		}
		f.loops = append(f.loops, inst)
		f.prev, f.blk, f.idx = from, hdr, countPhis(hdr)
	}

	for round := 0; round < 6; round++ {
		n := s.clone()
		n.modMaps = map[*Term]int{}
		setup(n)
		base := n.clone()
		d := &discovery{inst: inst, base: base, depth: len(n.frames)}
		saveD, saveW := x.disc, x.work
		x.disc = d
		x.work = []*State{n}
		x.drain()
		x.disc, x.work = saveD, saveW
		changed := false
		oldInds := inds
		inds = nil
		upOK := map[*Term]int{}
		for bi, b := range d.backs {
			for l, c := range base.mem {
				if hav[l] != nil || dropL[l] {
					continue
				}
				bc, ok := b.mem[l]
				if !ok {
					if !x.stable(base, l) {
						dropL[l] = true
						changed = true
					}
				} else if bc.Val != c.Val {
					hav[l] = c.T
					changed = true
				}
			}
			for l, bc := range b.mem {
				if _, ok := base.mem[l]; ok || hav[l] != nil || dropL[l] {
					continue
				}
				if bc.Stored && RootOf(l).Op != "undef" {
					if RootOf(l).Op == "new" && !x.existed(base, RootOf(l)) {
						continue // object made inside the body
					}
					hav[l] = bc.T
					changed = true
				}
			}
			for m, how := range b.modMaps {
				if dropM[m]|how != dropM[m] {
					if m.Op == "mkmap" && !x.existedMap(base, m, s) {
						continue
					}
					dropM[m] |= how
					changed = true
				}
			}
			for m := range base.maps {
				if b.maps[m] == nil && dropM[m]&2 == 0 {
					dropM[m] |= 2
					changed = true
				}
			}
			next := nextTab[b.facts[len(b.facts)-1].Atom]
			for _, v := range inst.Phis {
				nv := next[v.Term]
				st := 0
				if nv != nil && v.Term.T != nil && isIntType(v.Term.T) && v.Init != nil {
					dl := linDiff(nv, v.Term)
					if dl.isConst() {
						if dl.C > 0 {
							st = 1
						} else if dl.C < 0 {
							st = -1
						} else {
							st = 2
						}
					}
				}
				if bi == 0 {
					upOK[v.Term] = st
				} else if upOK[v.Term] == 2 {
					upOK[v.Term] = st
				} else if st != 2 && st != upOK[v.Term] {
					upOK[v.Term] = 0
				}
			}
		}
		if len(d.backs) > 0 {
			for _, ph := range order {
				if constPhi[ph] {
					continue
				}
				same := true
				for _, b := range d.backs {
					next := nextTab[b.facts[len(b.facts)-1].Atom]
					nv := next[base.top().env[ph]]
					if nv != base.top().env[ph] && nv != init[ph] {
						same = false
					}
				}
				if same {
					constPhi[ph] = true
					changed = true
				}
			}
		}
		for _, v := range inst.Phis {
			if v.Init == nil {
				continue
			}
			switch upOK[v.Term] {
			case 1:
				inds = append(inds, indf{v.Term, v.Init, true})
			case -1:
				inds = append(inds, indf{v.Term, v.Init, false})
			}
		}
		if len(d.backs) == 0 {
			inds = oldInds // the body never comes back: still inductive
		}
		if d.cut {
			break
		}
		if !changed {
			break
		}
	}
	setup(s)
	x.emit(s, &Event{Kind: "loopenter", Loop: inst, Pos: blockPos(hdr)})
	if x.disc == nil {
		x.cur.Loops = append(x.cur.Loops, inst)
	}
	// modified maps count as modified for an enclosing discovery as well
	return true
}

func (x *Exec) existed(base *State, root *Term) bool {
	return base.touchedAlloc(root)
}

func (x *Exec) existedMap(base *State, m *Term, s *State) bool {
	if s.touched[m] {
		return true
	}
	return base.touchedAlloc(m)
}

// touchedAlloc: the allocation had been executed when the state was taken.
func (s *State) touchedAlloc(a *Term) bool {
	for _, f := range s.frames {
		for _, t := range f.env {
			if t == a {
				return true
			}
		}
		for _, t := range f.bind {
			if t == a {
				return true
			}
		}
	}
	for _, c := range s.mem {
		if c.Val == a {
			return true
		}
	}
	return s.pub[a]
}

// step executes one instruction; false when the path has ended.
func (x *Exec) step(s *State) bool {
	fr := s.top()
	if fr.unwinding {
		return x.unwind(s)
	}
	in := fr.blk.Instrs[fr.idx]
	x.Sites[in] = true
	pos := in.Pos()
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := mkObj("new", "@"+fr.ctx+":"+x.id(i), deref(i.Type()), i)
		x.set(s, i, t)
		// a fresh object: forget what an earlier execution of the site left
		for l := range s.mem {
			if RootOf(l) == t {
				delete(s.mem, l)
			}
		}
		delete(s.cnt, t)
	case *ssa.Phi:
		panic("phi in the middle of a block")
	case *ssa.BinOp:
		a, b := x.val(s, i.X), x.val(s, i.Y)
		if (i.Op == token.QUO || i.Op == token.REM) && isIntType(i.Type()) {
			if _, ok := i.Y.(*ssa.Const); !ok {
				x.emit(s, &Event{Kind: "div", Pos: pos, Val: b})
			}
		}
		x.set(s, i, x.binop(s, i.Op, a, b, i.Type(), i.X.Type()))
	case *ssa.UnOp:
		return x.unop(s, i)
	case *ssa.ChangeType:
		x.set(s, i, x.val(s, i.X))
	case *ssa.ChangeInterface:
		x.set(s, i, x.val(s, i.X))
	case *ssa.MakeInterface:
		x.set(s, i, x.makeIface(s, i))
	case *ssa.Convert:
		x.set(s, i, x.convert(s, x.val(s, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		x.set(s, i, x.convert(s, x.val(s, i.X), i.X.Type(), i.Type()))
	case *ssa.SliceToArrayPointer:
		x.set(s, i, mk("s2a", "", i.Type(), x.val(s, i.X)))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range i.Bindings {
			b = append(b, x.val(s, v))
		}
		fn := i.Fn.(*ssa.Function)
		x.set(s, i, mkObj("closure", fn.String()+"#"+x.id(i), i.Type(), fn, b...))
	case *ssa.MakeMap:
		t := mkObj("mkmap", "@"+fr.ctx+":"+x.id(i), i.Type(), i)
		delete(s.maps, t)
		x.set(s, i, t)
		x.emit(s, &Event{Kind: "make", Pos: pos, Res: t})
	case *ssa.MakeChan:
		t := mkObj("mkchan", "@"+fr.ctx+":"+x.id(i), i.Type(), i, x.val(s, i.Size))
		x.set(s, i, t)
		x.emit(s, &Event{Kind: "make", Pos: pos, Res: t})
	case *ssa.MakeSlice:
		t := mkObj("mkslice", "@"+fr.ctx+":"+x.id(i), i.Type(), i, x.val(s, i.Len), x.val(s, i.Cap))
		for l := range s.mem {
			if RootOf(l) == t {
				delete(s.mem, l)
			}
		}
		delete(s.cnt, t)
		x.set(s, i, t)
		x.emit(s, &Event{Kind: "make", Pos: pos, Res: t})
	case *ssa.Slice:
		x.set(s, i, x.slice(s, i))
	case *ssa.FieldAddr:
		x.set(s, i, x.faddr(x.val(s, i.X), deref(i.X.Type()), i.Field))
	case *ssa.Field:
		x.set(s, i, x.fieldOf(x.val(s, i.X), i.X.Type(), i.Field))
	case *ssa.IndexAddr:
		b := x.val(s, i.X)
		if b.Op == "s2a" {
			b = b.Args[0]
		}
		t := mk("iaddr", "", deref(i.Type()), b, x.val(s, i.Index))
		x.set(s, i, t)
		if n := indexLimit(i.X.Type(), b); n != nil {
			x.emit(s, &Event{Kind: "index", Pos: pos, Loc: t, Val: n, Key: t.Args[1], Fresh: s.private(b)})
		}
	case *ssa.Index:
		t := mk("index", "", i.Type(), x.val(s, i.X), x.val(s, i.Index))
		x.set(s, i, t)
		if n := indexLimit(i.X.Type(), t.Args[0]); n != nil {
			x.emit(s, &Event{Kind: "index", Pos: pos, Loc: t, Val: n, Key: t.Args[1]})
		}
	case *ssa.Lookup:
		x.lookup(s, i)
	case *ssa.Range:
		t := mk("iter", "@"+fr.ctx+":"+x.id(i), nil, x.val(s, i.X))
		x.set(s, i, t)
		x.emit(s, &Event{Kind: "maprange", Pos: pos, Map: x.val(s, i.X), Res: t, Fresh: s.private(x.val(s, i.X))})
	case *ssa.Next:
		return x.next(s, i)
	case *ssa.TypeAssert:
		return x.typeAssert(s, i)
	case *ssa.Extract:
		x.set(s, i, x.extract(x.val(s, i.Tuple), i.Index, i.Type()))
	case *ssa.Store:
		loc := x.val(s, i.Addr)
		v := x.val(s, i.Val)
		x.store(s, loc, v, i.Val.Type(), pos, true)
		x.stored(s, loc, v)
	case *ssa.MapUpdate:
		m, k, v := x.val(s, i.Map), x.val(s, i.Key), x.val(s, i.Value)
		pres := x.mapPresence(s, m, k)
		old, has := x.mapLookup(s, m, k, i.Value.Type())
		x.emit(s, &Event{Kind: "mapset", Pos: pos, Map: m, Key: k, Val: v, Fresh: s.private(m), Pres: pres, Old: old, Ok: has, Len0: x.mapState(s, m).Len})
		if !s.private(m) {
			s.publish(v)
			s.publish(k)
		}
		x.mapWrite(s, m, k, v, false)
	case *ssa.Send:
		ch, v := x.val(s, i.Chan), x.val(s, i.X)
		x.emit(s, &Event{Kind: "send", Pos: pos, Ch: ch, Val: v, Block: true})
		s.publish(v)
		x.interfere(s)
	case *ssa.Select:
		return x.selectI(s, i)
	case *ssa.Go:
		x.goI(s, i)
	case *ssa.Defer:
		fn, args := x.callee(s, &i.Call)
		d := deferred{call: &i.Call, fn: fn, args: args, ins: i}
		fr.defers = append(fr.defers, d)
		x.emit(s, &Event{Kind: "defer", Pos: pos, FnT: fn, Args: args, Name: calleeName(&i.Call, fn)})
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			return x.call(s, d.call, d.fn, d.args, nil, d.ins, true)
		}
	case *ssa.Call:
		fn, args := x.callee(s, &i.Call)
		fr.idx++
		return x.call(s, &i.Call, fn, args, i, i, false)
	case *ssa.Jump:
		return x.jump(s, fr.blk.Succs[0])
	case *ssa.If:
		c := x.val(s, i.Cond)
		yes, no := x.fork(s, c)
		b := fr.blk
		if yes != nil && no != nil {
			x.emit(yes, &Event{Kind: "branch", Pos: pos, Val: c, Write: true})
			x.emit(no, &Event{Kind: "branch", Pos: pos, Val: c, Write: false})
			if x.jump(no, b.Succs[1]) {
				x.work = append(x.work, no)
			}
			return x.jump(yes, b.Succs[0])
		}
		if yes != nil {
			return x.jump(yes, b.Succs[0])
		}
		return x.jump(no, b.Succs[1])
	case *ssa.Return:
		var rs []*Term
		for _, r := range i.Results {
			rs = append(rs, x.val(s, r))
		}
		return x.ret(s, rs, pos)
	case *ssa.Panic:
		x.emit(s, &Event{Kind: "panic", Pos: pos, Val: x.val(s, i.X)})
		fr.unwinding = true
		return true
	default:
		x.Notes[fmt.Sprintf("unhandled instruction %T", in)] = true
	}
	if s.top() == fr && fr.blk != nil {
		fr.idx++
	}
	return true
}

// stored: functions kept in a field for later calls are analysed on their own.
func (x *Exec) stored(s *State, loc, v *Term) {
	if x.disc != nil || loc.Op != "faddr" || len(s.ev) == 0 {
		return
	}
	e := s.ev[len(s.ev)-1]
	switch {
	case v.Op == "closure" || v.Op == "func":
		x.spawn(s, v, nil, "stored", e)
	case v.Op == "append":
		for _, a := range v.Args[1:] {
			if a.Op == "closure" || a.Op == "func" {
				x.spawn(s, a, nil, "stored", e)
			}
		}
	}
}

func (x *Exec) ret(s *State, rs []*Term, pos token.Pos) bool {
	fr := s.top()
	if len(s.frames) == 1 {
		for _, r := range rs {
			s.publish(r)
		}
		re := x.emit(s, &Event{Kind: "return", Pos: pos, Args: rs})
		for _, r := range rs {
			if r.Op == "closure" && x.disc == nil {
				re.Proc = x.spawn(s, r, nil, "returned", re)
			}
		}
		x.finish(s, "return", rs, pos, nil, nil)
		return false
	}
	if x.disc != nil && len(s.frames) == x.disc.depth {
		return false
	}
	s.frames = s.frames[:len(s.frames)-1]
	x.emit(s, &Event{Kind: "leave", Pos: pos, Name: fr.fn.String(), Args: rs})
	if fr.discard {
		return true
	}
	if v, ok := fr.ret.(ssa.Value); ok && v != nil {
		x.set(s, v, tuple(rs))
	}
	return true
}

func tuple(rs []*Term) *Term {
	if len(rs) == 1 {
		return rs[0]
	}
	return mk("tuple", "", nil, rs...)
}

func (x *Exec) unwind(s *State) bool {
	fr := s.top()
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		return x.call(s, d.call, d.fn, d.args, nil, d.ins, true)
	}
	if fr.recovered && fr.fn.Recover != nil {
		fr.unwinding = false
		fr.blk, fr.idx = fr.fn.Recover, 0
		return true
	}
	if fr.recovered {
		fr.unwinding = false
		var rs []*Term
		res := fr.fn.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			rs = append(rs, x.zero(res.At(i).Type()))
		}
		return x.ret(s, rs, token.NoPos)
	}
	if x.disc != nil && len(s.frames) == x.disc.depth {
		return false
	}
	if len(s.frames) == 1 {
		x.finish(s, "panic", nil, fr.fn.Pos(), nil, nil)
		return false
	}
	s.frames = s.frames[:len(s.frames)-1]
	s.top().unwinding = true
	return true
}

func (x *Exec) extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" {
		return t.Args[i]
	}
	return mk("extract", strconv.Itoa(i), typ, t)
}

func (x *Exec) binop(s *State, op token.Token, a, b *Term, t, ot types.Type) *Term {
	switch op {
	case token.EQL:
		return tEq(a, b)
	case token.NEQ:
		return tNot(tEq(a, b))
	case token.LSS:
		return tLt(a, b)
	case token.GTR:
		return tLt(b, a)
	case token.LEQ:
		if isFloatish(ot) {
			return mk("le", "", types.Typ[types.Bool], a, b)
		}
		return tNot(tLt(b, a))
	case token.GEQ:
		if isFloatish(ot) {
			return mk("le", "", types.Typ[types.Bool], b, a)
		}
		return tNot(tLt(a, b))
	}
	if p, ok := a.Int(); ok {
		if q, ok := b.Int(); ok && isIntType(t) {
			switch op {
			case token.ADD:
				return tConst(strconv.FormatInt(p+q, 10), t)
			case token.SUB:
				return tConst(strconv.FormatInt(p-q, 10), t)
			case token.MUL:
				return tConst(strconv.FormatInt(p*q, 10), t)
			case token.QUO:
				if q != 0 {
					return tConst(strconv.FormatInt(p/q, 10), t)
				}
			case token.REM:
				if q != 0 {
					return tConst(strconv.FormatInt(p%q, 10), t)
				}
			case token.SHL:
				if q < 63 && p >= 0 {
					return tConst(strconv.FormatInt(p<<uint(q), 10), t)
				}
			}
		}
	}
	switch op {
	case token.ADD:
		if isIntType(t) {
			if n, ok := b.Int(); ok && n == 0 {
				return a
			}
			if n, ok := a.Int(); ok && n == 0 {
				return b
			}
			// (a - k) + k
			l := newLin()
			l.add(lin(a), 1)
			l.add(lin(b), 1)
			if len(l.Coef) == 1 && l.C == 0 {
				for v, c := range l.Coef {
					if c == 1 {
						return v
					}
				}
			}
		}
	case token.SUB:
		if isIntType(t) {
			l := linDiff(a, b)
			if l.isConst() {
				return tConst(strconv.FormatInt(l.C, 10), t)
			}
			if len(l.Coef) == 1 && l.C == 0 {
				for v, c := range l.Coef {
					if c == 1 {
						return v
					}
				}
			}
		}
	}
	return mk("bin", op.String(), t, a, b)
}

func isFloatish(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if ok {
		return b.Info()&types.IsFloat != 0
	}
	_, tp := types.Unalias(t).(*types.TypeParam)
	return tp
}

func (x *Exec) unop(s *State, i *ssa.UnOp) bool {
	fr := s.top()
	v := x.val(s, i.X)
	switch i.Op {
	case token.MUL:
		t := x.load(s, v, i.Type())
		x.emit(s, &Event{Kind: "load", Pos: i.Pos(), Loc: v, Val: t, Fresh: s.private(v)})
		x.set(s, i, t)
	case token.SUB:
		if n, ok := v.Int(); ok {
			x.set(s, i, tConst(strconv.FormatInt(-n, 10), i.Type()))
		} else if v.Op == "neg" {
			x.set(s, i, v.Args[0])
		} else {
			x.set(s, i, mk("neg", "", i.Type(), v))
		}
	case token.NOT:
		x.set(s, i, tNot(v))
	case token.XOR:
		x.set(s, i, mk("compl", "", i.Type(), v))
	case token.ARROW:
		x.interfere(s)
		et := i.Type()
		if i.CommaOk {
			et = et.(*types.Tuple).At(0).Type()
		}
		r := mk("recv", "@"+fr.ctx+":"+x.id(i), et, v)
		ok := mk("recvok", "@"+fr.ctx+":"+x.id(i), types.Typ[types.Bool], v)
		e := x.emit(s, &Event{Kind: "recv", Pos: i.Pos(), Ch: v, Res: r, Block: true, Ok: ok})
		if in := x.ownSent(s, v, e); in != nil {
			r, ok = in, tBool(true)
			e.Res, e.Ok = r, ok
		}
		if i.CommaOk {
			x.set(s, i, tuple([]*Term{r, ok}))
		} else {
			x.set(s, i, r)
		}
	}
	fr.idx++
	return true
}

// ownSent: the value waiting in a channel only this path knows.
func (x *Exec) ownSent(s *State, ch *Term, recv *Event) *Term {
	if ch.Op != "mkchan" || !s.private(ch) {
		return nil
	}
	if n, c := ch.Args[0].Int(); !c || n < 1 {
		return nil
	}
	var made, sent *Event
	for _, e := range s.ev {
		switch {
		case e == recv:
		case e.Kind == "make" && e.Res == ch:
			made, sent = e, nil
		case e.Ch == ch && e.Kind == "send" && sent == nil:
			sent = e
		case e.Ch == ch:
			return nil
		}
		for _, c := range e.Cases {
			if c.Ch == ch {
				return nil
			}
		}
	}
	if made == nil || sent == nil || !sameLoops(made, recv) || !sameLoops(sent, recv) {
		return nil
	}
	return sent.Val
}

func (x *Exec) makeIface(s *State, i *ssa.MakeInterface) *Term {
	v := x.val(s, i.X)
	switch i.X.Type().Underlying().(type) {
	case *types.Pointer:
		if v.IsNil() {
			return mk("iface", typeKey(i.X.Type()), i.Type(), v)
		}
		return v
	}
	if _, _, ok := intKind(i.X.Type()); ok && (v.T == nil || typeKey(v.T) != typeKey(i.X.Type())) {
		return mk("iface", typeKey(i.X.Type()), i.Type(), v)
	}
	if v.Op == "const" || v.Op == "zero" || v.Op == "nil" {
		return mk("iface", typeKey(i.X.Type()), i.Type(), v)
	}
	return v
}

func intKind(t types.Type) (size int64, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	return types.SizesFor("gc", "amd64").Sizeof(b), b.Info()&types.IsUnsigned == 0, true
}

func (x *Exec) convert(s *State, v *Term, from, to types.Type) *Term {
	fs, fsg, ok1 := intKind(from)
	ts, tsg, ok2 := intKind(to)
	if ok1 && ok2 {
		if n, ok := v.Int(); ok && (tsg || n >= 0) && (ts == 8 || (n >= -(1<<(8*uint(ts)-1)) && n < 1<<(8*uint(ts)-1))) {
			return tConst(v.S, to)
		}
		if fsg == tsg && ts >= fs || (!fsg && tsg && ts > fs) {
			return v
		}
		// back to the type the value came from
		if v.T != nil && v.Op != "const" {
			if vs, vsg, ok := intKind(v.T); ok && vs == ts && vsg == tsg && vs < fs {
				return v
			}
		}
		return mk("conv", typeBasic(to), to, v)
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	return mk("conv", types.TypeString(to, func(p *types.Package) string { return p.Name() }), to, v)
}

func typeBasic(t types.Type) string { return t.Underlying().String() }

func (x *Exec) slice(s *State, i *ssa.Slice) *Term {
	b := x.val(s, i.X)
	none := mk("none", "", nil)
	lo, hi, mx := none, none, none
	if i.Low != nil {
		lo = x.val(s, i.Low)
	}
	if i.High != nil {
		hi = x.val(s, i.High)
	}
	if i.Max != nil {
		mx = x.val(s, i.Max)
	}
	// literal slice of a local array: []T{a, b} and variadic arguments
	if b.Op == "new" && lo == none && hi == none && s.private(b) {
		if at, ok := deref(i.X.Type()).Underlying().(*types.Array); ok && at.Len() <= 64 {
			if c := s.mem[b]; c != nil && c.Stored {
				// the array was assigned as a whole
				return mk("slice", "", i.Type(), c.Val, none, none, none)
			}
			var el []*Term
			for k := int64(0); k < at.Len(); k++ {
				el = append(el, x.load(s, mk("iaddr", "", at.Elem(), b, tInt(k)), at.Elem()))
			}
			t := mkObj("arr", "@"+b.S, i.Type(), b, el...)
			return t
		}
	}
	x.emit(s, &Event{Kind: "reslice", Pos: i.Pos(), Val: b, Args: []*Term{lo, hi}})
	if z, ok := lo.Int(); ok && z == 0 {
		lo = none
	}
	if lo == none && hi == none && mx == none {
		if _, isPtr := i.X.Type().Underlying().(*types.Pointer); !isPtr {
			return b
		}
	}
	if i := s.shift[b]; i != nil && lo == none && mx == none && hi != none {
		if d := linDiff(tLen(b), hi); d.isConst() && d.C == 1 {
			return mk("removeat", "", b.T, b, i)
		}
	}
	if hi.Op == "len" && hi.Args[0] == b {
		hi = none
		if lo == none {
			return b
		}
	}
	return mk("slice", "", i.Type(), b, lo, hi, mx)
}

func (x *Exec) lookup(s *State, i *ssa.Lookup) {
	m, k := x.val(s, i.X), x.val(s, i.Index)
	mt := asMap(m.T)
	if mt == nil {
		mt = asMap(i.X.Type())
	}
	if mt == nil {
		x.set(s, i, mk("index", "", i.Type(), m, k))
		return
	}
	v, has := x.mapLookup(s, m, k, mt.Elem())
	if x.alwaysTrue[place(m)] {
		v = has
	}
	if x.neverNil[place(m)] && has.Op == "has" && s.facts.Eval(has) == 0 && onlyValue(i) {
		// presence is told by the value not being nil
		n := s.clone()
		n.facts = n.facts.Add(has, false)
		nf := n.top()
		zero := x.zero(mt.Elem())
		x.emit(n, &Event{Kind: "mapget", Pos: i.Pos(), Map: m, Key: k, Res: zero, Ok: has, Fresh: n.private(m)})
		if i.CommaOk {
			nf.env[i] = tuple([]*Term{zero, tBool(false)})
		} else {
			nf.env[i] = zero
		}
		nf.idx++
		x.work = append(x.work, n)
		s.facts = s.facts.Add(has, true).Add(tEq(v, tNil), false)
	}
	x.emit(s, &Event{Kind: "mapget", Pos: i.Pos(), Map: m, Key: k, Res: v, Ok: has, Fresh: s.private(m)})
	if i.CommaOk {
		x.set(s, i, tuple([]*Term{v, has}))
		return
	}
	x.set(s, i, v)
}

// asMap: the map type t is, or all types of its constraint are.
func asMap(t types.Type) *types.Map {
	if t == nil {
		return nil
	}
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		c, ok := tp.Constraint().Underlying().(*types.Interface)
		if !ok || c.NumEmbeddeds() != 1 {
			return nil
		}
		switch e := c.EmbeddedType(0).(type) {
		case *types.Union:
			if e.Len() == 1 {
				return asMap(e.Term(0).Type())
			}
			return nil
		default:
			return asMap(e)
		}
	}
	m, _ := t.Underlying().(*types.Map)
	return m
}

func (x *Exec) next(s *State, i *ssa.Next) bool {
	fr := s.top()
	it := x.val(s, i.Iter)
	c := it.Args[0]
	tag := "@" + fr.ctx + ":" + x.id(i)
	if len(fr.loops) > 0 {
		fr.loops[len(fr.loops)-1].Mapiter = it
	}
	ok := mk("more", tag, types.Typ[types.Bool], it)
	tt := i.Type().(*types.Tuple)
	if i.IsString {
		k := mk("rkey", tag, tt.At(1).Type(), it)
		v := mk("rval", tag, tt.At(2).Type(), it)
		x.set(s, i, tuple([]*Term{ok, k, v}))
		fr.idx++
		return true
	}
	n := s.clone()
	// exhausted
	n.facts = n.facts.Add(ok, false)
	nf := n.top()
	nf.env[i] = tuple([]*Term{tBool(false), tNil, tNil})
	nf.idx++
	x.emit(n, &Event{Kind: "exhausted", Pos: i.Pos(), Map: c, Res: it})
	x.work = append(x.work, n)
	// one more element
	s.facts = s.facts.Add(ok, true)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	if mt := asMap(c.T); mt != nil {
		kt, vt = mt.Key(), mt.Elem()
	}
	k, v := mk("rkey", tag, kt, it), mk("rval", tag, vt, it)
	st := *x.mapState(s, c)
	st.Ents = append(append([]mapEnt(nil), st.Ents...), mapEnt{Key: k, Pres: 1, Val: v})
	s.maps[c] = &st
	if x.neverNil[place(c)] {
		s.facts = s.facts.Add(tEq(v, tNil), false)
	}
	x.emit(s, &Event{Kind: "mapnext", Pos: i.Pos(), Map: c, Key: k, Val: v, Res: it, Fresh: s.private(c)})
	fr.env[i] = tuple([]*Term{tBool(true), k, v})
	fr.idx++
	return true
}

func (x *Exec) typeAssert(s *State, i *ssa.TypeAssert) bool {
	fr := s.top()
	v := x.val(s, i.X)
	tn := types.TypeString(i.AssertedType, func(p *types.Package) string { return p.Name() })
	r := mk("assert", tn, i.AssertedType, v)
	if v.Op == "new" || v.Op == "faddr" {
		r = v
	}
	if i.CommaOk {
		is := mk("istype", tn, types.Typ[types.Bool], v)
		if v.Op == "new" && v.T != nil && !types.IsInterface(i.AssertedType) {
			is = tBool(types.Identical(i.AssertedType, types.NewPointer(v.T)))
		} else if _, ptr := i.AssertedType.(*types.Pointer); !ptr && !types.IsInterface(i.AssertedType) {
			dyn := ""
			if v.Op == "iface" {
				dyn = v.S
			} else if v.T != nil && v.Op != "load" {
				if _, _, ok := intKind(v.T); ok {
					dyn = typeKey(v.T)
				}
			}
			if dyn != "" {
				is = tBool(dyn == typeKey(i.AssertedType))
				if is.IsTrue() {
					r = v
					if v.Op == "iface" {
						r = v.Args[0]
					}
				}
			}
		}
		x.set(s, i, tuple([]*Term{r, is}))
	} else {
		x.set(s, i, r)
	}
	fr.idx++
	return true
}

func (x *Exec) selectI(s *State, i *ssa.Select) bool {
	fr := s.top()
	var cases []SelCase
	for _, c := range i.States {
		sc := SelCase{Ch: x.val(s, c.Chan), Send: c.Dir == types.SendOnly}
		if c.Send != nil {
			sc.Val = x.val(s, c.Send)
		}
		cases = append(cases, sc)
	}
	tt := i.Type().(*types.Tuple)
	n := len(cases)
	build := func(st *State, idx int) {
		f := st.top()
		rs := []*Term{tInt(int64(idx)), tBool(false)}
		if idx < 0 {
			rs[0] = tInt(-1)
		}
		ri := 2
		ev := &Event{Kind: "select", Pos: i.Pos(), Idx: idx, Cases: cases, Block: i.Blocking, Dflt: !i.Blocking}
		if idx >= 0 {
			ev.Ch = cases[idx].Ch
			ev.Pos = i.States[idx].Pos
			if !ev.Pos.IsValid() {
				ev.Pos = i.Pos()
			}
			if cases[idx].Send {
				ev.Val = cases[idx].Val
			}
		}
		for k, c := range i.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			tag := "@" + f.ctx + ":" + x.id(i) + "." + strconv.Itoa(k)
			r := mk("recv", tag, tt.At(ri).Type(), cases[k].Ch)
			if k == idx {
				ev.Res = r
				ok := mk("recvok", tag, types.Typ[types.Bool], cases[k].Ch)
				ev.Ok = ok
				rs[1] = ok
			} else {
				r = x.zero(tt.At(ri).Type())
			}
			rs = append(rs, r)
			ri++
		}
		x.interfere(st)
		x.emit(st, ev)
		if idx >= 0 && cases[idx].Send {
			st.publish(cases[idx].Val)
		}
		f.env[i] = tuple(rs)
		f.idx++
	}
	idxs := []int{}
	for k := range cases {
		if cases[k].Ch.IsNil() {
			continue // a nil channel is never ready
		}
		idxs = append(idxs, k)
	}
	if !i.Blocking {
		idxs = append(idxs, -1)
	}
	if n == 0 || len(idxs) == 0 {
		x.emit(s, &Event{Kind: "blockforever", Pos: i.Pos()})
		x.finish(s, "halt", nil, i.Pos(), nil, nil)
		return false
	}
	for _, k := range idxs[1:] {
		c := s.clone()
		build(c, k)
		x.work = append(x.work, c)
	}
	build(s, idxs[0])
	_ = fr
	return true
}

// ---- goroutines ----

func (x *Exec) goI(s *State, i *ssa.Go) {
	fn, args := x.callee(s, &i.Call)
	s.publish(fn)
	for _, a := range args {
		s.publish(a)
	}
	e := x.emit(s, &Event{Kind: "go", Pos: i.Pos(), FnT: fn, Args: args, Name: calleeName(&i.Call, fn)})
	if x.disc == nil {
		e.Proc = x.spawn(s, fn, args, "go", e)
	}
}

// spawn analyses the body of fn as a separate entry point.
func (x *Exec) spawn(s *State, fnT *Term, args []*Term, kind string, e *Event) *Proc {
	fn, binds := resolveFn(fnT)
	if fn == nil || len(fn.Blocks) == 0 || !x.inlinable(fn) {
		return nil
	}
	depth := 0
	for p := x.cur; p != nil; p = p.Parent {
		depth++
		if p.Fn == fn && depth > 1 {
			return nil
		}
	}
	if depth > 6 {
		return nil
	}
	init := newState()
	var keys []*Term
	reach := map[*Term]bool{}
	var mark func(t *Term)
	mark = func(t *Term) {
		if t == nil || reach[t] {
			return
		}
		reach[t] = true
		for _, a := range t.Args {
			mark(a)
		}
		if t.Op == "new" {
			for l, c := range s.mem {
				if RootOf(l) == t && (x.stable(s, l) || kind == "callback") {
					mark(c.Val)
				}
			}
		}
	}
	for _, a := range args {
		mark(a)
	}
	for _, b := range binds {
		mark(b)
	}
	for l, c := range s.mem {
		ok := x.stable(s, l)
		if l.Op == "faddr" && !s.pub[RootOf(l)] && RootOf(l).Op == "new" {
			ok = false
		}
		if ok && reach[RootOf(l)] {
			init.mem[l] = &cell{Val: c.Val, T: c.T}
			keys = append(keys, l)
		}
	}
	// what is known about stable values stays known
	for _, f := range s.facts {
		if x.stableTerm(f.Atom) {
			init.facts = append(init.facts, f)
		}
	}
	init.pub = map[*Term]bool{}
	for t := range s.pub {
		init.pub[t] = true
	}
	for t := range reach {
		if t.Op == "new" || strings.HasPrefix(t.Op, "mk") {
			init.pub[t] = true
		}
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].ID < keys[j].ID })
	var kb strings.Builder
	kb.WriteString(kind + fnT.S + ":" + strconv.Itoa(fnT.ID))
	for _, a := range args {
		kb.WriteString("," + strconv.Itoa(a.ID))
	}
	for _, l := range keys {
		kb.WriteString(";" + strconv.Itoa(l.ID) + "=" + strconv.Itoa(init.mem[l].Val.ID))
	}
	for _, f := range init.facts {
		kb.WriteString("?" + strconv.Itoa(f.Atom.ID) + fmt.Sprint(f.Val))
	}
	key := kb.String()
	if p, ok := x.procs[key]; ok {
		return p
	}
	p := &Proc{Name: x.cur.Name + " → " + kind + " " + short(fn.Name()), Kind: kind, Fn: fn, Params: args, Binds: binds, Parent: x.cur, Spawn: e}
	x.procs[key] = p
	p.Ctx = kind + x.idStr(key)
	fr := &Frame{fn: fn, ctx: p.Ctx, env: map[ssa.Value]*Term{}, bind: binds, visits: map[*ssa.BasicBlock]int{}, blk: fn.Blocks[0]}
	for i, pa := range fn.Params {
		if i < len(args) {
			fr.env[pa] = args[i]
		} else {
			v := mk("param", fmt.Sprintf("%s.%s", fn.Name(), pa.Name()), pa.Type())
			fr.env[pa] = v
			p.Params = append(p.Params[:len(p.Params):len(p.Params)], v)
		}
	}
	init.frames = []*Frame{fr}
	p.init = init
	x.explore(p, init)
	x.order = append(x.order, p)
	return p
}

var strIDs = map[string]string{}

func (x *Exec) idStr(k string) string {
	if v, ok := strIDs[k]; ok {
		return v
	}
	strIDs[k] = "g" + strconv.Itoa(len(strIDs))
	return strIDs[k]
}

func (x *Exec) stableTerm(t *Term) bool {
	switch t.Op {
	case "load":
		l := t.Args[0]
		if l.Op == "faddr" {
			return !x.isMut(l) && x.stableTerm(l.Args[0])
		}
		return false
	case "lookup", "has", "maplen", "phi", "hv", "more", "rkey", "rval":
		return false
	}
	for _, a := range t.Args {
		if !x.stableTerm(a) {
			return false
		}
	}
	return true
}

func resolveFn(t *Term) (*ssa.Function, []*Term) {
	switch t.Op {
	case "closure":
		f := t.Obj.(*ssa.Function)
		return origin(f), t.Args
	case "func":
		return origin(t.Obj.(*ssa.Function)), nil
	}
	return nil, nil
}

func origin(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil && len(o.Blocks) > 0 {
		return o
	}
	return f
}

// indexLimit: what an index into a value of the type has to stay below.
func indexLimit(t types.Type, b *Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return tInt(a.Len())
		}
	case *types.Array:
		return tInt(u.Len())
	case *types.Slice, *types.Basic:
		return tLen(b)
	}
	return nil
}

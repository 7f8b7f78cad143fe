package main

import "go/types"

// Loop invariants for index arithmetic: upper and lower bounds of integer loop
// variables, and the length of lists a loop builds next to a counter.

type loopAt struct {
	t *Trace
	e *Event // the entry of the loop
}

type loopBounds struct {
	at    map[*Term][]loopAt // loop variable -> where its loop is entered
	known map[*Term]Facts
	busy  map[*Term]bool
	// facts that hold at every point (configuration)
	base func(Facts, ...*Term) Facts
}

func newLoopBounds(procs []*Proc, base func(Facts, ...*Term) Facts) *loopBounds {
	b := &loopBounds{at: map[*Term][]loopAt{}, known: map[*Term]Facts{}, busy: map[*Term]bool{}, base: base}
	for _, p := range procs {
		for _, t := range p.Traces {
			for _, e := range t.of("loopenter") {
				if e.Loop == nil {
					continue
				}
				for _, v := range e.Loop.Phis {
					old := b.at[v.Term]
					if len(old) > 0 && old[len(old)-1].e == e {
						continue
					}
					b.at[v.Term] = append(old, loopAt{t, e})
				}
			}
		}
	}
	return b
}

// of: what is known about a loop variable wherever it occurs.
func (b *loopBounds) of(v *Term) Facts {
	if f, ok := b.known[v]; ok {
		return f
	}
	if b.busy[v] || len(b.at[v]) == 0 {
		return nil
	}
	b.busy[v] = true
	defer delete(b.busy, v)
	var f Facts
	switch {
	case v.T != nil && isIntType(v.T):
		f = b.number(v)
	default:
		f = b.list(v)
	}
	b.known[v] = f
	return f
}

func (b *loopBounds) insts(v *Term) []*LoopInst {
	var out []*LoopInst
	seen := map[*LoopInst]bool{}
	for _, a := range b.at[v] {
		if !seen[a.e.Loop] {
			seen[a.e.Loop] = true
			out = append(out, a.e.Loop)
		}
	}
	return out
}

func (b *loopBounds) number(v *Term) Facts {
	insts := b.insts(v)
	seen := map[*Term]bool{}
	var cands []*Term
	cand := func(u *Term) {
		if u != nil && !seen[u] && fixedIn(u, v, insts) {
			seen[u] = true
			cands = append(cands, u)
		}
	}
	cand(tInt(0))
	cand(tInt(-1))
	for _, l := range insts {
		lv := l.Var(v)
		if lv == nil || lv.Init == nil || l.open(lv) || len(l.Iters) == 0 {
			return nil
		}
		cand(lv.Init)
		fs := []Facts{}
		for _, it := range l.Iters {
			fs = append(fs, it.Facts)
		}
		for _, ex := range l.Exits {
			fs = append(fs, ex.Facts)
		}
		for _, f := range fs {
			for _, x := range f {
				if x.Atom.Op != "lt" && x.Atom.Op != "eq" || len(x.Atom.Args) != 2 {
					continue
				}
				for i, a := range x.Atom.Args {
					d := linDiff(a, v)
					if !d.isConst() || !numericAtom(x.Atom) {
						continue
					}
					o := x.Atom.Args[1-i]
					cand(o)
					cand(tAdd(o, -d.C))
				}
			}
		}
	}
	var out Facts
	for _, u := range cands {
		for _, up := range []bool{true, false} {
			if b.bound(v, u, up) {
				if up {
					out = out.Add(tLt(u, v), false)
				} else {
					out = out.Add(tLt(v, u), false)
				}
			}
		}
	}
	return b.inStep(v, insts, out)
}

// inStep: other counters of the same loop that always differ from v by the
// same amount.
func (b *loopBounds) inStep(v *Term, insts []*LoopInst, out Facts) Facts {
next:
	for _, n := range insts[0].Phis {
		if n.Term == v || n.Term.T == nil || !isIntType(n.Term.T) {
			continue
		}
		var diff *Lin
		for _, a := range b.at[v] {
			lv, ln := a.e.Loop.Var(v), a.e.Loop.Var(n.Term)
			if lv == nil || ln == nil || lv.Init == nil || ln.Init == nil || a.e.Loop.open(ln) {
				continue next
			}
			d := linDiff(lv.Init, ln.Init)
			if !d.isConst() || diff != nil && diff.C != d.C {
				continue next
			}
			diff = d
		}
		for _, l := range insts {
			for _, it := range l.Iters {
				x, m := it.Next[v], it.Next[n.Term]
				if x == nil || m == nil {
					continue next
				}
				d := linDiff(x, v)
				d.add(linDiff(m, n.Term), -1)
				if !d.isZero() {
					continue next
				}
			}
		}
		if diff == nil {
			continue
		}
		out = out.Add(tEq(v, tAdd(n.Term, diff.C)), true)
		for _, g := range b.of(n.Term) {
			out = out.Add(g.Atom, g.Val)
		}
	}
	return out
}

// bound: v <= u (or v >= u) holds at every head of its loop.
func (b *loopBounds) bound(v, u *Term, up bool) bool {
	le := func(f Facts, x *Term) bool {
		f = b.base(f, x, u)
		if up {
			return f.ProveLE(x, u, 0)
		}
		return f.ProveLE(u, x, 0)
	}
	for _, a := range b.at[v] {
		lv := a.e.Loop.Var(v)
		if lv.Init != u && !le(a.t.at(a.e), lv.Init) {
			return false
		}
	}
	for _, l := range b.insts(v) {
		for _, it := range l.Iters {
			nx := it.Next[v]
			if nx == nil {
				return false
			}
			f := it.Facts
			if up {
				f = f.Add(tLt(u, v), false)
			} else {
				f = f.Add(tLt(v, u), false)
			}
			if nx != v && !le(f, nx) {
				return false
			}
		}
	}
	return true
}

// fixedIn: the value of u is the same in every round of the loops.
func fixedIn(u, v *Term, insts []*LoopInst) bool {
	ok := true
	u.Any(func(x *Term) bool {
		switch x.Op {
		case "const", "zero", "nil", "bin", "neg", "len", "cap", "faddr", "conv", "slot", "param", "global", "none":
		case "load":
			if x.ID < v.ID {
				return false
			}
			for _, l := range insts {
				for _, it := range l.Iters {
					for _, e := range it.Events {
						if e.Seq < l.Events {
							continue
						}
						switch e.Kind {
						case "lock", "unlock", "callback", "call", "select", "recv", "send", "wait", "panic", "once":
							if e.Kind == "call" && pureCall(e.Name) {
								continue
							}
							ok = ok && x.Args[0].Op == "new"
						case "store":
							if e.Loc == x.Args[0] || e.Loc.Op == "faddr" && x.Args[0].Op == "faddr" && e.Loc.S == x.Args[0].S {
								ok = false
							}
						}
					}
				}
			}
		default:
			if x.ID >= v.ID {
				ok = false
			}
		}
		return !ok
	})
	return ok
}

func pureCall(n string) bool {
	switch n {
	case "time.Now", "time.Since", "(time.Time).Sub", "(time.Time).Add", "(time.Time).Before", "(time.Time).After":
		return true
	}
	return false
}

// lenLin: the length of a list as a linear form.
func lenLin(s *Term) *Lin {
	r := newLin()
	switch s.Op {
	case "append":
		r.add(lenLin(s.Args[0]), 1)
		r.C += int64(len(s.Args) - 1)
	case "mkslice":
		r.add(lin(s.Args[0]), 1)
	case "nil", "zero":
	case "arr":
		r.C = int64(len(s.Args))
	case "removeat":
		r.add(lenLin(s.Args[0]), 1)
		r.C--
	default:
		r.add(lin(tLen(s)), 1)
	}
	return r
}

// list: a list that grows in step with a counter of the same loop.
func (b *loopBounds) list(v *Term) Facts {
	insts := b.insts(v)
	if len(insts) == 0 {
		return nil
	}
	var out Facts
next:
	for _, n := range insts[0].Phis {
		if n.Term == v || n.Term.T == nil || !isIntType(n.Term.T) {
			continue
		}
		var diff *Lin
		for _, a := range b.at[v] {
			lv, ln := a.e.Loop.Var(v), a.e.Loop.Var(n.Term)
			if lv == nil || ln == nil || lv.Init == nil || ln.Init == nil || a.e.Loop.open(lv) || a.e.Loop.open(ln) {
				continue next
			}
			d := newLin()
			d.add(lenLin(lv.Init), 1)
			d.add(lin(ln.Init), -1)
			if !d.isConst() || diff != nil && diff.C != d.C {
				continue next
			}
			diff = d
		}
		for _, l := range insts {
			if len(l.Iters) == 0 {
				continue next
			}
			for _, it := range l.Iters {
				x, m := it.Next[v], it.Next[n.Term]
				if x == nil || m == nil {
					continue next
				}
				d := newLin()
				d.add(lenLin(x), 1)
				d.add(lin(m), -1)
				d.add(lin(tLen(v)), -1)
				d.add(lin(n.Term), 1)
				if !d.isZero() {
					continue next
				}
			}
		}
		if diff != nil {
			out = out.Add(tEq(tLen(v), tAdd(n.Term, diff.C)), true)
			for _, g := range b.of(n.Term) {
				out = out.Add(g.Atom, g.Val)
			}
		}
	}
	return out
}

func isSliceType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// open: the loop variable lives in memory others can change during the loop.
func (l *LoopInst) open(v *LoopVar) bool {
	if v.Loc == nil {
		return false
	}
	o := v.Loc
	for o.Op == "faddr" {
		o = o.Args[0]
	}
	if o.Op != "new" {
		return true
	}
	for _, it := range l.Iters {
		if it.Pub[o] || it.Pub[v.Loc] {
			return true
		}
	}
	return false
}

// rounds: a counter of a loop over a map has counted no more rounds than the
// map has entries, and fewer while there is one more.
func (b *loopBounds) rounds(v *Term, f Facts) Facts {
	if v.T == nil || !isIntType(v.T) {
		return f
	}
	for _, a := range b.at[v] {
		l := a.e.Loop
		lv := l.Var(v)
		if l.Mapiter == nil || lv == nil || lv.Init == nil || l.open(lv) || len(l.Iters) == 0 {
			return f
		}
		for _, it := range l.Iters {
			nx := it.Next[v]
			if nx == nil {
				return f
			}
			if d := linDiff(nx, v); !d.isConst() || d.C != 0 && d.C != 1 {
				return f
			}
			for _, e := range it.of("mapset") {
				if e.Seq >= l.Events {
					return f
				}
			}
		}
	}
	for _, a := range b.at[v] {
		l := a.e.Loop
		init := l.Var(v).Init
		var size *Term
		for _, e := range a.t.Events {
			switch e.Kind {
			case "maplen":
				if e.Map == l.Mapiter.Args[0] {
					size = e.Res
				}
			case "maprange":
				if e.Res == l.Mapiter && size != nil {
					more, here := false, false
					for _, x := range f {
						if x.Atom.Op == "more" && x.Atom.Args[0] == l.Mapiter {
							more, here = more || x.Val, true
						}
					}
					if !here {
						continue
					}
					top := mk("bin", "+", v.T, size, init)
					if d := lin(init); d.isConst() {
						top = tAdd(size, d.C)
					}
					if more {
						f = f.Add(tLt(v, top), true)
					} else {
						f = f.Add(tLt(top, v), false)
					}
				}
			case "mapset", "unlock", "lock", "callback", "select", "recv", "send", "wait":
				size = nil
			}
		}
	}
	return f
}

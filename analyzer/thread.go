package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A loop steered by a flag ("for !done", "for i < n && !found") is left right
// after the iteration that sets the flag. thread walks the tests at the top of
// the loop with the values the next iteration would start with: the states
// that leave without running anything of the body are taken out of the loop
// there and then, the others are returned as genuine back edges.
func (x *Exec) thread(s *State, from, to *ssa.BasicBlock, l *LoopInst) []*State {
	fr := s.top()
	ctl := x.flagPhis(to, l.Blocks)
	if len(ctl) == 0 && !x.flagLoad(to, l.Blocks) {
		return []*State{s}
	}
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	states := []*State{s}
	for _, ph := range ctl {
		if fr.env[ph] == x.val(s, ph.Edges[pi]) {
			continue
		}
		var out []*State
		for _, n := range states {
			v := x.val(n, ph.Edges[pi])
			yes, no := x.fork(n, v)
			if yes != nil && no != nil {
				x.emit(yes, &Event{Kind: "branch", Pos: blockPos(from), Val: v, Write: true})
				x.emit(no, &Event{Kind: "branch", Pos: blockPos(from), Val: v, Write: false})
			}
			if yes != nil {
				out = append(out, yes)
			}
			if no != nil {
				out = append(out, no)
			}
		}
		states = out
	}
	var stay []*State
	for _, n := range states {
		exits, ok := x.walkHeader(n, from, to, l)
		if !ok {
			stay = append(stay, n)
			continue
		}
		for _, e := range exits {
			if x.jump(e.s, e.to) {
				x.work = append(x.work, e.s)
			}
		}
	}
	return stay
}

type hexit struct {
	s  *State
	to *ssa.BasicBlock
}

// walkHeader runs the tests at the top of the loop; ok when every feasible way
// through them leaves the loop and one of them is decided by a flag.
func (x *Exec) walkHeader(s *State, from, hdr *ssa.BasicBlock, l *LoopInst) (exits []hexit, ok bool) {
	n := s.clone()
	x.phis(n, from, hdr)
	f := n.top()
	f.prev, f.blk, f.idx = from, hdr, countPhis(hdr)
	work := []*State{n}
	byFlag := false
	for steps := 0; len(work) > 0; steps++ {
		if steps > 200 {
			return nil, false
		}
		c := work[len(work)-1]
		work = work[:len(work)-1]
		f := c.top()
		in := f.blk.Instrs[f.idx]
		var succ *ssa.BasicBlock
		switch i := in.(type) {
		case *ssa.If:
			v := x.val(c, i.Cond)
			yes, no := x.fork(c, v)
			b := f.blk
			if yes != nil && no != nil {
				x.emit(yes, &Event{Kind: "branch", Pos: i.Pos(), Val: v, Write: true})
				x.emit(no, &Event{Kind: "branch", Pos: i.Pos(), Val: v, Write: false})
			} else if flagOf(i.Cond, hdr) {
				byFlag = true
			}
			for k, st := range []*State{yes, no} {
				if st == nil {
					continue
				}
				if !l.Blocks[b.Succs[k]] {
					exits = append(exits, hexit{st, b.Succs[k]})
					continue
				}
				if b.Succs[k] == hdr {
					return nil, false
				}
				x.phis(st, b, b.Succs[k])
				g := st.top()
				g.prev, g.blk, g.idx = b, b.Succs[k], countPhis(b.Succs[k])
				work = append(work, st)
			}
			continue
		case *ssa.Jump:
			succ = f.blk.Succs[0]
			if !l.Blocks[succ] {
				exits = append(exits, hexit{c, succ})
				continue
			}
			if succ == hdr || l.Header != hdr {
				return nil, false
			}
			b := f.blk
			x.phis(c, b, succ)
			f.prev, f.blk, f.idx = b, succ, countPhis(succ)
			work = append(work, c)
			continue
		}
		if !headerStep(in) {
			return nil, false
		}
		if !x.step(c) {
			return nil, false
		}
		work = append(work, c)
	}
	return exits, byFlag && len(exits) > 0
}

// headerStep: the instruction only computes.
func headerStep(in ssa.Instruction) bool {
	switch i := in.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.FieldAddr, *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		return i.Op.String() != "<-"
	case *ssa.Call:
		b, ok := i.Call.Value.(*ssa.Builtin)
		return ok && (b.Name() == "len" || b.Name() == "cap")
	}
	return false
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// flagOf: the condition is a variable of its own, perhaps negated.
func flagOf(v ssa.Value, hdr *ssa.BasicBlock) bool {
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op.String() != "!" {
			break
		}
		v = u.X
	}
	switch w := v.(type) {
	case *ssa.Phi:
		return w.Block() == hdr
	case *ssa.UnOp:
		return w.Op.String() == "*"
	}
	return false
}

// headRegion: the conditions tested before the body does anything.
func headRegion(hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (conds []ssa.Value) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || !body[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs[countPhis(b):] {
			switch i := in.(type) {
			case *ssa.If:
				conds = append(conds, i.Cond)
			case *ssa.Jump:
			default:
				if !headerStep(in) {
					return
				}
			}
		}
		for _, n := range b.Succs {
			walk(n)
		}
	}
	walk(hdr)
	return
}

func (x *Exec) flagPhis(hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (out []*ssa.Phi) {
	for _, v := range headRegion(hdr, body) {
		for {
			u, ok := v.(*ssa.UnOp)
			if !ok || u.Op.String() != "!" {
				break
			}
			v = u.X
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == hdr && isBool(ph.Type()) {
			dup := false
			for _, o := range out {
				dup = dup || o == ph
			}
			if !dup {
				out = append(out, ph)
			}
		}
	}
	return
}

func (x *Exec) flagLoad(hdr *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for _, v := range headRegion(hdr, body) {
		if flagOf(v, hdr) {
			return true
		}
	}
	return false
}

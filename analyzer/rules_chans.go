package main

import (
	"go/types"
	"strconv"
)

// Rules for the channel pipelines (C01..C05) and the worker pool (W01).

// pipe is one pipeline type: its builder, the places its channels live in and
// every path of its entry points and goroutines.
type pipe struct {
	*Chk
	Build *Proc
	Procs []*Proc
	ctx   map[string]bool
	keep  map[*Term]map[string]bool
	elem  map[*Term]*Event   // what a construction stored in a collection
	app   map[*Term]appended // elements appended one per iteration
	list  map[*Term]string   // loop variables standing for such lists
}

func (c *Chk) pipe(build string, procs []*Proc, ctx map[string]bool) *pipe {
	p := &pipe{Chk: c, Build: c.P(build), Procs: procs, ctx: ctx, keep: map[*Term]map[string]bool{}, elem: map[*Term]*Event{}, app: map[*Term]appended{}, list: map[*Term]string{}}
	for _, q := range procs {
		for _, t := range q.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op != "faddr" {
					continue
				}
				if p.keep[e.Val] == nil {
					p.keep[e.Val] = map[string]bool{}
				}
				p.keep[e.Val][e.Loc.S] = true
			}
			for _, e := range t.Events {
				if e.Kind == "mapset" || e.Kind == "store" && e.Loc.Op == "iaddr" {
					if old := p.elem[e.Val]; old != nil && (old.Key != e.Key || old.Loc != e.Loc) {
						p.elem[e.Val] = &Event{}
					} else {
						p.elem[e.Val] = e
					}
				}
			}
		}
	}
	// lists a construction fills by appending one element per iteration
	if p.Build == nil {
		return p
	}
	for _, t := range p.Build.Traces {
		for _, inst := range t.loopsIn() {
			for _, v := range inst.Phis {
				if !appendsOne(inst, v) {
					continue
				}
				coll := place2(t, v.Term)
				for _, u := range p.Build.Traces {
					for _, e := range u.of("store") {
						if coll == "" && e.Loc.Op == "faddr" && e.Val == v.Term {
							coll = e.Loc.S
						}
					}
				}
				idx := startsAtZero(inst)
				if coll == "" || idx == nil {
					continue
				}
				p.list[v.Term] = coll
				for _, it := range inst.Iters {
					p.app[it.Next[v.Term].Args[1]] = appended{coll, idx}
				}
			}
		}
	}
	return p
}

type appended struct {
	coll string
	idx  *Term
}

// appendsOne: every iteration adds one element to the list, which starts empty.
func appendsOne(inst *LoopInst, v *LoopVar) bool {
	if v.Init == nil || !normList(v.Init).isEmpty2() || len(inst.Iters) == 0 {
		return false
	}
	for _, it := range inst.Iters {
		nx := it.Next[v.Term]
		if nx == nil || nx.Op != "append" || nx.Args[0] != v.Term || len(nx.Args) != 2 {
			return false
		}
	}
	return true
}

// startsAtZero: the number of the iteration, counted from zero.
func startsAtZero(inst *LoopInst) *Term {
	for _, v := range inst.Phis {
		if inst.sharedVar(v) || v.Init == nil || v.Term.T == nil || !isIntType(v.Term.T) {
			continue
		}
		k, c := v.Init.Int()
		if st, ok := inductionStep(inst, v); c && ok && st == 1 {
			return tAdd(v.Term, -k)
		}
	}
	return nil
}

// in: the term is (read from, or stored in) the field.
func (p *pipe) in(v *Term, field string) bool {
	return v != nil && field != "" && (place(v) == field || p.keep[v][field])
}

// getter: the field an accessor without parameters returns.
func (c *Chk) getter(name string) string {
	p := c.P(name)
	out := ""
	for _, t := range returns(p) {
		if len(t.Ret) == 1 {
			out = place(t.Ret[0])
		}
	}
	return out
}

// slotOf: v is the element of a collection kept in a field; returns the field
// and the index or key.
func slotOf(v *Term) (string, *Term) {
	if v == nil {
		return "", nil
	}
	if v.Op == "lookup" {
		return place(v.Args[0]), v.Args[1]
	}
	if l, i, ok := elemIndex(v); ok {
		return place(l), i
	}
	return "", nil
}

// slot also knows the values a construction stored in a collection.
func (p *pipe) slot(v *Term) (string, *Term) {
	if f, i := slotOf(v); f != "" {
		return f, i
	}
	if l, i, ok := elemIndex(v); ok && p.list[l] != "" {
		return p.list[l], i
	}
	if a, ok := p.app[v]; ok && (v.Op == "mkchan" || v.Op == "new") {
		return a.coll, a.idx
	}
	switch e := p.elem[v]; {
	case e == nil || v.Op != "mkchan" && v.Op != "new":
	case e.Kind == "mapset":
		return place(e.Map), e.Key
	case e.Kind == "store":
		return place(e.Loc.Args[0]), e.Loc.Args[1]
	}
	return "", nil
}

// received: the channel values a path took in, in order.
func (t *Trace) received(is func(ch *Term) bool) []*Event {
	var out []*Event
	for _, e := range t.of("recv", "select") {
		if e.Kind == "select" && (e.Idx < 0 || e.Idx >= len(e.Cases) || e.Cases[e.Idx].Send) {
			continue
		}
		if is(e.Ch) {
			out = append(out, e)
		}
	}
	return out
}

// closedRecv: the path saw that the received value only reports a closed channel.
func (t *Trace) closedRecv(e *Event) bool { return e.Ok != nil && t.truth(e.Ok) == -1 }

// sends: the values a path put on matching channels.
func (t *Trace) sends(is func(ch *Term) bool) []*Event {
	var out []*Event
	for _, e := range t.of("send", "select") {
		if e.Kind == "select" && (e.Idx < 0 || e.Idx >= len(e.Cases) || !e.Cases[e.Idx].Send) {
			continue
		}
		if is(e.Ch) {
			out = append(out, e)
		}
	}
	return out
}

// ended: the path saw, after seq, that a context has ended.
func (t *Trace) ended(ctx map[string]bool, seq int) bool {
	for _, e := range t.received(func(*Term) bool { return true }) {
		if isDone(e, ctx) && e.Seq > seq {
			return true
		}
	}
	for _, e := range t.of("call") {
		if e.Name == "(context.Context).Err" && e.Seq > seq && e.Res != nil && ctxFrom(e.Args[0], ctx) && t.nonNilErr(e.Res) {
			return true
		}
	}
	return false
}

// gaveUp: the path saw that the context has ended and did not just sit there
// waiting for that, with nothing else it could go on with.
func (t *Trace) gaveUp(ctx map[string]bool, seq int) bool {
	if !t.ended(ctx, seq) {
		return false
	}
	for _, e := range t.received(func(*Term) bool { return true }) {
		if !isDone(e, ctx) || e.Seq <= seq {
			continue
		}
		if e.Kind == "select" && e.Dflt {
			return true
		}
		for i, c := range e.Cases {
			if i != e.Idx && c.Ch != nil && t.truth(tEq(c.Ch, tNil)) != 1 && !isNilVal(c.Ch) {
				return true
			}
		}
		return false
	}
	return true
}

// cycle: the events of the generic iteration a back path describes, or of the
// whole path otherwise.
func (t *Trace) cycle() []*Event {
	if t.End != "back" {
		return t.Events
	}
	en := t.enter(t.Loop)
	if en == nil {
		return t.Events
	}
	var out []*Event
	for _, e := range t.Events {
		if e.Seq > en.Seq {
			out = append(out, e)
		}
	}
	return out
}

// afterEnter: the event belongs to the iteration a back path describes.
func (t *Trace) inCycle(e *Event) bool {
	if t.End != "back" {
		return true
	}
	en := t.enter(t.Loop)
	return en == nil || e.Seq > en.Seq
}

// spawned: the goroutines of a kind started on a path outside its iteration
// (for back paths: inside it).
func (t *Trace) spawned(is func(p *Proc) bool) []*Event {
	var out []*Event
	for _, e := range t.of("go") {
		if e.Proc == nil || !is(e.Proc) {
			continue
		}
		if t.End == "back" && !t.inCycle(e) {
			continue
		}
		out = append(out, e)
	}
	return out
}

// onlyGo: exactly one goroutine of the kind is started by every successful
// construction, and none in a loop.
func (c *Chk) onlyGo(rule, what string, build *Proc, is func(p *Proc) bool, want func(t *Trace) int) {
	for _, t := range build.Traces {
		switch t.End {
		case "return":
			if len(t.Ret) == 0 || isNilVal(t.Ret[0]) {
				c.check(rule, len(t.spawned(is)) == 0, t, nil, "a construction that fails starts %s", what)
				continue
			}
			w := want(t)
			if w < 0 {
				continue
			}
			c.check(rule, len(t.spawned(is)) == w, t, nil, "construction starts %d instead of %d goroutines as %s", len(t.spawned(is)), w, what)
		case "back":
			for _, e := range t.spawned(is) {
				c.check(rule, false, t, e, "%s is started once per loop iteration", what)
			}
		}
	}
}

func one(*Trace) int { return 1 }

// perIndex: a construction starts exactly one goroutine of the kind for every
// index 0..n-1, where n is kept in one of the fields; idx gives the index a
// goroutine serves.
func (c *Chk) perIndex(rule, what string, build *Proc, is func(p *Proc) bool, count map[string]bool, skip func(t *Trace) bool) {
	for _, t := range build.Traces {
		if t.End == "back" {
			n := len(t.spawned(is))
			c.check(rule, n <= 1, t, nil, "one iteration starts %d goroutines as %s", n, what)
			continue
		}
		if t.End != "return" {
			continue
		}
		c.check(rule, len(t.spawned(is)) == 0, t, nil, "%s is started outside the loop over the configured count", what)
		if len(t.Ret) == 0 || isNilVal(t.Ret[0]) {
			continue
		}
		if skip != nil && skip(t) {
			continue
		}
		n := 0
		var last *LoopInst
		for _, inst := range t.loopsIn() {
			all, some := len(inst.Iters) > 0, false
			for _, it := range inst.Iters {
				k := len(it.spawned(is))
				some = some || k > 0
				all = all && (k == 1 || k == 0 && skip != nil && skip(it))
			}
			if !some {
				continue
			}
			n++
			last = inst
			ok := false
			for _, v := range inst.Phis {
				if !inst.sharedVar(v) && c.countsTo(t, inst, v.Term, count) {
					ok = true
				}
			}
			c.check(rule, all && ok, t, t.enter(inst), "%s is not started exactly once for each of the configured count", what)
		}
		_ = last
		c.check(rule, n == 1, t, nil, "%s is started by %d loops instead of one over the configured count", what, n)
	}
}

// countsTo: the loop runs exactly as often as the configured count says, with
// v its counter starting at zero, and this path left it exhausted.
// within: no iteration lies outside [0,n).
func within(inst *LoopInst, v, n *Term) bool {
	if inst.Mapiter != nil {
		return true
	}
	for _, it := range inst.Iters {
		if !it.Facts.ProveLT(v, n) && !it.Facts.ProveLE(v, n, -1) || !nonNeg(it, inst, v) {
			return false
		}
	}
	return len(inst.Iters) > 0
}

// nonNeg: the index starts at zero or above and only grows, or is tested.
func nonNeg(it *Trace, inst *LoopInst, v *Term) bool {
	if it.Facts.ProveLE(tInt(0), v, 0) {
		return true
	}
	for _, x := range inst.Phis {
		if inst.sharedVar(x) || x.Init == nil {
			continue
		}
		d := linDiff(v, x.Term)
		st, ok := inductionStep(inst, x)
		if !d.isConst() || !ok || st < 0 {
			continue
		}
		first := newLin()
		first.add(lin(x.Init), 1)
		if first.isConst() && first.C+d.C >= 0 {
			return true
		}
	}
	return false
}

func (c *Chk) countsTo(t *Trace, inst *LoopInst, v *Term, count map[string]bool) bool {
	for _, n := range c.countTerms(t, inst, count) {
		// counters that run from zero, from one, or are stepped before their use
		for _, x := range []*Term{v, mk("bin", "-", types.Typ[types.Int], v, tInt(1)), mk("bin", "+", types.Typ[types.Int], v, tInt(1))} {
			if covers(inst, n, x) && within(inst, x, n) && t.leftExhausted(inst, x, n) {
				return true
			}
		}
	}
	return false
}

// countTerms: the terms in the loop's exit decisions that stand for the count.
func (c *Chk) countTerms(t *Trace, inst *LoopInst, count map[string]bool) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(x *Term) {
		if !seen[x] && (fromField(x, count) || x.Op == "param" && count["param:"+x.S]) {
			seen[x] = true
			out = append(out, x)
		}
	}
	for _, ex := range inst.Exits {
		for _, f := range ex.Facts {
			f.Atom.Any(func(x *Term) bool { add(x); return false })
			for _, a := range f.Atom.Args {
				if a.Op == "len" && len(a.Args) == 1 && a.Args[0].Op == "mkslice" {
					a.Args[0].Args[0].Any(func(x *Term) bool { add(x); return false })
				}
				if a.Op == "len" && len(a.Args) == 1 && !seen[a] && c.filled(t, inst, a.Args[0], count) {
					seen[a] = true
					out = append(out, a)
				}
			}
		}
	}
	for _, v := range inst.Phis {
		if v.Init != nil {
			v.Init.Any(func(x *Term) bool { add(x); return false })
		}
	}
	return out
}

// filled: an earlier loop appended as many elements to the list as the count
// says.
func (c *Chk) filled(t *Trace, inst *LoopInst, list *Term, count map[string]bool) bool {
	for _, l := range t.loopsIn() {
		if l == inst {
			break
		}
		v := l.Var(list)
		if v == nil || !appendsOne(l, v) {
			continue
		}
		for _, x := range l.Phis {
			if !l.sharedVar(x) && x != v && x.Term.T != nil && isIntType(x.Term.T) && c.countsTo(t, l, x.Term, count) {
				return true
			}
		}
	}
	return false
}

// ---- delivery of what was received ----

// flat resolves a slice value into the tokens it consists of: slices carried
// from before (loop variables) and single items.
func (t *Trace) flat(v *Term, seq int) ([]*Term, bool) {
	n := normList(v)
	if n.Bulk || n.Cut != nil || len(n.Removed) > 0 || n.Drop > 0 {
		return nil, false
	}
	var out []*Term
	if b := n.Base; b != nil {
		switch {
		case b.IsCall("slices.Clone", "bytes.Clone") && len(b.Args) == 1:
			l, ok := t.flat(b.Args[0], seq)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		case b.Op == "zero":
		case t.Facts.Eval(tEq(tLen(b), tInt(0))) == 1:
		case b.Op == "mkslice":
			src := t.copiedInto(b, seq)
			if src == nil {
				return nil, false
			}
			l, ok := t.flat(src, seq)
			if !ok {
				return nil, false
			}
			out = append(out, l...)
		default:
			out = append(out, b)
		}
	}
	return append(out, n.App...), true
}

// copiedInto: the slice whose content fills the made slice exactly.
func (t *Trace) copiedInto(m *Term, seq int) *Term {
	var src *Term
	for _, e := range t.Events {
		if e.Seq >= seq {
			break
		}
		if e.Kind == "copy" && e.Loc == m {
			if src != nil || e.Val == nil || !linDiff(tLen(m), tLen(e.Val)).isZero() {
				return nil
			}
			src = e.Val
		}
		if e.Kind == "store" && e.Loc.Op == "iaddr" && e.Loc.Args[0] == m {
			return nil
		}
	}
	return src
}

func (l *Lin) isZero() bool { return l.isConst() && l.C == 0 }

func sameTokens(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// backing names the array a slice value shares memory with; nil when it has
// none of its own yet or a fresh one nobody else knows.
func backing(v *Term) *Term {
	for v != nil {
		switch v.Op {
		case "append":
			if n := v.Args[0]; n.Op == "nil" || n.Op == "zero" {
				return nil
			}
			v = v.Args[0]
		case "appends":
			if n := v.Args[0]; n.Op == "nil" || n.Op == "zero" {
				return nil
			}
			v = v.Args[0]
		case "slice":
			if m := v.Args[3]; m != nil && isZero(m) {
				return nil
			}
			v = v.Args[0]
		case "nil", "zero", "arr":
			return nil
		case "call":
			return nil
		default:
			return v
		}
	}
	return nil
}

// mover is the goroutine that turns items into chunks.
type mover struct {
	*pipe
	In, Out string
	Proc    *Proc
	Bufs    map[*LoopInst]*LoopVar
	size    map[string]bool
	dur     map[string]bool
	weak    map[*LoopInst]bool // the buffer may be full at the head of the loop
}

func (m *mover) isIn(ch *Term) bool  { return m.in(ch, m.In) }
func (m *mover) isOut(ch *Term) bool { return m.in(ch, m.Out) }

type owed struct {
	Rule string
	E    *Event
	Msg  string
}

// walk follows one path and compares what it owes (received, not yet sent)
// with what it sends and carries over. visit is told the state at each event.
func (m *mover) walk(t *Trace, visit func(e *Event, owes []*Term, clock bool)) *owed {
	var owes []*Term
	clock := false // a timeout fired after the last item came in
	var stack []*LoopInst
	for _, e := range t.Events {
		switch e.Kind {
		case "loopenter":
			stack = append(stack, e.Loop)
			b := m.Bufs[e.Loop]
			if b == nil {
				break
			}
			l, ok := t.flat(b.Init, e.Seq)
			if !ok || !sameTokens(l, owes) {
				return &owed{"carried", e, "items received before the loop are not all in the buffer the loop starts with"}
			}
			owes = []*Term{b.Term}
			clock = false
		}
		if visit != nil {
			visit(e, owes, clock)
		}
		switch {
		case e.Kind == "recv" || e.Kind == "select" && e.Idx >= 0 && e.Idx < len(e.Cases) && !e.Cases[e.Idx].Send:
			if m.isIn(e.Ch) && !t.closedRecv(e) {
				owes = append(owes[:len(owes):len(owes)], e.Res)
				clock = false
			} else if t.clockOf(e.Ch) != nil || m.clockVar(t, e.Ch) != nil {
				clock = true
			}
		case e.Kind == "send" || e.Kind == "select" && e.Idx >= 0 && e.Idx < len(e.Cases) && e.Cases[e.Idx].Send:
			if !m.isOut(e.Ch) {
				break
			}
			v := e.Val
			if v == nil {
				v = e.Cases[e.Idx].Val
			}
			l, ok := t.flat(v, e.Seq)
			if !ok {
				return &owed{"sent", e, "the chunk sent is not made of the received items in order"}
			}
			cur := m.clean(t, owes)
			if len(l) > len(cur) || !sameTokens(l, cur[:len(l)]) {
				return &owed{"sent", e, "the chunk sent is not what was received and not yet sent, in order"}
			}
			owes = cur[len(l):]
		}
	}
	if t.End != "back" {
		return nil
	}
	b := m.Bufs[t.Loop]
	cur := m.clean(t, owes)
	if b == nil {
		if len(cur) > 0 {
			return &owed{"carried", nil, "items are dropped between iterations"}
		}
		return nil
	}
	l, ok := t.flat(t.Next[b.Term], 1<<30)
	if !ok || !sameTokens(l, cur) {
		return &owed{"carried", nil, "the buffer carried over is not exactly what was received and not yet sent"}
	}
	return nil
}

// clean drops slices known to be empty.
func (m *mover) clean(t *Trace, owes []*Term) []*Term {
	var out []*Term
	for _, o := range owes {
		if isSliceT(o) && t.Facts.Eval(tEq(tLen(o), tInt(0))) == 1 {
			continue
		}
		out = append(out, o)
	}
	return out
}

func isSliceT(o *Term) bool {
	if o.Op != "phi" && o.Op != "hv" || o.T == nil {
		return false
	}
	_, ok := o.T.Underlying().(*types.Slice)
	return ok
}

// buffers chooses, for every loop of the goroutine, the variable that carries
// the items not yet sent.
func (m *mover) buffers() *owed {
	var insts []*LoopInst
	seen := map[*LoopInst]bool{}
	for _, t := range m.Proc.Traces {
		for _, i := range t.loopsIn() {
			if !seen[i] {
				seen[i] = true
				insts = append(insts, i)
			}
		}
	}
	cands := make([][]*LoopVar, len(insts))
	for k, i := range insts {
		for _, v := range i.Phis {
			if isSliceT(v.Term) {
				cands[k] = append(cands[k], v)
			}
		}
		cands[k] = append(cands[k], nil)
	}
	var first *owed
	var try func(k int) bool
	n := 0
	try = func(k int) bool {
		if k == len(insts) {
			n++
			for _, t := range m.Proc.Traces {
				if t.End == "cut" {
					continue
				}
				if o := m.walk(t, nil); o != nil {
					if first == nil {
						first = o
						first.E2(t)
					}
					return false
				}
			}
			return true
		}
		for _, v := range cands[k] {
			if n > 200 {
				return false
			}
			m.Bufs[insts[k]] = v
			if try(k + 1) {
				return true
			}
		}
		return false
	}
	if try(0) {
		return nil
	}
	for k := range insts {
		m.Bufs[insts[k]] = cands[k][0]
	}
	return first
}

// E2 gives a failure without an event the last position of its path.
func (o *owed) E2(t *Trace) {
	for i := len(t.Events) - 1; o.E == nil && i >= 0; i-- {
		if t.Events[i].Pos.IsValid() {
			o.E = t.Events[i]
		}
	}
}

// movers: the chunk-building goroutines of the type.
func (c *Chk) movers() (*pipe, []*mover) {
	procs := c.family("chans", "ChunkChan", "ChunkChanBuilder", "NewChunkChan")
	p := c.pipe("chans.ChunkChanBuilder.Build", procs, c.optionFields("chans.ChunkChanBuilder", "WithContext"))
	in, out := c.getter("chans.ChunkChan.Incoming"), c.getter("chans.ChunkChan.C")
	if p.Build == nil || in == "" || out == "" {
		c.bad("anchor", "chans.ChunkChan", "Incoming and C do not return channel fields")
		return nil, nil
	}
	size, dur := c.optionFields("chans.ChunkChanBuilder", "WithChunkSize"), c.optionFields("chans.ChunkChanBuilder", "WithChunkTimeout")
	var ms []*mover
	for _, q := range procs {
		m := &mover{pipe: p, In: in, Out: out, Proc: q, Bufs: map[*LoopInst]*LoopVar{}, size: size, dur: dur}
		moves := false
		for _, t := range q.Traces {
			if len(t.received(m.isIn)) > 0 {
				moves = true
			}
		}
		if moves {
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		c.bad("anchor", "chans.ChunkChan", "nothing receives from the incoming channel")
		return nil, nil
	}
	return p, ms
}

func ruleC01(c *Chk) {
	p, ms := c.movers()
	if ms == nil {
		return
	}
	m0 := ms[0]
	isMover := map[*Proc]bool{}
	for _, m := range ms {
		isMover[m.Proc] = true
		c.check("mover", m.Proc.Kind == "go", m.Proc.Traces[0], nil, "items are taken from the incoming channel outside the chunking goroutine")
		if o := m.buffers(); o != nil {
			c.check("conserve", false, m.Proc.Traces[0], o.E, "%s", o.Msg)
			continue
		}
		for _, t := range m.Proc.Traces {
			if t.End == "cut" || t.End == "panic" {
				continue
			}
			c.check("conserve", true, t, nil, "")
			// a path may leave only when the context has ended
			if t.End == "return" {
				drop := false
				for _, e := range t.received(m.isIn) {
					drop = drop || t.closedRecv(e)
				}
				c.check("leaves", drop || t.ended(p.ctx, -1), t, nil, "the chunking goroutine ends while the context is live")
			}
			if t.End == "halt" {
				c.check("leaves", false, t, nil, "the chunking goroutine stops")
			}
		}
	}
	c.stays(p.Procs, p.ctx)
	c.onlyGo("one-mover", "the chunking goroutine", p.Build, func(q *Proc) bool { return isMover[q] }, one)
	// consumers
	fn := c.optionFields("chans.ChunkChanBuilder", "WithChunkFunc")
	isCons := map[*Proc]bool{}
	for _, q := range p.Procs {
		for _, t := range q.Traces {
			if t.End == "cut" {
				continue
			}
			for _, e := range t.of("close") {
				c.check("open", !m0.isIn(e.Ch) && !m0.isOut(e.Ch), t, e, "a pipeline channel is closed under its users")
			}
			for _, e := range t.sends(m0.isOut) {
				c.check("only-mover", isMover[q], t, e, "something else than the chunking goroutine puts chunks on the outgoing channel")
			}
			rs := t.received(m0.isOut)
			if len(rs) == 0 {
				continue
			}
			isCons[q] = true
			for i, e := range rs {
				next := 1 << 30
				if i+1 < len(rs) {
					next = rs[i+1].Seq
				}
				c.check("chunk-once", c.handedTo(t, e, next, fn, []*Term{e.Res}, nil) == 1 || t.closedRecv(e) || t.gaveUp(p.ctx, e.Seq), t, e, "a chunk taken from the outgoing channel is not handed to the chunk function exactly once before the next one is taken")
			}
		}
	}
	c.onlyGo("one-consumer", "the chunk function's goroutine", p.Build, func(q *Proc) bool { return isCons[q] }, func(t *Trace) int {
		for _, f := range c.loadsOf(p, fn, t) {
			switch t.Facts.Eval(tEq(f, tNil)) {
			case 1:
				return 0
			case -1:
				return 1
			}
		}
		return -1
	})
	// producers
	add := c.P("chans.ChunkChan.Add")
	c.handsIn("accept", add, m0.isIn, p.ctx)
	for _, q := range p.Procs {
		if q == add || isMover[q] {
			continue
		}
		for _, t := range q.Traces {
			for _, e := range t.sends(m0.isIn) {
				c.check("accept", q.Kind == "api", t, e, "the library itself puts items on the incoming channel")
			}
		}
	}
	c.built("channels", p.Build, m0.In, m0.Out)
	c.atLeast("conserve", 3)
	c.atLeast("chunk-once", 1)
	c.atLeast("accept", 2)
}

// built: a construction gives the object channels of its own or the caller's.
func (c *Chk) built(rule string, build *Proc, fields ...string) {
	for _, t := range returns(build) {
		if len(t.Ret) == 0 || isNilVal(t.Ret[0]) {
			continue
		}
		for _, f := range fields {
			v := t.finalField(t.Ret[0], f)
			ok := v != nil && (v.Op == "mkchan" || v.Op == "mkmap" || v.Op == "mkslice" || v.Op == "load" && t.Facts.Eval(tEq(v, tNil)) == -1)
			c.check(rule, ok, t, nil, "%s may be nil in a constructed object", lastSeg(f))
		}
	}
}

// finalField: the value a field of a new object holds at the end of the path.
func (t *Trace) finalField(obj *Term, field string) *Term {
	var v *Term
	for _, e := range t.of("store") {
		if e.Loc.Op == "faddr" && e.Loc.S == field && e.Loc.Args[0] == obj {
			v = e.Val
		}
	}
	return v
}

// loadsOf: the terms of a construction that stand for an option's value.
func (c *Chk) loadsOf(p *pipe, fields map[string]bool, t *Trace) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, f := range t.Facts {
		f.Atom.Any(func(x *Term) bool {
			if fromField(x, fields) && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
			return false
		})
	}
	return out
}

// handedTo counts the synchronous calls of a configured function with the
// given arguments between an event and the next; -1 when it is called with
// others.
func (c *Chk) handedTo(t *Trace, e *Event, next int, fn map[string]bool, args []*Term, eq func(i int, a, b *Term) bool) int {
	n := 0
	for _, cb := range t.of("callback") {
		if !fromField(cb.FnT, fn) || cb.Seq < e.Seq || cb.Seq > next {
			continue
		}
		if len(cb.Args) != len(args) {
			return -1
		}
		for i := range args {
			if args[i] != nil && !t.eq(cb.Args[i], args[i]) && (eq == nil || !eq(i, cb.Args[i], args[i])) {
				return -1
			}
		}
		n++
	}
	for _, g := range t.of("go") {
		if fromField(g.FnT, fn) {
			return -1
		}
	}
	if n == 0 {
		for _, f := range t.Facts {
			if f.Atom.Op == "eq" && f.Val {
				for i, a := range f.Atom.Args {
					if fromField(a, fn) && f.Atom.Args[1-i].IsNil() {
						return 1 // nothing configured to call
					}
				}
			}
		}
	}
	return n
}

// handsIn: every call puts its argument on the channel exactly once, unless it
// saw that the context has ended.
func (c *Chk) handsIn(rule string, api *Proc, is func(ch *Term) bool, ctx map[string]bool) {
	if api == nil {
		return
	}
	for _, t := range api.Traces {
		if t.End == "cut" {
			continue
		}
		ss := t.sends(is)
		if t.End == "back" {
			for _, e := range ss {
				c.check(rule, !t.inCycle(e), t, e, "one call may put its item on the channel several times")
			}
			continue
		}
		n := 0
		for _, e := range ss {
			v := e.Val
			c.check(rule, t.eq(v, param(api, len(api.Params)-1)), t, e, "something else than the given item is put on the channel")
			n++
		}
		if t.End == "return" {
			c.check(rule, n == 1 || n == 0 && t.gaveUp(ctx, -1), t, nil, "a call returns having put its item on the channel %d times while the context is live", n)
		}
	}
	for _, q := range c.children(api) {
		for _, t := range q.Traces {
			for _, e := range t.sends(is) {
				c.check(rule, false, t, e, "the item is put on the channel by another goroutine, so items may overtake each other")
			}
		}
	}
}

// ---- C02 ----

// clockVar: the channel is a loop variable that holds a clock or nil.
func (m *mover) clockVar(t *Trace, ch *Term) *LoopVar {
	if ch == nil {
		return nil
	}
	v := ch
	if n, b := fieldBase(ch); (n == "time.Timer.C" || n == "time.Ticker.C") && b != nil {
		v = b
	}
	if v.Op != "phi" && v.Op != "hv" {
		return nil
	}
	for _, e := range t.of("loopenter") {
		if x := e.Loop.Var(v); x != nil {
			return x
		}
	}
	return nil
}

func (m *mover) isTimer(v *Term) bool {
	return v != nil && (v.IsCall("time.NewTimer", "time.NewTicker", "time.After", "time.Tick") && len(v.Args) == 1 && fromField(v.Args[0], m.dur) || m.isTimerC(v))
}

func (m *mover) isTimerC(v *Term) bool {
	n, b := fieldBase(v)
	return (n == "time.Timer.C" || n == "time.Ticker.C") && m.isTimer(b)
}

// liveClock: the wait can be ended by a timeout of the configured length that
// really will fire.
func (m *mover) liveClock(t *Trace, e *Event, ch *Term, owes []*Term) bool {
	if d := t.clockOf(ch); d != nil {
		if !fromField(d, m.dur) {
			return false
		}
		made := ch
		if _, b := fieldBase(ch); b != nil && !ch.IsCall("time.After", "time.Tick") {
			made = b
		}
		if made.IsCall("time.NewTicker", "time.Tick") {
			for _, x := range t.of("call") {
				if x.Name == "(*time.Ticker).Stop" && x.Args[0] == made && x.Seq < e.Seq {
					return false
				}
				if x.Name == "(*time.Ticker).Reset" && x.Args[0] == made && !fromField(x.Args[1], m.dur) {
					return false
				}
			}
			return true
		}
		var loop *LoopInst
		if len(e.Loops) > 0 {
			loop = e.Loops[len(e.Loops)-1]
		}
		if loop == nil {
			return true
		}
		en := t.enter(loop)
		for _, x := range t.of("call") {
			if x.Res == made && en != nil && x.Seq > en.Seq {
				return true
			}
		}
		if !made.IsCall("time.NewTimer") {
			return false
		}
		// armed before the loop: every iteration in which it fired, or was
		// stopped, must arm it again
		for _, it := range loop.Iters {
			spent := false
			for _, x := range it.cycle() {
				switch {
				case x.Kind == "call" && x.Name == "(*time.Timer).Reset" && x.Args[0] == made:
					if !fromField(x.Args[1], m.dur) {
						return false
					}
					spent = false
				case x.Kind == "call" && x.Name == "(*time.Timer).Stop" && x.Args[0] == made:
					spent = true
				case (x.Kind == "recv" || x.Kind == "select") && x.Ch == ch:
					spent = true
				}
			}
			if spent {
				return false
			}
		}
		return true
	}
	v := m.clockVar(t, ch)
	if v == nil {
		return false
	}
	return m.clockInv(v, ch)
}

// clockInv: a loop variable holding the clock is armed whenever the buffer is
// not empty.
func (m *mover) clockInv(v *LoopVar, ch *Term) bool {
	var loop *LoopInst
	for _, t := range m.Proc.Traces {
		for _, i := range t.loopsIn() {
			if i.Var(v.Term) == v {
				loop = i
			}
		}
	}
	if loop == nil {
		return false
	}
	buf := m.Bufs[loop]
	if v.Init != nil && !isNilVal(v.Init) && !m.isTimer(v.Init) {
		return false
	}
	if v.Init == nil || isNilVal(v.Init) {
		if buf == nil || !normList(buf.Init).isEmpty2() {
			return false
		}
	}
	for _, it := range loop.Iters {
		nx := it.Next[v.Term]
		spent := false
		for _, x := range it.cycle() {
			if (x.Kind == "recv" || x.Kind == "select") && x.Ch == ch && ch.Op != "" && !(x.Kind == "select" && x.Cases[x.Idx].Send) {
				spent = true
			}
			if x.Kind == "call" && (x.Name == "(*time.Timer).Stop" || x.Name == "(*time.Timer).Reset") && x.Args[0] == v.Term {
				spent = x.Name == "(*time.Timer).Stop"
				if !spent && !fromField(x.Args[1], m.dur) {
					return false
				}
			}
		}
		if m.isTimer(nx) {
			continue
		}
		empty := false
		if buf != nil {
			l, ok := it.flat(it.Next[buf.Term], 1<<30)
			empty = ok && len(m.clean(it, l)) == 0
		}
		if empty {
			continue
		}
		if nx != v.Term || spent {
			return false
		}
		// unchanged: the buffer held something before, or the clock was armed
		if buf != nil && (it.Next[buf.Term] == buf.Term || it.Facts.ProveLT(tInt(0), tLen(buf.Term))) {
			continue
		}
		if it.Facts.Eval(tEq(v.Term, tNil)) == -1 || isTimerInit(m, v) {
			continue
		}
		return false
	}
	return true
}

func isTimerInit(m *mover, v *LoopVar) bool {
	for _, t := range m.Proc.Traces {
		for _, i := range t.loopsIn() {
			if i.Var(v.Term) != v {
				continue
			}
			for _, it := range i.Iters {
				if nx := it.Next[v.Term]; nx != v.Term && !m.isTimer(nx) {
					return false
				}
			}
		}
	}
	return m.isTimer(v.Init)
}

func sumLen(owes []*Term) *Term {
	s := tInt(0)
	for _, o := range owes {
		n := tInt(1)
		if isSliceT(o) {
			n = tLen(o)
		}
		s = mk("bin", "+", types.Typ[types.Int], s, n)
	}
	return s
}

func ruleC02(c *Chk) {
	_, ms := c.movers()
	for _, m := range ms {
		if o := m.buffers(); o != nil {
			c.check("bounded", false, m.Proc.Traces[0], o.E, "chunk sizes cannot be bounded: %s", o.Msg)
			continue
		}
		c.Assume["the configured chunk size is at least one"] = true
		m.invariants()
		for _, t := range m.Proc.Traces {
			if t.End == "cut" || t.End == "panic" {
				continue
			}
			m.chunks(t)
		}
	}
	// nobody else touches chunks
	if len(ms) > 0 {
		m := ms[0]
		for _, q := range m.Procs {
			for _, t := range q.Traces {
				for _, r := range t.received(m.isOut) {
					for _, e := range t.Events {
						if e.Seq > r.Seq && (e.Kind == "store" && e.Loc.Op == "iaddr" && backing(e.Loc.Args[0]) == r.Res || e.Kind == "copy" && backing(e.Loc) == r.Res || e.Kind == "append" && backing(e.Val) == r.Res) {
							c.check("frozen", false, t, e, "a delivered chunk is modified")
						}
					}
				}
			}
		}
	}
	c.atLeast("bounded", 2)
	c.atLeast("full", 1)
	c.atLeast("flush", 1)
	c.atLeast("fresh", 2)
	c.atLeast("clock", 1)
}

// sizes: the terms of a path that stand for the configured chunk size.
func (m *mover) sizes(t *Trace) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	for _, f := range t.Facts {
		f.Atom.Any(func(x *Term) bool {
			if fromField(x, m.size) && !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
			return false
		})
	}
	for _, q := range m.Proc.Traces {
		for _, f := range q.Facts {
			f.Atom.Any(func(x *Term) bool {
				if fromField(x, m.size) && !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
				return false
			})
		}
	}
	return out
}

// below: the facts entail n < size, or n <= size at the head of a weak loop.
func (m *mover) below(f Facts, i *LoopInst, n, size *Term) bool {
	if m.weak[i] {
		return f.ProveLE(n, size, 0)
	}
	return f.ProveLT(n, size)
}

// assume adds what holds at every loop head.
func (m *mover) assume(t *Trace, f Facts, size *Term) Facts {
	f = append(Facts(nil), f...)
	f = f.Add(tLt(tInt(0), size), true)
	for _, i := range t.loopsIn() {
		if b := m.Bufs[i]; b != nil {
			if m.weak[i] {
				f = f.Add(tLt(size, tLen(b.Term)), false)
			} else {
				f = f.Add(tLt(tLen(b.Term), size), true)
			}
		}
	}
	return f
}

// invariants decides for every loop whether the buffer is never full at its
// head; a loop that ends when it is full keeps the weaker bound.
func (m *mover) invariants() {
	m.weak = map[*LoopInst]bool{}
	for changed := true; changed; {
		changed = false
		for _, t := range m.Proc.Traces {
			sizes := m.sizes(t)
			if t.End == "cut" || len(sizes) == 0 {
				continue
			}
			size := sizes[0]
			m.walk(t, func(e *Event, owes []*Term, clock bool) {
				if b := m.Bufs[e.Loop]; e.Kind == "loopenter" && b != nil {
					if l, _ := t.flat(b.Init, e.Seq); !m.weak[e.Loop] && !m.below(m.assume(t, t.at(e), size), e.Loop, sumLen(l), size) {
						m.weak[e.Loop] = true
						changed = true
					}
				}
			})
			if t.End != "back" || m.weak[t.Loop] || m.Bufs[t.Loop] == nil {
				continue
			}
			if l, ok := t.flat(t.Next[m.Bufs[t.Loop].Term], 1<<30); ok && !m.below(m.assume(t, t.Facts, size), t.Loop, sumLen(m.clean(t, l)), size) {
				m.weak[t.Loop] = true
				changed = true
			}
		}
	}
}

func (m *mover) chunks(t *Trace) {
	c := m.Chk
	sizes := m.sizes(t)
	if len(sizes) == 0 {
		c.check("bounded", false, t, nil, "the configured chunk size bounds nothing")
		return
	}
	size := sizes[0]
	var sent []*Term
	sentUp := map[*Term]*Event{}
	fired := false
	var lastClock *Event
	m.walk(t, func(e *Event, owes []*Term, clock bool) {
		judged := !t.prefix(e)
		facts := func() Facts { return m.assume(t, t.at(e), size) }
		isSend := e.Kind == "send" || e.Kind == "select" && e.Idx >= 0 && e.Idx < len(e.Cases) && e.Cases[e.Idx].Send
		if e.Kind == "loopenter" {
			if b := m.Bufs[e.Loop]; b != nil && judged {
				l, _ := t.flat(b.Init, e.Seq)
				c.check("bounded", m.below(facts(), e.Loop, sumLen(l), size), t, e, "the buffer may hold a full chunk before anything is received")
			}
			return
		}
		if (e.Kind == "recv" || e.Kind == "select") && !isSend && m.isIn(e.Ch) && !t.closedRecv(e) && judged {
			c.check("bounded", facts().ProveLT(sumLen(owes), size), t, e, "a further item is taken in although the chunk may already have the configured size")
		}
		// waits with something in the buffer end at the timeout
		if (e.Kind == "recv" || e.Kind == "select" && !e.Dflt) && judged {
			waitsIn, live := false, false
			chs := []*Term{e.Ch}
			if e.Kind == "select" {
				chs = nil
				for _, cs := range e.Cases {
					if !cs.Send {
						chs = append(chs, cs.Ch)
					}
				}
			}
			for _, ch := range chs {
				if m.isIn(ch) {
					waitsIn = true
				} else if m.liveClock(t, e, ch, owes) {
					live = true
				}
			}
			l := m.clean(t, owes)
			if waitsIn {
				c.check("clock", live || len(l) == 0, t, e, "items in the buffer wait for further items without a timeout of the configured length")
			}
		}
		if !isSend || !m.isOut(e.Ch) {
			if clock {
				fired = true
			}
			if (e.Kind == "recv" || e.Kind == "select") && !isSend && judged {
				if t.clockOf(e.Ch) != nil || m.clockVar(t, e.Ch) != nil {
					lastClock = e
				} else if m.isIn(e.Ch) {
					lastClock = nil
				}
			}
			// the memory of a sent chunk is not written any more
			for b, s := range sentUp {
				w := e.Kind == "store" && e.Loc.Op == "iaddr" && backing(e.Loc.Args[0]) == b ||
					e.Kind == "copy" && backing(e.Loc) == b || e.Kind == "append" && backing(e.Val) == b
				if w && e.Seq > s.Seq {
					c.check("frozen", false, t, e, "a chunk is modified after it was sent")
				}
			}
			return
		}
		if !judged {
			return
		}
		v := e.Val
		if v == nil {
			v = e.Cases[e.Idx].Val
		}
		l, ok := t.flat(v, e.Seq)
		if !ok {
			return
		}
		n := sumLen(l)
		c.check("nonempty", facts().ProveLT(tInt(0), n), t, e, "an empty chunk may be sent")
		c.check("bounded", facts().ProveLE(n, size, 0), t, e, "a chunk larger than the configured size may be sent")
		if !clock {
			c.check("full", facts().ProveLE(size, n, 0), t, e, "a partial chunk is sent without the timeout having passed")
		}
		b := backing(v)
		if b != nil {
			c.check("fresh", sentUp[b] == nil, t, e, "two chunks share memory")
			sentUp[b] = e
		}
		sent = append(sent, v)
	})
	_ = fired
	if t.End != "back" {
		return
	}
	b := m.Bufs[t.Loop]
	if b == nil {
		return
	}
	nx := t.Next[b.Term]
	l, ok := t.flat(nx, 1<<30)
	if !ok {
		return
	}
	l = m.clean(t, l)
	c.check("bounded", m.below(m.assume(t, t.Facts, size), t.Loop, sumLen(l), size), t, nil, "a full chunk is kept instead of being sent")
	if lastClock != nil && m.firesFor(t, lastClock) {
		c.check("flush", len(l) == 0, t, lastClock, "items stay in the buffer although the timeout has passed")
	}
	// the buffer carried over must not share memory with anything sent
	bk := backing(nx)
	switch {
	case bk == nil:
		c.check("fresh", true, t, nil, "")
	case sentUp[bk] != nil:
		c.check("fresh", false, t, sentUp[bk], "the buffer goes on using the memory of a chunk already sent")
	case bk.Op == "mkslice" || bk.Op == "new":
		made := false
		for _, e := range t.cycle() {
			if e.Kind == "make" && e.Res == bk {
				made = true
			}
		}
		if bk.Op == "new" && !made {
			for _, e := range t.cycle() {
				if e.Kind == "store" && RootOf(e.Loc) == bk && e.Fresh {
					made = true
				}
			}
		}
		c.check("fresh", made || len(sent) == 0 && b.Init == nx, t, nil, "the buffer is started again in memory that an earlier chunk may use")
	default:
		c.check("fresh", bk == b.Term || m.startOf(t, bk), t, nil, "the buffer carried over may share memory with a chunk already sent")
	}
}

// startOf: the term is the buffer of a loop the path went through.
func (m *mover) startOf(t *Trace, b *Term) bool {
	for _, i := range t.loopsIn() {
		if v := m.Bufs[i]; v != nil && v.Term == b {
			return true
		}
	}
	return false
}

func (m *mover) firesFor(t *Trace, e *Event) bool { return t.inCycle(e) }

// ---- C03 ----

func (c *Chk) shardPipe() (p *pipe, in, coll string, count map[string]bool) {
	procs := c.family("chans", "ShardChan", "ShardChanBuilder", "NewShardChan")
	p = c.pipe("chans.ShardChanBuilder.Build", procs, c.optionFields("chans.ShardChanBuilder", "WithContext"))
	count = c.optionFields("chans.ShardChanBuilder", "WithShardCount")
	for _, t := range returns(c.P("chans.ShardChan.C")) {
		if f, _ := slotOf(t.Ret[0]); f != "" {
			coll = f
		}
	}
	add := c.P("chans.ShardChan.Add")
	if add != nil {
		for _, t := range add.Traces {
			for _, e := range t.sends(func(*Term) bool { return true }) {
				in = place(e.Ch)
			}
		}
	}
	if p.Build == nil || in == "" || coll == "" {
		c.bad("anchor", "chans.ShardChan", "Add does not send on a channel field, or C does not return an element of a collection field")
		return nil, "", "", nil
	}
	return
}

// rangedLoop: the goroutine serves the index given by a loop of the builder.
func (c *Chk) servedIndex(build *Proc, is func(*Proc) bool, idx *Term, count map[string]bool) bool {
	for _, t := range returns(build) {
		for _, inst := range t.loopsIn() {
			for _, it := range inst.Iters {
				if len(it.spawned(is)) > 0 && idx != nil {
					for _, n := range c.countTerms(t, inst, count) {
						if covers(inst, n, idx) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// makesAll: every index 0..n-1 of the collection gets a channel of its own.
func (c *Chk) makesAll(rule string, build *Proc, coll string, count map[string]bool, what string, isNew func(it *Trace, v *Term) bool) {
	for _, t := range returns(build) {
		if len(t.Ret) == 0 || isNilVal(t.Ret[0]) {
			continue
		}
		ok := false
		for _, inst := range t.loopsIn() {
			for _, idx := range c.fills(inst, coll, isNew) {
				for _, n := range c.countTerms(t, inst, count) {
					if covers(inst, n, idx) && t.leftExhausted(inst, idx, n) {
						ok = true
					}
				}
			}
			if c.appendsAll(t, inst, coll, isNew) {
				for _, v := range inst.Phis {
					ok = ok || !inst.sharedVar(v) && c.countsTo(t, inst, v.Term, count)
				}
			}
		}
		c.check(rule, ok, t, nil, "not every index up to the configured count gets %s", what)
	}
}

// appendsAll: every iteration appends one new value to the collection, which
// starts out empty and is what the object keeps.
func (c *Chk) appendsAll(t *Trace, inst *LoopInst, coll string, isNew func(it *Trace, v *Term) bool) bool {
	for _, v := range inst.Phis {
		kept := v.Loc != nil && v.Loc.Op == "faddr" && v.Loc.S == coll
		for _, e := range t.of("store") {
			kept = kept || e.Loc.Op == "faddr" && e.Loc.S == coll && e.Val == v.Term
		}
		if !kept || v.Init == nil || !normList(v.Init).isEmpty2() {
			continue
		}
		ok := len(inst.Iters) > 0
		for _, it := range inst.Iters {
			nx := it.Next[v.Term]
			ok = ok && nx != nil && nx.Op == "append" && nx.Args[0] == v.Term && len(nx.Args) == 2 && isNew(it, nx.Args[1])
		}
		if ok {
			return true
		}
	}
	return false
}

// fills: the indexes at which every iteration of the loop stores a new value.
func (c *Chk) fills(inst *LoopInst, coll string, isNew func(it *Trace, v *Term) bool) []*Term {
	var out []*Term
	for k, it := range inst.Iters {
		var mine []*Term
		for _, e := range it.cycle() {
			var idx *Term
			switch {
			case e.Kind == "mapset" && place(e.Map) == coll:
				idx = e.Key
			case e.Kind == "store" && e.Loc.Op == "iaddr" && place(e.Loc.Args[0]) == coll:
				idx = e.Loc.Args[1]
			default:
				continue
			}
			if isNew(it, e.Val) {
				mine = append(mine, idx)
			}
		}
		if k == 0 {
			out = mine
			continue
		}
		var both []*Term
		for _, a := range out {
			for _, b := range mine {
				if a == b {
					both = append(both, a)
				}
			}
		}
		out = both
	}
	return out
}

func madeIn(it *Trace, v *Term) bool {
	for _, e := range it.cycle() {
		if e.Kind == "make" && e.Res == v {
			return true
		}
	}
	return false
}

// fixedBy: the term is computed from nothing but the allowed sources.
func fixedBy(v *Term, ok func(x *Term) bool) bool {
	if ok(v) {
		return true
	}
	switch v.Op {
	case "const", "zero":
		return true
	case "bin", "neg", "conv", "not", "lt", "eq", "le":
		for _, a := range v.Args {
			if !fixedBy(a, ok) {
				return false
			}
		}
		return true
	}
	return false
}

func ruleC03(c *Chk) {
	p, in, coll, count := c.shardPipe()
	if p == nil {
		return
	}
	isIn := func(ch *Term) bool { return p.in(ch, in) }
	isOut := func(ch *Term) bool { f, _ := p.slot(ch); return f == coll }
	shard := c.optionFields("chans.ShardChanBuilder", "WithShardFunc")
	work := c.optionFields("chans.ShardChanBuilder", "WithWorkerFunc")
	c.Assume["the configured shard count is at least one"] = true
	isMover, isWorker := map[*Proc]bool{}, map[*Proc]bool{}
	c.stays(p.Procs, p.ctx)
	for _, q := range p.Procs {
		for _, t := range q.Traces {
			if t.End == "cut" {
				continue
			}
			for _, e := range t.of("close") {
				c.check("open", !isIn(e.Ch) && !isOut(e.Ch), t, e, "a pipeline channel is closed under its users")
			}
			rs := t.received(isIn)
			for i, r := range rs {
				isMover[q] = true
				c.check("mover", q.Kind == "go", t, r, "items are taken from the incoming channel outside the routing goroutine")
				if t.End == "panic" || t.closedRecv(r) {
					continue
				}
				next := 1 << 30
				if i+1 < len(rs) {
					next = rs[i+1].Seq
				}
				c.routed(p, t, r, next, shard, count, isOut)
			}
			for _, e := range t.sends(isOut) {
				c.check("only-mover", len(rs) > 0, t, e, "something else than the routing goroutine puts items on a shard channel")
			}
			ws := t.received(isOut)
			for i, r := range ws {
				isWorker[q] = true
				if t.closedRecv(r) {
					continue
				}
				next := 1 << 30
				if i+1 < len(ws) {
					next = ws[i+1].Seq
				}
				_, k := p.slot(r.Ch)
				c.check("work-once", c.handedTo(t, r, next, work, []*Term{k, r.Res}, nil) == 1 || t.gaveUp(p.ctx, r.Seq), t, r, "an item of a shard is not handed to the worker function exactly once with that shard's index")
			}
			if q.Kind == "go" && len(rs) == 0 && t.End == "return" && isMover[q] {
				c.check("leaves", t.ended(p.ctx, -1), t, nil, "the routing goroutine ends while the context is live")
			}
		}
	}
	mover := func(q *Proc) bool { return isMover[q] }
	worker := func(q *Proc) bool { return isWorker[q] }
	c.onlyGo("one-mover", "the routing goroutine", p.Build, mover, one)
	c.perIndex("workers", "a shard's worker", p.Build, worker, count, func(t *Trace) bool {
		for _, f := range c.loadsOf(p, work, t) {
			if t.Facts.Eval(tEq(f, tNil)) == 1 {
				return true
			}
		}
		return false
	})
	for _, q := range p.Procs {
		if !isWorker[q] {
			continue
		}
		for _, t := range q.Traces {
			for _, r := range t.received(isOut) {
				_, k := p.slot(r.Ch)
				c.check("worker-index", c.servedIndex(p.Build, worker, k, count), t, r, "the workers do not serve each shard index exactly once")
			}
		}
	}
	c.makesAll("shards", p.Build, coll, count, "a channel of its own", func(it *Trace, v *Term) bool { return v.Op == "mkchan" && madeIn(it, v) })
	for _, q := range p.Procs {
		for _, t := range q.Traces {
			for _, e := range t.Events {
				if e.Kind == "mapdel" && place(e.Map) == coll || q != p.Build && (e.Kind == "mapset" && place(e.Map) == coll || e.Kind == "store" && e.Loc.Op == "iaddr" && place(e.Loc.Args[0]) == coll) {
					c.check("shards", false, t, e, "the shard channels are changed after construction")
				}
			}
		}
	}
	// C
	get := c.P("chans.ShardChan.C")
	for _, t := range returns(get) {
		key := param(get, 1)
		if isNilVal(t.Ret[0]) {
			c.check("channel", c.outOfRange(t, key, count), t, nil, "C returns no channel for a valid shard index")
			continue
		}
		f, k := slotOf(t.Ret[0])
		inRange := c.inRange(t, t.Facts, key, count)
		if t.Ret[0].Op == "lookup" {
			inRange = true // absent keys have no channel
		}
		c.check("channel", f == coll && k == key && inRange, t, nil, "C does not return the channel of the given shard")
	}
	c.handsIn("accept", c.P("chans.ShardChan.Add"), isIn, p.ctx)
	c.built("channels", p.Build, in, coll)
	c.atLeast("routed", 2)
	c.atLeast("work-once", 1)
	c.atLeast("channel", 2)
}

func (c *Chk) countsIn(f Facts, count map[string]bool, more ...*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	add := func(x *Term) bool {
		if !seen[x] && (fromField(x, count) || x.Op == "len" && c.bounds().sizeOf(x, count)) {
			seen[x] = true
			out = append(out, x)
		}
		return false
	}
	for _, x := range f {
		x.Atom.Any(add)
	}
	for _, x := range more {
		if x != nil {
			x.Any(add)
		}
	}
	return out
}

func (c *Chk) inRange(t *Trace, f Facts, k *Term, count map[string]bool) bool {
	for _, n := range c.countsIn(f, count, k) {
		g := append(Facts(nil), f...).Add(tLt(tInt(0), n), true)
		if g.ProveLE(tInt(0), k, 0) && g.ProveLT(k, n) {
			return true
		}
	}
	return false
}

func (c *Chk) outOfRange(t *Trace, k *Term, count map[string]bool) bool {
	if t.Facts.ProveLT(k, tInt(0)) {
		return true
	}
	for _, n := range c.countsIn(t.Facts, count) {
		if t.Facts.ProveLE(n, k, 0) {
			return true
		}
	}
	// or the collection has no such element
	for _, e := range t.of("mapget") {
		if e.Key == k && t.truth(e.Ok) == -1 {
			return true
		}
	}
	return false
}

// impossible: with a positive count, one condition of the path is the
// opposite of what the others imply.
func (c *Chk) impossible(t *Trace, count map[string]bool) bool {
	for i, x := range t.Facts {
		if x.Atom.Op != "lt" {
			continue
		}
		g := append(append(Facts(nil), t.Facts[:i]...), t.Facts[i+1:]...)
		for _, n := range c.countsIn(t.Facts, count) {
			g = g.Add(tLt(tInt(0), n), true)
		}
		a, b := x.Atom.Args[0], x.Atom.Args[1]
		if x.Val && g.ProveLE(b, a, 0) || !x.Val && g.ProveLT(a, b) {
			return true
		}
	}
	return false
}

// routed: the item received is sent once, on the shard its key names.
func (c *Chk) routed(p *pipe, t *Trace, r *Event, next int, shard, count map[string]bool, isOut func(*Term) bool) {
	var keys []*Event
	for _, e := range t.of("callback") {
		if e.Seq > r.Seq && e.Seq < next && fromField(e.FnT, shard) {
			keys = append(keys, e)
		}
	}
	n := 0
	for _, e := range t.sends(isOut) {
		if e.Seq < r.Seq || e.Seq > next {
			continue
		}
		n++
		v := e.Val
		if v == nil && e.Kind == "select" {
			v = e.Cases[e.Idx].Val
		}
		c.check("routed", v == r.Res, t, e, "something else than the received item is put on a shard channel")
		_, k := p.slot(e.Ch)
		fixed := k != nil && fixedBy(k, func(x *Term) bool {
			if fromField(x, count) {
				return true
			}
			for _, cb := range keys {
				if x == cb.Res && len(cb.Args) == 1 && cb.Args[0] == r.Res {
					return true
				}
			}
			return false
		})
		uses := false
		for _, cb := range keys {
			uses = uses || k != nil && k.Contains(cb.Res)
		}
		c.check("routed", fixed && (uses || len(keys) > 0), t, e, "the shard does not depend on the item's shard key and the shard count alone")
		c.check("in-range", k != nil && c.inRange(t, t.at(e), k, count), t, e, "the shard index may lie outside the existing shards for some shard key")
	}
	c.check("routed", n == 1 || n == 0 && (t.gaveUp(p.ctx, r.Seq) || c.impossible(t, count)), t, r, "a received item is put on %d shard channels while the context is live", n)
}

var _ = strconv.Itoa

func init() {
	register("C01", "conservation dataflow over the chunking goroutine: on every path the chunks sent and the buffer carried over are exactly the buffer before plus the items received, in order; one mover, one consumer, no other sender, receiver or close", ruleC01)
	register("C02", "inductive length bounds (zone domain) on the buffer at every loop head, receive and send; clock liveness at every wait; aliasing analysis of sent chunks", ruleC02)
	register("C03", "routing dataflow: the received item is sent exactly once on the shard channel indexed by a function of its shard key proven in range; one router, one worker per index, every index constructed", ruleC03)
}

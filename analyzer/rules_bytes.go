package main

import (
	"go/types"
)

// N03: byte slice helpers.

// num evaluates a term over small integers, for functions of finitely many
// inputs (a byte and a bit number).
func num(t *Term, env map[*Term]int64) (int64, bool) {
	if n, ok := env[t]; ok {
		return n, true
	}
	if n, ok := t.Int(); ok {
		return n, true
	}
	wrap := func(n int64) (int64, bool) {
		if size, signed, ok := intKind(t.T); t.T != nil && ok && size < 8 {
			m := int64(1)<<uint(8*size) - 1
			n &= m
			if signed && n > m>>1 {
				n -= m + 1
			}
		}
		return n, true
	}
	b2i := func(b bool) (int64, bool) {
		if b {
			return 1, true
		}
		return 0, true
	}
	switch t.Op {
	case "const":
		if t.IsTrue() || t.IsFalse() {
			return b2i(t.IsTrue())
		}
	case "zero":
		return 0, true
	case "conv":
		n, ok := num(t.Args[0], env)
		if !ok || !isIntType(t.T) {
			return 0, false
		}
		return wrap(n)
	case "neg":
		n, ok := num(t.Args[0], env)
		if !ok {
			return 0, false
		}
		return wrap(-n)
	case "not":
		n, ok := num(t.Args[0], env)
		return 1 - n, ok
	case "eq", "lt":
		a, ok := num(t.Args[0], env)
		b, ok2 := num(t.Args[1], env)
		if !ok || !ok2 {
			return 0, false
		}
		if t.Op == "eq" {
			return b2i(a == b)
		}
		return b2i(a < b)
	case "bin":
		a, ok := num(t.Args[0], env)
		b, ok2 := num(t.Args[1], env)
		if !ok || !ok2 {
			return 0, false
		}
		switch t.S {
		case "+":
			return wrap(a + b)
		case "-":
			return wrap(a - b)
		case "*":
			return wrap(a * b)
		case "/":
			if b == 0 {
				return 0, false
			}
			return wrap(a / b)
		case "%":
			if b == 0 {
				return 0, false
			}
			return wrap(a % b)
		case "&":
			return wrap(a & b)
		case "|":
			return wrap(a | b)
		case "^":
			return wrap(a ^ b)
		case "&^":
			return wrap(a &^ b)
		case "<<":
			if b < 0 || b > 62 {
				return 0, false
			}
			return wrap(a << uint(b))
		case ">>":
			if b < 0 || b > 62 {
				return 0, false
			}
			return wrap(a >> uint(b))
		}
	}
	return 0, false
}

// divmod: the term is i/8 (quotient) or i%8 (remainder) of a non-negative i.
func div8(t *Term) *Term {
	t = unconv(t)
	if t.Op == "bin" {
		n, ok := t.Args[1].Int()
		if ok && (t.S == "/" && n == 8 || t.S == ">>" && n == 3) {
			return unconv(t.Args[0])
		}
	}
	return nil
}

func mod8(t *Term) *Term {
	t = unconv(t)
	if t.Op == "bin" {
		n, ok := t.Args[1].Int()
		if ok && (t.S == "%" && n == 8 || t.S == "&" && n == 7) {
			return unconv(t.Args[0])
		}
		// i - 8*(i/8)
	}
	return nil
}

// mods collects the remainders by eight in a term.
func mods(t *Term, out map[*Term]bool) {
	if mod8(t) != nil && t.Op == "bin" {
		out[t] = true
		return
	}
	for _, a := range t.Args {
		mods(a, out)
	}
}

// bitTest: the boolean term is bit j of the byte term, as a function checked
// for all bytes and all eight bit numbers.
func bitTest(v, b, j *Term) bool {
	for x := int64(0); x < 256; x++ {
		for k := int64(0); k < 8; k++ {
			r, ok := num(v, map[*Term]int64{b: x, j: k})
			if !ok || r != x>>uint(k)&1 {
				return false
			}
		}
	}
	return true
}

// bitSet: the term is the byte with bit j set too.
// With below, only bytes that have no bit from j upwards are looked at.
func bitSet(v, b, j *Term, below bool) bool {
	for x := int64(0); x < 256; x++ {
		for k := int64(0); k < 8; k++ {
			if below && x>>uint(k) != 0 {
				continue
			}
			r, ok := num(v, map[*Term]int64{b: x, j: k})
			if !ok || r != x|1<<uint(k) {
				return false
			}
		}
	}
	return true
}

func ruleN03(c *Chk) {
	c.chunkRule()
	c.toBools()
	c.fromBools()
	c.copies()
	// helpers without a precondition stay inside what they are given
	r := c.newPanicRule()
	for _, n := range []string{"net.BoolArrayToByte"} {
		for _, t := range c.Ts(n) {
			for _, e := range t.of("index") {
				if t.End != "cut" && e.Loc.Args[0] == param(t.Proc, 0) {
					r.event(t.Proc, t, e)
				}
			}
		}
	}
	c.atLeast("pieces", 2)
	c.atLeast("flags", 2)
	c.atLeast("bits", 2)
	c.atLeast("fresh", 2)
}

// ---- Chunk ----

func (c *Chk) chunkRule() {
	p := c.P("net.Chunk")
	data, size := param(p, 0), param(p, 1)
	base := func(t *Trace) Facts { return t.Facts.Add(tLt(tInt(0), size), true) }
	used := map[*LoopInst]bool{}
	for _, t := range ends(p, "return", "panic") {
		f := base(t)
		if f.contradictory() {
			continue // no positive size comes this way
		}
		if !c.check("pieces", t.End == "return", t, nil, "Chunk panics for a positive size") {
			continue
		}
		r := t.Ret[0]
		if f.ProveLE(tLen(data), tInt(0), 0) && emptyList(r) {
			continue
		}
		if whole := soleElem(r); whole != nil && sameBytes(whole) == data && f.ProveLE(tLen(data), size, 0) && f.ProveLT(tInt(0), tLen(data)) {
			continue
		}
		ok := false
		for _, l := range t.loopsIn() {
			used[l] = true
			if c.chunkLoop(t, f, l, r, data, size) {
				ok = true
			}
		}
		c.check("pieces", ok, t, nil, "the result is not the input cut into consecutive pieces of the size")
	}
	for _, t := range ends(p, "back") {
		c.check("pieces", true, t, nil, "")
	}
}

// soleElem: the only element of a one-element list.
func soleElem(r *Term) *Term {
	if r.Op == "arr" && len(r.Args) == 1 {
		return r.Args[0]
	}
	if r.Op == "append" && len(r.Args) == 2 && emptyList(r.Args[0]) {
		return r.Args[1]
	}
	return nil
}

func (c *Chk) chunkLoop(t *Trace, exit Facts, l *LoopInst, r, data, size *Term) bool {
	// the list under construction, and a last piece added after the loop
	list, tail := r, (*Term)(nil)
	if r.Op == "append" && len(r.Args) == 2 {
		list, tail = r.Args[0], r.Args[1]
	}
	lv := l.Var(list)
	if lv == nil || !emptyList(lv.Init) || bufRoot(lv.Init) == data {
		return false
	}
	pos := func(t *Term) *Term { // none is zero
		if t.Op == "none" {
			return tInt(0)
		}
		return t
	}
	for _, v := range l.Phis {
		if v == lv || v.Init == nil {
			continue
		}
		rest := v.Init == data
		if !rest && !isZero(v.Init) {
			continue
		}
		// at: where the input still to be cut starts; n: how much of it is left
		good := len(l.Iters) > 0
		left := func(x *Term) (whole *Term, lo, n *Term) {
			if rest {
				return x, tInt(0), tLen(x)
			}
			return data, x, mk("bin", "-", types.Typ[types.Int], tLen(data), x)
		}
		piece := func(f Facts, b *Term) (end *Term, ok bool) {
			// b is the piece that starts where v stands; its end is returned
			b = sameBytes(b)
			whole, lo, n := left(v.Term)
			if b == whole && isZero(lo) {
				return tLen(whole), f.ProveLE(n, size, 0) && f.ProveLT(tInt(0), n)
			}
			if b.Op != "slice" || b.Args[0] != whole {
				return nil, false
			}
			a, e := pos(b.Args[1]), b.Args[2]
			if e.Op == "none" {
				e = tLen(whole)
			}
			if !linDiffZero(a, lo) {
				return nil, false
			}
			d := linDiff(e, lo)
			d.add(lin(size), -1)
			if d.isZero() {
				// a full piece: all of it exists
				return e, f.ProveLE(e, tLen(whole), 0)
			}
			// the last one: not longer than the size, up to the end
			top := linDiff(e, tLen(whole))
			if !top.isZero() && !(f.ProveLE(e, tLen(whole), 0) && f.ProveLE(tLen(whole), e, 0)) {
				return nil, false
			}
			short := linDiff(e, lo) // <= size
			short.add(lin(size), -1)
			some := linDiff(lo, e)
			some.C++
			ls := f.linear(e, lo, size)
			return e, proveLE0(ls, short) && proveLE0(ls, some)
		}
		for _, it := range l.Iters {
			f := it.Facts.Add(tLt(tInt(0), size), true)
			if f.contradictory() {
				continue
			}
			nx := it.Next[list]
			if nx == nil || nx.Op != "append" || nx.Args[0] != list || len(nx.Args) != 2 {
				good = false
				break
			}
			e, ok := piece(f, nx.Args[1])
			np := it.Next[v.Term]
			if !ok || np == nil {
				good = false
				break
			}
			if rest {
				// what is left is cut off at the end of the piece
				cut := np.Op == "slice" && np.Args[0] == v.Term && np.Args[2].Op == "none" && linDiffZero(pos(np.Args[1]), e)
				gone := emptyList(np) && f.ProveLE(tLen(v.Term), e, 0)
				good = good && (cut || gone)
			} else {
				// goes on at the end of the piece, or beyond the input
				at := linDiffZero(np, e)
				gone := f.ProveLE(tLen(data), np, 0) && linDiffZero(e, tLen(data))
				good = good && (at || gone || f.ProveLE(tLen(data), np, 0) && f.ProveLE(tLen(data), e, 0))
			}
			if !good {
				break
			}
		}
		if !good {
			continue
		}
		whole, lo, n := left(v.Term)
		_ = whole
		if tail != nil {
			e, ok := piece(exit, tail)
			if ok && exit.ProveLE(tLen(whole), e, 0) {
				return true
			}
			continue
		}
		// everything was cut
		done := linDiff(tLen(whole), lo)
		if proveLE0(exit.linear(lo, n, tLen(whole)), done) {
			return true
		}
	}
	return false
}

// ---- flags from bytes ----

// boolRun: the list holds, in order, one flag per bit of data.
func (c *Chk) toBools() {
	p := c.P("net.ByteToBoolArray")
	data, count := param(p, 0), param(p, 1)
	for _, t := range ends(p, "return", "panic") {
		if t.End != "return" {
			continue // a count beyond the bits there are
		}
		r := t.Ret[0]
		n0 := t.Facts.Eval(tLt(tInt(0), tLen(count)))
		if n0 == 0 {
			n0 = -t.Facts.Eval(tEq(tLen(count), tInt(0)))
		}
		all := r
		if r.Op == "slice" && r.Args[1].Op == "none" && r.Args[2].Op != "none" {
			l, i, ok := elemIndex(r.Args[2])
			c.check("flags", n0 == 1 && ok && l == count && isZero(i), t, nil, "the flags are cut at something else than the given count")
			all = r.Args[0]
		} else {
			c.check("flags", n0 == -1, t, nil, "a given count is ignored")
		}
		if t.Facts.ProveLE(tLen(data), tInt(0), 0) && emptyList(all) {
			continue
		}
		c.check("flags", c.flagLoops(t, all, data), t, nil, "the flags are not the bits of all bytes in order")
	}
}

// flagLoops: the list (appended to or filled by index) is made by covering
// loops over the bytes and their bits.
func (c *Chk) flagLoops(t *Trace, list, data *Term) bool {
	for _, l := range t.loopsIn() {
		// flat: one round per flag
		for _, v := range l.Phis {
			if l.sharedVar(v) || v.Term.T == nil || !isIntType(v.Term.T) {
				continue
			}
			for _, k := range []int64{0, 1} {
				i := tAdd(v.Term, k)
				n8 := mk("bin", "*", types.Typ[types.Int], tLen(data), tInt(8))
				if covers(l, n8, i) && t.leftExhausted(l, i, n8) && within(l, i, n8) {
					ok := len(l.Iters) > 0
					for _, it := range l.Iters {
						val, at := l.produced(it, list)
						ok = ok && val != nil && (at == nil && upFrom(l, v) || at != nil && linDiffZero(at, i)) && flatBit(it, val, data, i)
					}
					if ok && l.startsEmpty(list, n8) {
						return true
					}
				}
			}
		}
		// nested: bytes outside, bits inside
		if c.nestedFlags(t, l, list, data) {
			return true
		}
	}
	return false
}

func upFrom(l *LoopInst, v *LoopVar) bool {
	st, ok := inductionStep(l, v)
	return ok && st == 1
}

// startsEmpty: the list is empty at first, or was made with room for n.
func (l *LoopInst) startsEmpty(list, n *Term) bool {
	if v := l.Var(list); v != nil {
		return emptyList(v.Init)
	}
	return bufLen(list) != nil && linDiffZero(bufLen(list), n)
}

// produced: what a round adds to the list (at nil) or stores into it.
func (l *LoopInst) produced(it *Trace, list *Term) (val, at *Term) {
	if v := l.Var(list); v != nil {
		nx := it.Next[list]
		if nx != nil && nx.Op == "append" && nx.Args[0] == list && len(nx.Args) == 2 {
			return nx.Args[1], nil
		}
		return nil, nil
	}
	for _, e := range it.of("store") {
		if inLoop(e, l) && e.Loc.Op == "iaddr" && e.Loc.Args[0] == list {
			if val != nil {
				return nil, nil
			}
			val, at = e.Val, e.Loc.Args[1]
		}
	}
	return val, at
}

// flatBit: on this round the value is bit i%8 of byte i/8 of data.
func flatBit(it *Trace, val, data, i *Term) bool {
	var b *Term
	val.Any(func(x *Term) bool {
		if l, k, ok := elemIndex(x); ok && l == data && div8(k) != nil && linDiffZero(div8(k), i) {
			b = x
		}
		return false
	})
	js := map[*Term]bool{}
	mods(val, js)
	// a decided flag: the branch taken tells the bit
	if b == nil && (val.IsTrue() || val.IsFalse()) {
		for _, f := range it.Facts {
			cond := f.Atom
			if f.Val != val.IsTrue() {
				cond = tNot(cond)
			}
			if cond.Op != "const" && flatBit(it, cond, data, i) {
				return true
			}
		}
		return false
	}
	if b == nil || len(js) != 1 {
		return false
	}
	for j := range js {
		return linDiffZero(mod8(j), i) && bitTest(val, b, j)
	}
	return false
}

func (c *Chk) nestedFlags(t *Trace, out *LoopInst, list, data *Term) bool {
	n := tLen(data)
	n8 := mk("bin", "*", types.Typ[types.Int], n, tInt(8))
	if !out.startsEmpty(list, n8) {
		return false
	}
	for _, ov := range out.Phis {
		if out.sharedVar(ov) {
			continue
		}
		// the byte index may run from zero or from before it
		for _, k := range []int64{0, 1} {
			i := tAdd(ov.Term, k)
			if !covers(out, n, i) || !within(out, i, n) || !t.leftExhausted(out, i, n) {
				continue
			}
			all := len(out.Iters) > 0
			for _, it := range out.Iters {
				ok := false
				for _, in := range it.loopsIn() {
					if in == out || !inLoop(it.enter(in), out) {
						continue
					}
					ok = ok || c.bitLoop(it, out, in, list, data, i)
				}
				// the eight bits written out
				if !ok {
					ok = eightBits(it, out, list, data, i)
				}
				all = all && ok
			}
			if all && (out.Var(list) == nil || upFrom(out, ov)) {
				return true
			}
		}
	}
	return false
}

// eightBits: one round appends or stores the eight bits one after another.
func eightBits(it *Trace, out *LoopInst, list, data, i *Term) bool {
	nx := it.Next[list]
	if nx == nil || nx.Op != "append" || nx.Args[0] != list || len(nx.Args) != 9 {
		return false
	}
	for j := int64(0); j < 8; j++ {
		var b *Term
		v := nx.Args[1+j]
		v.Any(func(x *Term) bool {
			if l, k, ok := elemIndex(x); ok && l == data && linDiffZero(k, i) {
				b = x
			}
			return false
		})
		if b == nil {
			return false
		}
		for x := int64(0); x < 256; x++ {
			r, ok := num(v, map[*Term]int64{b: x})
			if !ok || r != x>>uint(j)&1 {
				return false
			}
		}
	}
	return true
}

// bitLoop: the inner loop produces the eight bits of byte i in order.
func (c *Chk) bitLoop(it *Trace, out, in *LoopInst, list, data, i *Term) bool {
	eight := tInt(8)
	// the list as the inner loop sees it
	inner := list
	if out.Var(list) != nil {
		inner = it.Next[list]
		v := in.Var(inner)
		if v == nil || v.Init != list {
			return false
		}
	}
	for _, v := range in.Phis {
		if in.sharedVar(v) || !covers(in, eight, v.Term) || !within(in, v.Term, eight) || !it.leftExhausted(in, v.Term, eight) {
			continue
		}
		j := v.Term
		ok := len(in.Iters) > 0
		for _, r := range in.Iters {
			val, at := in.produced(r, inner)
			if val == nil {
				ok = false
				break
			}
			if at == nil {
				ok = ok && upFrom(in, v)
			} else {
				d := newLin()
				d.add(lin(at), 1)
				d.add(lin(i), -8)
				d.add(lin(j), -1)
				ok = ok && d.isZero()
			}
			ok = ok && roundBit(in, r, val, data, i, j)
		}
		if ok {
			return true
		}
	}
	return false
}

// roundBit: the value is bit j of byte i.
func roundBit(in *LoopInst, r *Trace, val, data, i, j *Term) bool {
	var b *Term
	val.Any(func(x *Term) bool {
		if l, k, ok := elemIndex(x); ok && l == data && linDiffZero(k, i) {
			b = x
		}
		return false
	})
	if b == nil && (val.IsTrue() || val.IsFalse()) {
		for _, f := range r.Facts {
			cond := f.Atom
			if f.Val != val.IsTrue() {
				cond = tNot(cond)
			}
			if cond.Op != "const" && cond.Op != "not" && roundBit(in, r, cond, data, i, j) || cond.Op == "not" && cond.Args[0].Op != "const" && roundBit(in, r, cond, data, i, j) {
				return true
			}
		}
		return false
	}
	if b != nil {
		return bitTest(val, b, j)
	}
	// a copy of the byte that moves down one bit each round
	for _, v := range in.Phis {
		if v.Init == nil {
			continue
		}
		l, k, ok := elemIndex(v.Init)
		if !ok || l != data || !linDiffZero(k, i) {
			continue
		}
		moves := len(in.Iters) > 0
		for _, o := range in.Iters {
			nx := o.Next[v.Term]
			m := nx != nil && nx.Op == "bin" && nx.Args[0] == v.Term
			if m {
				n, isC := nx.Args[1].Int()
				m = isC && (nx.S == ">>" && n == 1 || nx.S == "/" && n == 2)
			}
			moves = moves && m
		}
		// and the counter runs up
		if !moves {
			continue
		}
		good := true
		for x := int64(0); x < 256; x++ {
			n, ok := num(val, map[*Term]int64{v.Term: x})
			good = good && ok && n == x&1
		}
		for _, u := range in.Phis {
			if u.Term == j {
				good = good && upFrom(in, u)
			}
		}
		if good {
			return true
		}
	}
	return false
}

// ---- bytes from flags ----

func (c *Chk) fromBools() {
	p := c.P("net.BoolArrayToByte")
	data := param(p, 0)
	n := tLen(data)
	for _, t := range ends(p, "return", "panic") {
		if !c.check("bits", t.End == "return", t, nil, "BoolArrayToByte panics") {
			continue
		}
		r := t.Ret[0]
		if t.Facts.ProveLE(n, tInt(0), 0) && emptyList(r) {
			continue
		}
		ok := false
		for _, l := range t.loopsIn() {
			ok = ok || c.packFlat(t, l, r, data) || c.packNested(t, l, r, data)
		}
		c.check("bits", ok, t, nil, "flag i is not bit i mod 8 of byte i div 8 of the result for every i")
	}
}

// ceil8: the term is the number of bytes that hold that many flags.
func ceil8(v, n *Term) bool {
	v = unconv(v)
	if v == nil || v.Op != "bin" {
		return false
	}
	k, ok := v.Args[1].Int()
	if !ok || !(v.S == "/" && k == 8 || v.S == ">>" && k == 3) {
		return false
	}
	d := linDiff(v.Args[0], n)
	return d.isConst() && d.C == 7
}

// packFlat: a byte slice of the right length, bit by bit.
func (c *Chk) packFlat(t *Trace, l *LoopInst, r, data *Term) bool {
	n := tLen(data)
	if bufLen(r) == nil || !ceil8(bufLen(r), n) {
		return false
	}
	for _, v := range l.Phis {
		if l.sharedVar(v) {
			continue
		}
		for _, k := range []int64{0, 1} {
			i := tAdd(v.Term, k)
			if !covers(l, n, i) || !within(l, i, n) || !t.leftExhausted(l, i, n) {
				continue
			}
			all := len(l.Iters) > 0
			for _, it := range l.Iters {
				set := it.flag(data, i)
				var st *Event
				cnt := 0
				for _, e := range it.Events {
					if inLoop(e, l) && touches(e, bufRoot(r)) {
						st = e
						cnt++
					}
				}
				switch {
				case set == -1:
					all = all && cnt == 0
				case set == 1:
					all = all && cnt == 1 && setsFlat(it, st, r, i)
				default:
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return false
}

// flag: what the round knows of data[i].
func (t *Trace) flag(data, i *Term) int {
	for _, f := range t.Facts {
		l, k, ok := elemIndex(f.Atom)
		for ok && l != data && l.Op == "slice" {
			if l.Args[1].Op != "none" {
				k = mk("bin", "+", types.Typ[types.Int], l.Args[1], k)
			}
			l = l.Args[0]
		}
		if ok && l == data && linDiffZero(k, i) {
			if f.Val {
				return 1
			}
			return -1
		}
	}
	return 0
}

// setsFlat: the store sets bit i%8 of byte i/8 and leaves the others.
func setsFlat(it *Trace, e *Event, r, i *Term) bool {
	if e.Kind != "store" || e.Loc.Op != "iaddr" || e.Loc.Args[0] != r || div8(e.Loc.Args[1]) == nil || !linDiffZero(div8(e.Loc.Args[1]), i) {
		return false
	}
	old := e.Old
	if old == nil {
		for _, x := range it.of("load") {
			if x.Loc == e.Loc && x.Seq < e.Seq {
				old = x.Val
			}
		}
	}
	js := map[*Term]bool{}
	mods(e.Val, js)
	if old == nil || len(js) != 1 {
		return false
	}
	for j := range js {
		return linDiffZero(mod8(j), i) && bitSet(e.Val, old, j, false)
	}
	return false
}

// packNested: a loop over groups of eight flags with a loop over the flags of
// a group inside.
func (c *Chk) packNested(t *Trace, out *LoopInst, r, data *Term) bool {
	n := tLen(data)
	appended := out.Var(r) != nil
	if appended && !emptyList(out.Var(r).Init) || !appended && !(bufLen(r) != nil && ceil8(bufLen(r), n)) {
		return false
	}
	for _, v := range out.Phis {
		if out.sharedVar(v) || v.Init == nil || !isZero(v.Init) {
			continue
		}
		i := v.Term
		step, ok := inductionStep(out, v)
		if !ok || step != 8 && step != 1 {
			continue
		}
		first := i // number of the first flag of the group
		if step == 1 {
			first = mk("bin", "*", types.Typ[types.Int], i, tInt(8))
		}
		// left only when no flag remains; groups are entered only while one does
		if step == 8 && !t.Facts.ProveLE(n, i, 0) {
			continue
		}
		if step == 1 {
			done := false
			for _, f := range t.Facts {
				if f.Atom.Op == "lt" && !f.Val && f.Atom.Args[0] == i && (ceil8(f.Atom.Args[1], n) || f.Atom.Args[1].Op == "len" && bufLen(f.Atom.Args[1].Args[0]) != nil && ceil8(bufLen(f.Atom.Args[1].Args[0]), n)) {
					done = true
				}
			}
			if !done {
				continue
			}
		}
		all := len(out.Iters) > 0
		for _, it := range out.Iters {
			if step == 8 && !it.Facts.ProveLT(i, n) {
				all = false
				break
			}
			var val *Term
			if appended {
				nx := it.Next[r]
				if nx == nil || nx.Op != "append" || nx.Args[0] != r || len(nx.Args) != 2 {
					all = false
					break
				}
				val = nx.Args[1]
			} else {
				for _, e := range it.Events {
					if inLoop(e, out) && touches(e, bufRoot(r)) {
						idxOK := e.Kind == "store" && e.Loc.Op == "iaddr" && e.Loc.Args[0] == r &&
							(step == 1 && linDiffZero(e.Loc.Args[1], i) || step == 8 && div8(e.Loc.Args[1]) == i)
						if !idxOK || val != nil {
							all = false
						}
						val = e.Val
					}
				}
				if val == nil {
					all = false
				}
			}
			if !all {
				break
			}
			found := false
			for _, in := range it.loopsIn() {
				if in != out && in.Var(val) != nil {
					found = groupLoop(it, in, val, data, first)
				}
			}
			all = all && found
		}
		if all {
			return true
		}
	}
	return false
}

// groupLoop: the inner loop sets bit j for every set flag first+j, for all j
// below eight that are flags of the input.
func groupLoop(it *Trace, in *LoopInst, acc, data, first *Term) bool {
	n := tLen(data)
	av := in.Var(acc)
	if av == nil || !isZero(av.Init) {
		return false
	}
	for _, v := range in.Phis {
		if v == av || in.sharedVar(v) {
			continue
		}
		step, ok := inductionStep(in, v)
		if !ok || step != 1 || v.Init == nil {
			continue
		}
		// v counts the bits, or the flags themselves
		var bitNo, flagNo *Term
		if from := lin(v.Init); from.isConst() && (from.C == 0 || from.C == -1) {
			bitNo = tAdd(v.Term, -from.C)
			flagNo = mk("bin", "+", types.Typ[types.Int], first, bitNo)
		} else if linDiffZero(v.Init, first) {
			bitNo = mk("bin", "-", types.Typ[types.Int], v.Term, first)
			flagNo = v.Term
		} else {
			continue
		}
		good := len(in.Iters) > 0
		for _, r := range in.Iters {
			if !r.Facts.ProveLT(bitNo, tInt(8)) && !ltLin(r.Facts, linDiff(bitNo, tInt(8))) {
				good = false
			}
			nx := r.Next[acc]
			switch r.flag(data, flagNo) {
			case 1:
				ok := false
				// the bit number as it is written
				cands := map[*Term]bool{bitNo: true, v.Term: linDiffZero(bitNo, v.Term)}
				if nx != nil {
					mods(nx, cands)
					nx.Any(func(x *Term) bool {
						if x.T != nil && isIntType(x.T) && linDiffZero(x, bitNo) {
							cands[x] = true
						}
						return false
					})
				}
				for j, use := range cands {
					if !use || nx == nil {
						continue
					}
					m := mod8(j)
					if (linDiffZero(j, bitNo) || m != nil && (linDiffZero(m, bitNo) || linDiffZero(m, flagNo))) && bitSet(nx, acc, j, true) {
						ok = true
					}
				}
				good = good && ok
			case -1:
				good = good && nx == acc
			default:
				good = false
			}
		}
		// left when the group or the input is exhausted, and only then
		f := it.Facts
		end := newLin()
		end.C = 8
		end.add(lin(bitNo), -1)
		past := linDiff(n, flagNo)
		ls := f.linear(bitNo, flagNo, n)
		if good && (proveLE0(ls, end) || proveLE0(ls, past)) {
			return true
		}
	}
	return false
}

func ltLin(f Facts, l *Lin) bool {
	d := newLin()
	d.add(l, 1)
	d.C++
	return proveLE0(f.linear(), d)
}

// ---- copies ----

func (c *Chk) copies() {
	p := c.P("net.CopyBytes")
	data, n := param(p, 0), param(p, 1)
	for _, t := range ends(p, "return", "back") {
		good := t.End == "return"
		if good {
			r := t.Ret[0]
			cut := func(v *Term) bool {
				return v != nil && v.Op == "slice" && v.Args[0] == data && (v.Args[1].Op == "none" || isZero(v.Args[1])) && v.Args[2] == n
			}
			switch {
			case r.IsCall("bytes.Clone", "slices.Clone"):
				good = cut(r.Args[0])
			case r.Op == "appends":
				good = emptyList(r.Args[0]) && bufRoot(r.Args[0]) != data && cut(r.Args[1])
			default:
				cnt := 0
				good = bufLen(r) != nil && linDiffZero(bufLen(r), n) && bufRoot(r) != data
				for _, e := range t.Events {
					if touches(e, bufRoot(r)) && e.Kind != "append" {
						cnt++
						good = good && e.Kind == "copy" && (e.Loc == r) && (cut(e.Val) || e.Val == data)
					}
				}
				good = good && cnt == 1
			}
		}
		c.check("fresh", good, t, nil, "the result is not a copy of the first bytes of the input")
	}
	p = c.P("net.CreateAllTrueBoolArray")
	size := param(p, 0)
	for _, t := range ends(p, "return") {
		r := t.Ret[0]
		good := t.Facts.ProveLE(size, tInt(0), 0) && emptyList(r)
		for _, l := range t.loopsIn() {
			if !l.startsEmpty(r, size) {
				continue
			}
			// the list counts itself
			if l.Var(r) != nil && t.Facts.ProveLE(size, tLen(r), 0) {
				all := len(l.Iters) > 0
				for _, it := range l.Iters {
					val, at := l.produced(it, r)
					all = all && at == nil && val != nil && val.IsTrue() && it.Facts.ProveLT(tLen(r), size)
				}
				good = good || all
			}
			for _, v := range l.Phis {
				for _, k := range []int64{0, 1} {
					i := tAdd(v.Term, k)
					if l.sharedVar(v) || !covers(l, size, i) || !within(l, i, size) || !t.leftExhausted(l, i, size) {
						continue
					}
					all := len(l.Iters) > 0
					for _, it := range l.Iters {
						val, at := l.produced(it, r)
						all = all && val != nil && val.IsTrue() && (at == nil || linDiffZero(at, i))
					}
					good = good || all
				}
			}
		}
		c.check("fresh", good, t, nil, "the result is not filled with true to its whole length")
	}
}

func init() {
	register("N03", "list-building typestate with linear positions: pieces proven consecutive, bounded and complete; bit positions decided by exhaustive evaluation of the bit expression over all bytes and bit numbers; fresh covering fills; BoolArrayToByte reads only within its argument", ruleN03)
}

package main

import (
	"go/types"
	"sort"
	"strings"
)

// Rules for the pure helpers: math, comparer and the byte conversions.

// ---- Min / Max ----

// direct: the facts that compare the values themselves (or values widened so
// far that the arithmetic on them is exact).
func direct(fs Facts, size int64) Facts {
	var ok func(t *Term) bool
	ok = func(t *Term) bool {
		switch t.Op {
		case "param", "const", "zero":
			return true
		case "bin":
			n, _, isInt := intKind(t.T)
			return isInt && n > size && (t.S == "+" || t.S == "-") && ok(t.Args[0]) && ok(t.Args[1])
		}
		return false
	}
	var out Facts
	for _, f := range fs {
		switch f.Atom.Op {
		case "lt", "le", "eq":
			if ok(f.Atom.Args[0]) && ok(f.Atom.Args[1]) {
				out = append(out, f)
			}
		}
	}
	return out
}

// notAbove: the path knows a <= b for ordered values.
func notAbove(fs Facts, a, b *Term) bool {
	if a == b || fs.Eval(tLt(b, a)) == -1 {
		return true
	}
	for _, f := range fs {
		x := f.Atom
		if x.Op == "le" && (f.Val && x.Args[0] == a && x.Args[1] == b || !f.Val && x.Args[0] == b && x.Args[1] == a) {
			return true
		}
	}
	return false
}

func unconv(v *Term) *Term {
	for v != nil && v.Op == "conv" {
		v = v.Args[0]
	}
	return v
}

var minMaxTypes = []struct{ suffix, typ string }{
	{"", "int"}, {"64", "int64"}, {"32", "int32"}, {"16", "int16"}, {"8", "int8"},
	{"UInt", "uint"}, {"UInt64", "uint64"}, {"UInt32", "uint32"}, {"UInt16", "uint16"}, {"UInt8", "uint8"},
	{"Float32", "float32"}, {"Float64", "float64"},
}

func ruleX01(c *Chk) {
	for _, mt := range minMaxTypes {
		for _, kind := range []string{"Min", "Max"} {
			n := "math." + kind + mt.suffix
			p := c.P(n)
			if p == nil {
				continue
			}
			sig := p.Fn.Signature
			okSig := sig.Params().Len() == 2 && sig.Results().Len() == 1
			if okSig {
				for _, t := range []types.Type{sig.Params().At(0).Type(), sig.Params().At(1).Type(), sig.Results().At(0).Type()} {
					b, isB := t.Underlying().(*types.Basic)
					okSig = okSig && isB && b.Name() == mt.typ
				}
			}
			if !okSig {
				c.bad("type", n, "%s does not take and return %s", n, mt.typ)
				continue
			}
			c.Obl["type"]++
			size := int64(8)
			if b, ok := sig.Params().At(0).Type().Underlying().(*types.Basic); ok {
				size = types.SizesFor("gc", "amd64").Sizeof(b)
			}
			a, b := param(p, 0), param(p, 1)
			for _, t := range ends(p, "return", "panic", "back") {
				if !c.check("choice", t.End == "return" && len(t.Ret) == 1, t, nil, "%s does not simply return", n) {
					continue
				}
				r := t.Ret[0]
				if mt.typ == "float32" || mt.typ == "float64" {
					u := unconv(r)
					if u.IsCall("math."+kind) && len(u.Args) == 2 {
						x, y := unconv(u.Args[0]), unconv(u.Args[1])
						c.check("choice", x == a && y == b || x == b && y == a, t, nil, "%s does not choose between its two arguments", n)
						continue
					}
				}
				if r != a && r != b {
					// a constant or conversion known to equal one of them is not accepted: it is not that argument for every input
					c.check("choice", false, t, nil, "%s returns something else than one of its arguments", n)
					continue
				}
				o := a
				if r == a {
					o = b
				}
				fs := direct(t.Facts, size)
				if kind == "Min" {
					c.check("choice", notAbove(fs, r, o), t, nil, "%s may return the larger argument", n)
				} else {
					c.check("choice", notAbove(fs, o, r), t, nil, "%s may return the smaller argument", n)
				}
			}
		}
	}
	c.atLeast("type", 24)
	c.atLeast("choice", 24)
}

// ---- IntPointMove ----

func (t *Term) subst(m map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = a.subst(m)
		ch = ch || args[i] != a
	}
	if !ch {
		return t
	}
	switch t.Op {
	case "lt":
		return tLt(args[0], args[1])
	case "eq":
		return tEq(args[0], args[1])
	case "not":
		return tNot(args[0])
	}
	return mkObj(t.Op, t.S, t.T, t.Obj, args...)
}

// contradictory: no run takes a path with these facts.
func (f Facts) contradictory() bool {
	if inconsistent(f.linear()) {
		return true
	}
	for i, x := range f {
		if x.Atom.Op == "const" && x.Atom.IsTrue() != x.Val {
			return true
		}
		for _, y := range f[i+1:] {
			if x.Atom == y.Atom && x.Val != y.Val {
				return true
			}
		}
	}
	return false
}

// inconsistent: no values satisfy all the inequalities.
// Terms are eliminated one by one; large systems are given up on.
func inconsistent(ls []*Lin) bool {
	cur := append([]*Lin(nil), ls...)
	for {
		var v *Term
		for _, l := range cur {
			if l.isConst() {
				if l.C > 0 {
					return true
				}
				continue
			}
			for t := range l.Coef {
				if v == nil || t.ID < v.ID {
					v = t
				}
			}
		}
		if v == nil {
			return false
		}
		var next, ups, downs []*Lin
		for _, l := range cur {
			switch c := l.Coef[v]; {
			case c > 0:
				ups = append(ups, l)
			case c < 0:
				downs = append(downs, l)
			case !l.isConst():
				next = append(next, l)
			}
		}
		for _, u := range ups {
			for _, d := range downs {
				n := newLin()
				n.add(u, -d.Coef[v])
				n.add(d, u.Coef[v])
				if n.isConst() && n.C > 0 {
					return true
				}
				dup := n.isConst()
				for _, o := range next {
					dup = dup || o.C >= n.C && o.sameVec(n, 1)
				}
				if !dup {
					next = append(next, n)
				}
			}
		}
		if len(next) > 400 {
			return false
		}
		cur = next
	}
}

// trip is one way a loop may have been left on a path: without any round, or
// after a last round of a known kind.
type trip struct {
	facts Facts
	n     *Lin // number of rounds
	iters []*Trace
}

// trips enumerates the ways the loop may have been left on the path. Rounds
// are counted by a variable that moves by one each round.
func (t *Trace) trips(inst *LoopInst, base Facts) []trip {
	var cv *LoopVar
	var step int64
	for _, v := range inst.Phis {
		if v.Init == nil || inst.sharedVar(v) {
			continue
		}
		if st, ok := inductionStep(inst, v); ok && (st == 1 || st == -1) {
			cv, step = v, st
			break
		}
	}
	if cv == nil {
		return nil
	}
	phi := map[*Term]bool{}
	for _, v := range inst.Phis {
		phi[v.Term] = true
	}
	out := []trip{{facts: base.Add(tEq(cv.Term, cv.Init), true), n: newLin()}}
	prev := mk("bin", "+", types.Typ[types.Int], cv.Term, tInt(-step))
	for _, it := range inst.Iters {
		f := base
		for _, x := range it.Facts {
			foreign := x.Atom.Any(func(y *Term) bool { return phi[y] && y != cv.Term })
			if !foreign {
				f = f.Add(x.Atom.subst(map[*Term]*Term{cv.Term: prev}), x.Val)
			}
		}
		n := newLin()
		n.add(lin(cv.Term), step)
		n.add(lin(cv.Init), -step)
		// at least one round
		if step > 0 {
			f = f.Add(tLt(cv.Init, cv.Term), true)
		} else {
			f = f.Add(tLt(cv.Term, cv.Init), true)
		}
		tr := trip{facts: f, n: n}
		for _, o := range inst.Iters {
			inv := base
			for _, x := range it.Facts {
				if !x.Atom.Any(func(y *Term) bool { return phi[y] }) {
					inv = inv.Add(x.Atom, x.Val)
				}
			}
			for _, x := range o.Facts {
				if !x.Atom.Any(func(y *Term) bool { return phi[y] }) {
					inv = inv.Add(x.Atom, x.Val)
				}
			}
			if !inv.contradictory() {
				tr.iters = append(tr.iters, o)
			}
		}
		out = append(out, tr)
	}
	return out
}

// scaled decomposes a value into base * 10^mul / 10^div.
func scaled(v *Term, loops map[*LoopInst]trip) (base *Term, mul, div *Lin, ok bool) {
	if v.Op == "bin" && v.S == "*" {
		for i := 0; i < 2; i++ {
			b, m, d, ok := scaled(v.Args[i], loops)
			p, pm, pd, ok2 := scaled(v.Args[1-i], loops)
			if one, isC := p.Int(); ok && ok2 && isC && one == 1 && pd.isZero() && d.isZero() {
				m.add(pm, 1)
				return b, m, d, true
			}
		}
		return v, nil, nil, false
	}
	for inst, tr := range loops {
		lv := inst.Var(v)
		if lv == nil || lv.Init == nil {
			continue
		}
		b, m, d, ok := scaled(lv.Init, loops)
		if !ok {
			return v, nil, nil, false
		}
		kind := ""
		for _, it := range tr.iters {
			nx := it.Next[v]
			k := "?"
			switch {
			case nx == nil:
			case nx == v:
				k = "same"
			case nx.Op == "bin" && (nx.S == "*" || nx.S == "/") && nx.Args[0] == v && isTen(nx.Args[1]):
				k = nx.S
			case nx.Op == "bin" && nx.S == "*" && nx.Args[1] == v && isTen(nx.Args[0]):
				k = "*"
			}
			if kind != "" && kind != k {
				return v, nil, nil, false
			}
			kind = k
		}
		switch kind {
		case "*":
			m.add(tr.n, 1)
		case "/":
			d.add(tr.n, 1)
		case "", "same":
		default:
			return v, nil, nil, false
		}
		return b, m, d, true
	}
	return v, newLin(), newLin(), true
}

func isTen(t *Term) bool { n, ok := t.Int(); return ok && n == 10 }

func ruleX02(c *Chk) {
	p := c.P("math.IntPointMove")
	value, shift := param(p, 0), param(p, 1)
	for _, t := range ends(p, "return", "panic") {
		if !c.check("total", t.End == "return", t, nil, "IntPointMove panics") {
			continue
		}
		loops := t.loopsIn()
		var rec func(i int, f Facts, m map[*LoopInst]trip)
		rec = func(i int, f Facts, m map[*LoopInst]trip) {
			if i < len(loops) {
				ts := t.trips(loops[i], f)
				if !c.check("counted", ts != nil, t, t.enter(loops[i]), "the number of rounds of a loop does not follow from its arguments") {
					return
				}
				for _, tr := range ts {
					if tr.facts.contradictory() {
						continue
					}
					m2 := map[*LoopInst]trip{loops[i]: tr}
					for k, v := range m {
						m2[k] = v
					}
					rec(i+1, tr.facts, m2)
				}
				return
			}
			b, mul, div, ok := scaled(t.Ret[0], m)
			if !c.check("scaled", ok && b == value, t, nil, "the result is not the value scaled by tens") {
				return
			}
			ls := f.linear(shift)
			// mul - div == shift, and not both ways
			d := newLin()
			d.add(mul, 1)
			d.add(div, -1)
			d.add(lin(shift), -1)
			nd := newLin()
			nd.add(d, -1)
			c.check("steps", proveLE0(ls, d) && proveLE0(ls, nd), t, nil, "the value is not scaled once per shift step")
			both := append([]*Lin(nil), ls...)
			for _, n := range []*Lin{mul, div} {
				one := newLin()
				one.add(n, -1)
				one.C++
				both = append(both, one)
			}
			c.check("steps", proveLE0(ls, mul) || proveLE0(ls, div) || inconsistent(both), t, nil, "the value is both multiplied and divided")
		}
		rec(0, t.Facts, map[*LoopInst]trip{})
	}
	c.atLeast("steps", 2)
}

// ---- CompareSlice ----

// ids: the term is the identity reported by an element of a list.
func identity(k *Term) (list, idx *Term) {
	k = wideOf(k)
	if k == nil || !strings.HasSuffix(callee(k), ".GetId") || len(k.Args) == 0 {
		return nil, nil
	}
	l, i, ok := elemIndex(unface(k.Args[0]))
	if !ok {
		return nil, nil
	}
	return l, i
}

func callee(t *Term) string {
	if t == nil || t.Op != "call" {
		return ""
	}
	s := t.S
	if i := strings.Index(s, "@"); i >= 0 {
		s = s[:i]
	}
	return s
}

// idsOf: the list whose elements' identities are exactly the keys of the map.
func (t *Trace) idsOf(m *Term, before *LoopInst) *Term {
	if m == nil || m.Op != "mkmap" {
		return nil
	}
	var list *Term
	n := 0
	for _, l := range t.loopsIn() {
		fills, last := false, l == before
		for _, it := range l.Iters {
			for _, e := range it.of("mapset", "mapdel", "mapclear") {
				if e.Map == m && inLoop(e, l) {
					fills = true
				}
			}
		}
		if last && !fills {
			break
		}
		if !fills {
			continue
		}
		if last {
			return nil
		}
		n++
		for _, it := range l.Iters {
			k := 0
			for _, e := range it.Events {
				if e.Map != m || !inLoop(e, l) || e.Kind == "mapget" || e.Kind == "maplen" {
					continue
				}
				if e.Kind != "mapset" {
					return nil
				}
				src, idx := identity(e.Key)
				if src == nil || list != nil && list != src || !covers(l, tLen(src), idx) || !t.leftExhausted(l, idx, tLen(src)) {
					return nil
				}
				list = src
				k++
				if e.Val.T != nil && typeIs(e.Val.T, isBoolType) && !e.Val.IsTrue() {
					return nil
				}
			}
			if k != 1 {
				return nil
			}
		}
	}
	for _, e := range t.of("mapset", "mapdel", "mapclear") {
		if e.Map == m {
			return nil
		}
	}
	if n != 1 {
		return nil
	}
	return list
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// occurs: does the round know that the identity of the element occurs in
// other? 1 yes, -1 no.
func (c *Chk) occurs(t *Trace, l *LoopInst, it *Trace, src, idx, other *Term) int {
	res := 0
	for _, e := range it.of("mapget") {
		if !inLoop(e, l) {
			continue
		}
		s, i := identity(e.Key)
		if s != src || i == nil || !linDiffZero(i, idx) || t.idsOf(e.Map, l) != other {
			continue
		}
		v := it.truth(e.Ok)
		if v == 0 && e.Res != nil && typeIs(e.Res.T, isBoolType) {
			v = it.truth(e.Res)
		}
		if v != 0 {
			res = v
		}
	}
	return res
}

func linDiffZero(a, b *Term) bool { return linDiff(a, b).isZero() }

func ruleK01(c *Chk) {
	p := c.P("comparer.CompareSlice")
	cur, mod := param(p, 0), param(p, 1)
	specs := []struct {
		what       string
		src, other *Term
		want       int
	}{{"deleted", cur, mod, -1}, {"created", mod, cur, -1}, {"modified", cur, mod, 1}}
	for _, t := range p.Traces {
		for _, e := range t.of("store", "copy", "append", "mapset") {
			r := bufRoot(e.Loc)
			if e.Kind == "append" {
				r = bufRoot(e.Val)
			}
			c.check("inputs", r == nil || r != cur && r != mod, t, e, "an input slice is modified")
		}
	}
	for _, t := range ends(p, "return", "panic") {
		if !c.check("total", t.End == "return" && len(t.Ret) == 3, t, nil, "CompareSlice panics") {
			continue
		}
		for i, sp := range specs {
			r := t.Ret[i]
			none := t.Facts.ProveLE(tLen(sp.src), tInt(0), 0)
			noOther := t.Facts.ProveLE(tLen(sp.other), tInt(0), 0)
			switch {
			case (none || noOther && sp.want > 0) && emptyList(r) && bufRoot(r) != cur && bufRoot(r) != mod:
				c.check("members", true, t, nil, "")
				continue
			case r == sp.src && noOther && sp.want < 0:
				c.check("members", true, t, nil, "")
				continue
			}
			done := false
			for _, l := range t.loopsIn() {
				v := l.Var(r)
				if v == nil {
					continue
				}
				done = true
				br := bufRoot(v.Init)
				c.check("members", emptyList(v.Init) && (br == nil || br != cur && br != mod), t, t.enter(l), "the %s list does not start out as an empty list of its own", sp.what)
				idx := (*Term)(nil)
				for _, it := range l.Iters {
					nx := it.Next[r]
					if nx != nil && nx.Op == "append" && nx.Args[0] == r && len(nx.Args) == 2 {
						if s, k, ok := elemIndex(nx.Args[1]); ok && s == sp.src {
							idx = k
						}
					}
				}
				if !c.check("members", idx != nil && covers(l, tLen(sp.src), idx) && t.leftExhausted(l, idx, tLen(sp.src)), t, t.enter(l), "the %s list is not built from all elements of its source in order", sp.what) {
					continue
				}
				for _, it := range l.Iters {
					nx := it.Next[r]
					in := c.occurs(t, l, it, sp.src, idx, sp.other)
					taken := nx != r
					okTake := nx == r
					if taken && nx != nil && nx.Op == "append" && nx.Args[0] == r && len(nx.Args) == 2 {
						s, k, ok := elemIndex(nx.Args[1])
						okTake = ok && s == sp.src && linDiffZero(k, idx)
					}
					c.check("members", okTake, t, it.enter(l), "something else than the examined element is put on the %s list", sp.what)
					if taken {
						c.check("members", in == sp.want, t, it.enter(l), "an element is put on the %s list without its id being known to (not) occur in the other slice", sp.what)
					} else {
						c.check("members", in == -sp.want, t, it.enter(l), "an element is left off the %s list without its id being known to (not) occur in the other slice", sp.what)
					}
				}
				break
			}
			c.check("members", done, t, nil, "the %s list is not what the function built", sp.what)
		}
	}
	c.atLeast("members", 6)
	c.atLeast("inputs", 2)
}

// ---- byte layouts ----

// seg is one byte of a value (counted from the least significant end) or, for
// N < 0, a whole byte slice.
type seg struct {
	Src   *Term
	K     int64
	Order string // for bytes written by an order chosen by the caller
	N     int64  // width the order applies to
}

func intSize(t *Term) int64 {
	if t == nil || t.T == nil {
		return 0
	}
	n, _, ok := intKind(t.T)
	if !ok {
		return 0
	}
	return n
}

// byteOf: which byte of which value the term is.
func byteOf(v *Term) (src *Term, k int64, ok bool) { return byteAt(v, 0) }

// byteAt: which byte of which value byte n of the term is.
func byteAt(v *Term, n int64) (src *Term, k int64, ok bool) {
	shift := 8 * n
	for v != nil {
		switch {
		case v.Op == "conv" && isIntType(v.T) && v.Args[0].T != nil && isIntType(v.Args[0].T):
			// narrowing keeps the low bytes
			if intSize(v) <= shift/8 {
				return nil, 0, false
			}
			v = v.Args[0]
		case v.Op == "bin" && v.S == ">>":
			n, isC := v.Args[1].Int()
			if !isC {
				return v, shift / 8, shift%8 == 0
			}
			shift += n
			v = v.Args[0]
		case v.Op == "bin" && v.S == "/" && isUnsigned(v.Args[0].T):
			n, isC := v.Args[1].Int()
			s := int64(-1)
			for j := int64(0); j < 63; j++ {
				if isC && n == 1<<uint(j) {
					s = j
				}
			}
			if s < 0 {
				return nil, 0, false
			}
			shift += s
			v = v.Args[0]
		case v.Op == "bin" && v.S == "&":
			n, isC := v.Args[1].Int()
			if !isC || shift != 0 || n&0xff != 0xff {
				return nil, 0, false
			}
			v = v.Args[0]
		default:
			return v, shift / 8, shift%8 == 0 && (intSize(v) == 0 || shift/8 < intSize(v))
		}
	}
	return nil, 0, false
}

func isUnsigned(t types.Type) bool {
	if t == nil {
		return false
	}
	_, signed, ok := intKind(t)
	return ok && !signed
}

// orderCall splits the name of a byte order method: the order it uses and
// the width in bytes.
func (t *Trace) orderCall(e *Event, prefix string) (order string, n int64, ok bool) {
	name := e.Name
	i := strings.LastIndex(name, ".")
	if i < 0 || !strings.Contains(name, "encoding/binary.") || !strings.HasPrefix(name[i+1:], prefix) {
		return "", 0, false
	}
	switch name[i+1+len(prefix):] {
	case "64":
		n = 8
	case "32":
		n = 4
	case "16":
		n = 2
	default:
		return "", 0, false
	}
	switch {
	case strings.Contains(name, "littleEndian"):
		return "little", n, true
	case strings.Contains(name, "bigEndian"):
		return "big", n, true
	}
	o := unface(e.Args[0])
	if o.Op == "load" && o.Args[0].Op == "global" {
		o = o.Args[0]
	}
	switch {
	case o.Op == "global" && strings.HasSuffix(o.S, "binary.LittleEndian"):
		return "little", n, true
	case o.Op == "global" && strings.HasSuffix(o.S, "binary.BigEndian"):
		return "big", n, true
	case o.Op == "param":
		return "param:" + o.S, n, true
	}
	return "", 0, false
}

func orderBytes(order string, n int64, v *Term) []seg {
	out := make([]seg, n)
	for i := int64(0); i < n; i++ {
		k := i
		s := seg{N: 1}
		switch order {
		case "little":
		case "big":
			k = n - 1 - i
		default:
			s.Order, s.N = order, n
		}
		src, b, ok := byteAt(v, k)
		if !ok {
			return nil
		}
		s.Src, s.K = src, b
		out[i] = s
	}
	return out
}

// layout: what a produced byte slice consists of; nil if that is not known.
func (t *Trace) layout(v *Term) []seg {
	if v == nil {
		return nil
	}
	switch v.Op {
	case "append":
		out := t.layout(v.Args[0])
		if out == nil {
			return nil
		}
		for _, a := range v.Args[1:] {
			s, k, ok := byteOf(a)
			if !ok {
				return nil
			}
			out = append(out, seg{Src: s, K: k, N: 1})
		}
		return out
	case "appends":
		a, b := t.layout(v.Args[0]), t.layout(v.Args[1])
		if a == nil || b == nil {
			return nil
		}
		return append(a, b...)
	case "param":
		return []seg{{Src: v, N: -1}}
	}
	for _, e := range t.of("call") {
		if res(e, 0) == v && len(e.Args) == 3 {
			if o, n, ok := t.orderCall(e, "AppendUint"); ok {
				a, b := t.layout(e.Args[1]), orderBytes(o, n, e.Args[2])
				if a == nil || b == nil {
					return nil
				}
				return append(a, b...)
			}
		}
	}
	if emptyList(v) {
		return []seg{}
	}
	filled := false
	if o, isT := v.Obj.(*Term); isT && v.Op == "arr" {
		for _, e := range t.of("call", "copy", "callback") {
			filled = filled || touches(e, o)
		}
	}
	if v.Op == "arr" && !filled {
		out := []seg{}
		for _, a := range v.Args {
			s, k, ok := byteOf(a)
			if !ok {
				return nil
			}
			out = append(out, seg{Src: s, K: k, N: 1})
		}
		return out
	}
	l := bufLen(v)
	root := bufRoot(v)
	if l == nil || root == nil {
		return nil
	}
	// a buffer of its own that is filled piece by piece
	type put struct {
		at   *Lin
		segs []seg
		n    *Lin
	}
	var puts []put
	offset := func(d *Term) *Term {
		if d == v || bufRoot(d) == d || d.Op == "arr" && bufRoot(d) == root {
			return tInt(0)
		}
		if d.Op == "slice" && (d.Args[0] == v || d.Args[0] == root) {
			if d.Args[1].Op == "none" {
				return tInt(0)
			}
			return d.Args[1]
		}
		return nil
	}
	for _, e := range t.Events {
		if e.Kind == "append" || !touches(e, root) {
			continue
		}
		switch e.Kind {
		case "store":
			if e.Loc.Op != "iaddr" || e.Loc.Args[0] != v && e.Loc.Args[0] != root {
				return nil
			}
			s, k, ok := byteOf(e.Val)
			if !ok {
				return nil
			}
			puts = append(puts, put{lin(e.Loc.Args[1]), []seg{{Src: s, K: k, N: 1}}, lin(tInt(1))})
		case "copy":
			o := offset(e.Loc)
			s := t.layout(e.Val)
			if o == nil || s == nil || len(s) != 1 && len(s) > 0 && s[0].N < 0 {
				return nil
			}
			puts = append(puts, put{lin(o), s, lin(tLen(e.Val))})
		case "call":
			o, n, ok := t.orderCall(e, "PutUint")
			if !ok || len(e.Args) != 3 {
				return nil
			}
			at := offset(e.Args[1])
			bs := orderBytes(o, n, e.Args[2])
			if at == nil || bs == nil {
				return nil
			}
			puts = append(puts, put{lin(at), bs, lin(tInt(n))})
		default:
			return nil
		}
	}
	// in the order of their places
	at := newLin()
	out := []seg{}
	for used := 0; used < len(puts); used++ {
		found := false
		for i := range puts {
			d := newLin()
			d.add(at, 1)
			d.add(puts[i].at, -1)
			if puts[i].n != nil && d.isZero() {
				out = append(out, puts[i].segs...)
				at.add(puts[i].n, 1)
				puts[i].n = nil
				found = true
				break
			}
		}
		if !found {
			return nil
		}
	}
	d := newLin()
	d.add(lin(l), 1)
	d.add(at, -1)
	if !d.isZero() {
		return nil
	}
	return out
}

// isEncoding: the layout is the n low bytes of the value in the given order.
func isEncoding(s []seg, v *Term, order string, n int64) bool {
	if int64(len(s)) != n {
		return false
	}
	want := orderBytes(order, n, v)
	if n == 1 {
		src, k, ok := byteOf(v)
		return ok && s[0].Src == src && s[0].K == k && s[0].Order == ""
	}
	if want == nil {
		return false
	}
	for i := range s {
		if s[i] != want[i] {
			return false
		}
	}
	return true
}

// decoded: the value is read from the first n bytes of a slice in an order.
func (t *Trace) decoded(v *Term) (data *Term, order string, n int64, ok bool) {
	inner := v
	for inner.Op == "conv" && inner.Args[0].T != nil && isIntType(inner.Args[0].T) && intSize(inner) >= intSize(inner.Args[0]) {
		inner = inner.Args[0]
	}
	for _, e := range t.of("call") {
		if res(e, 0) == inner && len(e.Args) == 2 {
			if o, n, ok := t.orderCall(e, "Uint"); ok {
				d := e.Args[1]
				if d.Op == "slice" && (d.Args[1].Op == "none" || isZero(d.Args[1])) {
					d = d.Args[0]
				}
				return d, o, n, true
			}
		}
	}
	// put together by shifting
	parts := map[int64]*Term{}
	var walk func(x *Term, top int64) bool
	walk = func(x *Term, shift int64) bool {
		switch {
		case x.Op == "bin" && (x.S == "|" || x.S == "+" || x.S == "^"):
			return walk(x.Args[0], shift) && walk(x.Args[1], shift)
		case x.Op == "bin" && x.S == "<<":
			k, isC := x.Args[1].Int()
			return isC && shift == 0 && intSize(x)*8 > k && walk(x.Args[0], shift+k)
		}
		l, i, isEl := elemIndex(x)
		k, isC := int64(0), false
		if isEl {
			k, isC = i.Int()
		}
		if !isEl || !isC || data != nil && data != l || shift%8 != 0 || parts[shift/8] != nil {
			return false
		}
		data = l
		parts[shift/8] = tInt(k)
		return true
	}
	if !walk(inner, 0) {
		return nil, "", 0, false
	}
	n = int64(len(parts))
	order = ""
	for s, i := range parts {
		k, _ := i.Int()
		o := "little"
		switch {
		case n == 1 && k == 0 && s == 0:
			o = "any"
		case k == s:
		case k == n-1-s:
			o = "big"
		default:
			return nil, "", 0, false
		}
		if order != "" && order != o {
			return nil, "", 0, false
		}
		order = o
	}
	return data, order, n, true
}

var packTypes = map[string]int64{"uint8": 1, "uint16": 2, "uint32": 4, "uint64": 8}

// kindOn: the dynamic type of the value a path is about.
func (t *Trace) kindOn(v *Term, ptr bool) (string, bool) {
	un := true
	for _, f := range t.Facts {
		if f.Atom.Op == "istype" && f.Atom.Args[0] == v && f.Val {
			n := f.Atom.S
			if ptr {
				if !strings.HasPrefix(n, "*") {
					return n, false
				}
				n = n[1:]
			}
			if n == "byte" {
				n = "uint8"
			}
			return n, false
		}
	}
	// none of the supported types
	for n := range packTypes {
		neg := false
		for _, f := range t.Facts {
			s := f.Atom.S
			if s == "byte" || s == "*byte" {
				s = strings.Replace(s, "byte", "uint8", 1)
			}
			if f.Atom.Op == "istype" && f.Atom.Args[0] == v && !f.Val && (!ptr && s == n || ptr && s == "*"+n) {
				neg = true
			}
		}
		un = un && neg
	}
	return "", un
}

func isAssertOf(x, v *Term) bool {
	return x != nil && (x == v || x.Op == "assert" && x.Args[0] == v)
}

func ruleN02(c *Chk) {
	// PackUint
	p := c.P("net.PackUint")
	order, v := param(p, 0), param(p, 1)
	seen := map[string]bool{}
	for _, t := range ends(p, "return", "panic", "back") {
		k, unsupported := t.kindOn(v, false)
		if k == "" {
			c.check("reject", unsupported && t.End == "panic", t, nil, "a value whose type is not supported is not rejected")
			continue
		}
		w, ok := packTypes[k]
		if !ok {
			continue
		}
		seen[k] = true
		good := false
		if t.End == "return" {
			l := t.layout(t.Ret[0])
			for _, e := range append([]seg(nil), l...) {
				if isAssertOf(e.Src, v) {
					good = isEncoding(l, e.Src, "param:"+order.S, w)
					break
				}
			}
		}
		c.check("pack", good, t, nil, "a %s is not packed into %d bytes of the given order", k, w)
	}
	for k := range packTypes {
		if !seen[k] {
			c.bad("pack", "net.PackUint", "%s is not packed", k)
		}
	}
	// UnpackUint
	p = c.P("net.UnpackUint")
	order, v = param(p, 0), param(p, 2)
	data := param(p, 1)
	seen = map[string]bool{}
	for _, t := range ends(p, "return", "panic", "back") {
		if t.End != "return" {
			c.check("unpack", t.End == "panic", t, nil, "UnpackUint loops")
			continue
		}
		var outs []*Event
		for _, e := range t.of("store") {
			if !e.Fresh {
				outs = append(outs, e)
			}
		}
		if t.fails() {
			c.check("reject", len(outs) == 0, t, nil, "a value is stored although an error is returned")
			continue
		}
		k, _ := t.kindOn(v, true)
		w, ok := packTypes[k]
		if k == "" || !ok {
			c.check("reject", k != "" && !ok, t, nil, "a target whose type is not supported is not rejected")
			continue
		}
		seen[k] = true
		good := len(outs) == 1 && isAssertOf(outs[0].Loc, v)
		if good {
			d, o, n, ok := t.decoded(outs[0].Val)
			good = ok && d == data && n == w && (w == 1 || o == "param:"+order.S)
		}
		c.check("unpack", good, t, nil, "a %s is not read from %d bytes in the given order", k, w)
	}
	for k := range packTypes {
		if !seen[k] {
			c.bad("unpack", "net.UnpackUint", "%s is not unpacked", k)
		}
	}
	// fixed widths and size prefixes
	for _, w := range []struct {
		bits string
		n    int64
	}{{"16", 2}, {"32", 4}} {
		p := c.P("net.GetBytesFromUInt" + w.bits)
		for _, t := range ends(p, "return", "panic", "back") {
			c.check("fixed", t.End == "return" && isEncoding(t.layout(t.Ret[0]), param(p, 0), "little", w.n), t, nil, "the result is not the %d bytes of the number, least significant first", w.n)
		}
		p = c.P("net.GetUInt" + w.bits + "FromBytes")
		for _, t := range ends(p, "return", "back") {
			good := t.End == "return"
			if good {
				d, o, n, ok := t.decoded(t.Ret[0])
				good = ok && d == param(p, 0) && o == "little" && n == w.n
			}
			c.check("fixed", good, t, nil, "the result is not the number in the first %d bytes, least significant first", w.n)
		}
		p = c.P("net.AddSize" + w.bits)
		for _, t := range ends(p, "return", "panic", "back") {
			good := t.End == "return"
			if good {
				l := t.layout(t.Ret[0])
				d := param(p, 0)
				good = int64(len(l)) == w.n+1 && isEncoding(l[:w.n], tLen(d), "little", w.n) && l[w.n].N < 0 && l[w.n].Src == d
			}
			c.check("prefix", good, t, nil, "the result is not the length in %d bytes, least significant first, followed by the data", w.n)
		}
	}
	c.varInts()
	c.atLeast("pack", 2)
	c.atLeast("unpack", 2)
	c.atLeast("reject", 2)
	c.atLeast("fixed", 2)
	c.atLeast("prefix", 2)
	c.atLeast("variable", 2)
}

// eightTimes: the term is eight times the index.
func eightTimes(s, idx *Term) bool {
	s = unconv(s)
	l := newLin()
	switch {
	case s.Op == "bin" && s.S == "<<":
		if n, ok := s.Args[1].Int(); ok && n == 3 {
			l.add(lin(unconv(s.Args[0])), 8)
			break
		}
		return false
	case s.Op == "bin" && s.S == "*":
		for i := 0; i < 2; i++ {
			if n, ok := s.Args[i].Int(); ok && n == 8 {
				l.add(lin(unconv(s.Args[1-i])), 8)
			}
		}
	default:
		l.add(lin(s), 1)
	}
	l.add(lin(idx), -8)
	return l.isZero()
}

// varInts: the conversions between an int and a chosen number of bytes.
func (c *Chk) varInts() {
	p := c.P("net.GetBytesFromInt")
	data, count := param(p, 0), param(p, 1)
	for _, t := range ends(p, "return", "panic") {
		if !c.check("variable", t.End == "return", t, nil, "GetBytesFromInt panics") {
			continue
		}
		r := t.Ret[0]
		if t.Facts.ProveLE(count, tInt(0), 0) && emptyList(r) {
			continue
		}
		good := false
		for _, l := range t.loopsIn() {
			var idxs []*Term
			for _, v := range l.Phis {
				if !l.sharedVar(v) && isIntType(v.Term.T) {
					idxs = append(idxs, v.Term, tAdd(v.Term, 1))
				}
			}
			for _, idx := range idxs {
				if !covers(l, count, idx) || !within(l, idx, count) || !t.leftExhausted(l, idx, count) {
					continue
				}
				all := len(l.Iters) > 0
				for _, it := range l.Iters {
					b := l.producedByte(it, r, idx, count)
					all = all && b != nil && l.isByteAt(b, data, idx)
				}
				good = good || all
			}
		}
		for _, e := range t.of("store", "copy", "call") {
			good = good && !touches(e, bufRoot(r))
		}
		c.check("variable", good, t, nil, "byte i of the result is not byte i of the number for every i below count")
	}
	p = c.P("net.GetIntFromBytes")
	data = param(p, 0)
	for _, t := range ends(p, "return", "panic") {
		if !c.check("variable", t.End == "return", t, nil, "GetIntFromBytes panics") {
			continue
		}
		r := t.Ret[0]
		if t.Facts.ProveLE(tLen(data), tInt(0), 0) && isZero(r) {
			continue
		}
		good := false
		for _, l := range t.loopsIn() {
			v := l.Var(unconv(r))
			if v == nil || !isZero(v.Init) {
				continue
			}
			all := len(l.Iters) > 0
			for _, it := range l.Iters {
				all = all && l.addsByte(t, it, v.Term, data)
			}
			good = all
		}
		c.check("variable", good, t, nil, "the result is not the sum of all bytes shifted to their places")
	}
}

// producedByte: the byte a round puts at place idx of the result.
func (l *LoopInst) producedByte(it *Trace, r, idx, count *Term) *Term {
	// appended
	if v := l.Var(r); v != nil {
		nx := it.Next[r]
		if emptyList(v.Init) && nx != nil && nx.Op == "append" && nx.Args[0] == r && len(nx.Args) == 2 {
			return nx.Args[1]
		}
		return nil
	}
	// stored
	if bufLen(r) == nil || !linDiffZero(bufLen(r), count) {
		return nil
	}
	var b *Term
	for _, e := range it.Events {
		if !inLoop(e, l) || !touches(e, bufRoot(r)) {
			continue
		}
		if e.Kind != "store" || b != nil || e.Loc.Op != "iaddr" || e.Loc.Args[0] != r || !linDiffZero(e.Loc.Args[1], idx) {
			return nil
		}
		b = e.Val
	}
	return b
}

// isByteAt: the term is byte idx of the value.
func (l *LoopInst) isByteAt(b, data, idx *Term) bool {
	for b.Op == "conv" || b.Op == "bin" && b.S == "&" {
		if b.Op == "bin" {
			if n, ok := b.Args[1].Int(); !ok || n&0xff != 0xff {
				return false
			}
		}
		b = b.Args[0]
	}
	if b.Op == "bin" && b.S == ">>" {
		return wideOf(b.Args[0]) == data && eightTimes(b.Args[1], idx)
	}
	// the value is moved down a byte each round
	v := l.Var(b)
	if v == nil || wideOf(v.Init) != data {
		return false
	}
	for _, it := range l.Iters {
		nx := it.Next[b]
		if nx == nil || nx.Op != "bin" || nx.S != ">>" || nx.Args[0] != b {
			return false
		}
		if n, ok := nx.Args[1].Int(); !ok || n != 8 {
			return false
		}
	}
	return true
}

// wideOf strips conversions that keep all eight bytes.
func wideOf(v *Term) *Term {
	for v != nil && v.Op == "conv" && intSize(v) == 8 {
		v = v.Args[0]
	}
	return v
}

// addsByte: the round adds byte idx of data at its place.
func (l *LoopInst) addsByte(t *Trace, it *Trace, acc, data *Term) bool {
	nx := it.Next[acc]
	if nx == nil || nx.Op != "bin" || nx.S != "|" && nx.S != "+" && nx.S != "^" || intSize(nx) != 8 {
		return false
	}
	n := tLen(data)
	for i := 0; i < 2; i++ {
		a, b := nx.Args[i], nx.Args[1-i]
		if a == acc {
			// acc | b<<8i
			if b.Op == "bin" && b.S == "<<" && intSize(b) == 8 {
				s, idx, ok := elemIndex(wideOf(b.Args[0]))
				if ok && s == data && eightTimes(b.Args[1], idx) && covers(l, n, idx) && within(l, idx, n) && t.leftExhausted(l, idx, n) {
					return true
				}
			}
			continue
		}
		// acc<<8 | b, from the last byte down
		s, idx, ok := elemIndex(wideOf(b))
		if !ok || s != data || a.Op != "bin" || a.Args[0] != acc || intSize(a) != 8 {
			continue
		}
		k, isC := a.Args[1].Int()
		if !isC || !(a.S == "<<" && k == 8 || a.S == "*" && k == 256) {
			continue
		}
		for _, v := range l.Phis {
			if st, ok := inductionStep(l, v); ok && st == -1 && linDiff(idx, v.Term).isConst() && covers(l, n, idx) && t.leftExhausted(l, idx, n) {
				return true
			}
		}
	}
	return false
}

var _ = sort.Strings

func init() {
	register("X01", "case analysis of every path of all 24 functions: the returned parameter is ordered against the other by comparisons of the parameters themselves (no wrapping arithmetic), signatures match the type table", ruleX01)
	register("X02", "loop summarisation in a linear domain: rounds counted by unit-step variables, results decomposed into powers of ten, equality of net rounds and shift proven on every path", ruleX02)
	register("K01", "list-building typestate: every result list starts empty and takes exactly the examined elements whose membership in a completely filled identity set was decided in the same round, over index-covering loops", ruleK01)
	register("N02", "byte-layout inference on every path: width, order and source of each produced byte per dynamic type, mirrored for decoding; covering loops for the variable-width forms", ruleN02)
}

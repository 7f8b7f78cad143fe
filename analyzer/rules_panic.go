package main

import (
	"go/types"
	"strconv"
	"strings"
)

// Q03: no operation fails by itself.

// counts of an object as its constructor leaves them: the integer fields and
// the lengths of slice fields reachable from it, by access path.
func builtCounts(t *Trace, obj *Term, path string, depth int, out map[string]*Term) {
	last := map[string]*Term{}
	for _, e := range t.of("store") {
		if e.Loc.Op == "faddr" && e.Loc.Args[0] == obj {
			last[e.Loc.S] = e.Val
		}
	}
	for loc, v := range t.Mem {
		if loc.Op == "faddr" && loc.Args[0] == obj && v != nil && v.Val != nil {
			last[loc.S] = v.Val // what loops left in it
		}
	}
	for f, v := range last {
		switch {
		case v.Op == "mkslice":
			out["len "+path+"/"+f] = v.Args[0]
		case v.T != nil && isSliceType(v.T) && (v.Op == "hv" || v.Op == "phi" || v.Op == "append" || v.Op == "arr"):
			out["len "+path+"/"+f] = tLen(v)
		case isIntType(v.T):
			out[path+"/"+f] = v
		case v.Op == "new" && depth > 0:
			builtCounts(t, v, path+"/"+f, depth-1, out)
		}
	}
}

// countPath names a count read from an object: the root and the access path.
func countPath(v *Term) (root *Term, path string) {
	if v == nil {
		return nil, ""
	}
	if v.Op == "len" {
		r, p := countPath(v.Args[0])
		if r == nil {
			return nil, ""
		}
		return r, "len " + p
	}
	for v != nil {
		switch v.Op {
		case "load":
			v = v.Args[0]
		case "faddr", "fld":
			path = "/" + v.S + path
			v = v.Args[0]
		case "param", "new":
			return v, path
		default:
			return nil, ""
		}
	}
	return nil, ""
}

// built: one construction of an object and the counts it was given.
type built struct {
	counts map[string]*Term
	t      *Trace
}

func (r *panicRule) equalAt(t *Trace, x, y *Term) bool {
	if linEq(x, y) {
		return true
	}
	f := r.widenWith(t.Facts, false, x, y)
	return f.ProveLE(x, y, 0) && f.ProveLE(y, x, 0)
}

type panicRule struct {
	loops  *loopBounds
	c      *Chk
	builds map[string][]built // type -> constructions
	moved  map[string]bool    // fields changed after construction
	made   map[string]int     // fields: 1 made in every construction, -1 not

	required map[string]bool // functions an object is useless without
}

func (c *Chk) newPanicRule() *panicRule {
	r := &panicRule{c: c, builds: map[string][]built{}, moved: map[string]bool{}, made: map[string]int{}, required: c.optionFields("collections.ShardMapBuilder", "WithShardsFunc")}
	r.loops = newLoopBounds(c.x.order, func(f Facts, ts ...*Term) Facts { return r.widenWith(f, false, ts...) })
	for _, p := range c.x.order {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && !e.Fresh {
					r.moved[e.Loc.S] = true
				}
			}
			if p.Kind != "api" || t.End != "return" {
				continue
			}
			for _, o := range t.Ret {
				if o.Op != "new" || o.T == nil {
					continue
				}
				n, ok := deref(o.T).(*types.Named)
				if !ok {
					continue
				}
				m := map[string]*Term{}
				builtCounts(t, o, "", 2, m)
				k := typeKey(n)
				r.builds[k] = append(r.builds[k], built{m, t})
			}
		}
	}
	return r
}

// sameCount: two counts of one object that every construction makes equal
// and nothing changes later.
func (r *panicRule) sameCount(a, b *Term) bool {
	ra, pa := countPath(a)
	rb, pb := countPath(b)
	return ra != nil && ra == rb && r.sameCountOf(ra, pa, pb)
}

// sizeOf: the length of a list that every construction makes as long as one of
// the given count fields says.
func (r *panicRule) sizeOf(a *Term, count map[string]bool) bool {
	root, p := countPath(a)
	if root == nil || a.Op != "len" {
		return false
	}
	for f := range count {
		if r.sameCountOf(root, p, "/"+f) {
			return true
		}
	}
	return false
}

func (r *panicRule) sameCountOf(root *Term, pa, pb string) bool {
	if pa == "" || pb == "" || root.T == nil {
		return false
	}
	n, ok := deref(root.T).(*types.Named)
	if !ok {
		return false
	}
	for _, p := range []string{pa, pb} {
		for _, f := range strings.Split(strings.TrimPrefix(p, "len "), "/") {
			if r.moved[f] {
				return false
			}
		}
	}
	bs := r.builds[typeKey(n)]
	for _, m := range bs {
		x, y := m.counts[pa], m.counts[pb]
		if x == nil || y == nil || !r.equalAt(m.t, x, y) {
			return false
		}
	}
	return len(bs) > 0
}

// widen adds what is known about the lengths and counts in the terms.
func (r *panicRule) widen(f Facts, ts ...*Term) Facts { return r.widenWith(f, true, ts...) }

func (r *panicRule) widenWith(f Facts, builds bool, ts ...*Term) Facts {
	seen := map[*Term]bool{}
	var counts, vars []*Term
	var note func(t *Term)
	note = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if _, p := countPath(t); t.Op == "len" && (t.Args[0].Op == "hv" || t.Args[0].Op == "phi") || p != "" && t.Op != "faddr" && (t.Op == "len" || isIntType(t.T)) {
			counts = append(counts, t)
		}
		switch t.Op {
		case "phi", "hv":
			vars = append(vars, t)
		case "bin":
			if t.S == "%" && r.configured(t.Args[1]) {
				f = f.Add(tLt(tInt(0), t.Args[1]), true)
			}
		case "load", "fld":
			if isIntType(t.T) && r.configured(t) {
				f = f.Add(tLt(t, tInt(0)), false)
			}
		}
		if t.Op == "len" {
			s := t.Args[0]
			switch s.Op {
			case "append":
				f = f.Add(tEq(t, tAdd(tLen(s.Args[0]), int64(len(s.Args)-1))), true)
				note(tLen(s.Args[0]))
			case "mkslice":
				f = f.Add(tEq(t, s.Args[0]), true)
				f = f.Add(tLt(s.Args[0], tInt(0)), false)
			case "nil":
				f = f.Add(tEq(t, tInt(0)), true)
			case "arr":
				f = f.Add(tEq(t, tInt(int64(len(s.Args)))), true)
			case "copied", "conv":
			case "slice":
				lo, hi := s.Args[1], s.Args[2]
				if lo.Op == "none" {
					lo = tInt(0)
				}
				if hi.Op == "none" {
					hi = tLen(s.Args[0])
					note(hi)
				}
				f = f.Add(tEq(mk("bin", "+", types.Typ[types.Int], t, lo), hi), true)
			case "removeat":
				f = f.Add(tEq(tAdd(t, 1), tLen(s.Args[0])), true)
				note(tLen(s.Args[0]))
			}
		}
		for _, a := range t.Args {
			note(a)
		}
	}
	for _, t := range ts {
		note(t)
	}
	for _, x := range f {
		note(x.Atom)
	}
	for i := 0; i < len(vars) && i < 32; i++ {
		f = r.loops.rounds(vars[i], f)
		for _, x := range r.loops.of(vars[i]) {
			f = f.Add(x.Atom, x.Val)
			note(x.Atom)
		}
	}
	for _, t := range counts {
		if t.Op != "len" || t.Args[0].Op != "hv" && t.Args[0].Op != "phi" {
			continue
		}
		for _, n := range counts {
			if n != t && f.ProveLE(t, n, 0) && f.ProveLE(n, t, 0) {
				f = f.Add(tEq(t, n), true)
			}
		}
	}
	for _, t := range counts {
		for _, n := range counts {
			// a list that is only ever appended to keeps its length
			if a, b := version(t), version(n); n != t && a >= 0 && b > a && t.Args[0].Args[0] == n.Args[0].Args[0] && r.grows(t.Args[0].Args[0].S) {
				f = f.Add(tLt(n, t), false)
			}
		}
	}
	if !builds {
		return f
	}
	for i, a := range counts {
		for _, b := range counts[:i] {
			if a != b && r.sameCount(a, b) {
				f = f.Add(tEq(a, b), true)
			}
		}
	}
	return f
}

// version: which load of a field the length is of, in the order of the path.
func version(n *Term) int {
	if n.Op != "len" || n.Args[0].Op != "load" || n.Args[0].Args[0].Op != "faddr" {
		return -1
	}
	v, err := strconv.Atoi(n.Args[0].S)
	if err != nil {
		return -1
	}
	return v
}

// grows: outside constructors, the list in the field is only appended to.
func (r *panicRule) grows(field string) bool {
	if v, ok := r.made["grows "+field]; ok {
		return v > 0
	}
	v := 1
	for _, p := range r.c.x.order {
		for _, t := range p.Traces {
			for _, e := range t.of("store") {
				if e.Loc.Op != "faddr" || e.Loc.S != field || e.Fresh {
					continue
				}
				x := e.Val
				for x.Op == "append" {
					x = x.Args[0]
				}
				if x.Op != "load" || x.Args[0] != e.Loc {
					v = -1
				}
			}
		}
	}
	r.made["grows "+field] = v
	return v > 0
}

// before: what was known where the goroutine or callback was started.
func (r *panicRule) before(p *Proc, f Facts) []Facts {
	if p.Parent == nil || p.Spawn == nil {
		return []Facts{f}
	}
	var out []Facts
	for _, t := range p.Parent.Traces {
		for _, e := range t.of(p.Spawn.Kind) {
			if e == p.Spawn || e.Pos == p.Spawn.Pos && e.Ctx == p.Spawn.Ctx && e.FnT == p.Spawn.FnT {
				out = append(out, append(append(Facts(nil), t.at(e)...), f...))
			}
		}
	}
	if len(out) == 0 || len(out) > 16 {
		return []Facts{f}
	}
	return out
}

func (r *panicRule) always(p *Proc, t *Trace, e *Event, ts []*Term, pred func(Facts) bool) bool {
	if pred(t.at(e)) {
		return true
	}
	at := t.at(e)
	for _, g := range t.Events {
		// what was indexed before without failing was long enough
		if g.Seq >= e.Seq {
			break
		}
		if g.Kind == "index" && g.Key != nil && g.Val != nil {
			at = at.Add(tLt(g.Key, g.Val), true).Add(tLt(g.Key, tInt(0)), false)
		}
	}
	for _, f := range r.before(p, at) {
		if !pred(r.widen(f, ts...)) {
			return false
		}
	}
	return true
}

// given: the number comes from a user function or from configuration.
func given(v *Term) bool {
	if v == nil {
		return false
	}
	if v.IsCall("callback") || v.Op == "rkey" {
		return true // a key kept in a map was put there by its owner
	}
	for _, a := range v.Args {
		if v.Op == "bin" && v.S != "%" && given(a) {
			return true
		}
	}
	return false
}

func (r *panicRule) configured(v *Term) bool {
	for v != nil {
		switch v.Op {
		case "load", "faddr", "fld", "conv":
			if v.Op != "conv" && strings.Contains(v.S, ".") && (!r.moved[v.S] || strings.Contains(v.S, "Builder.")) {
				return true
			}
			v = v.Args[0]
		default:
			return false
		}
	}
	return false
}

// madeMap: the field always holds a map: every construction of its struct
// stores one, and nothing else is ever stored.
func (r *panicRule) madeMap(field string) bool { return r.madeField(field, "", 0) }

// setField: the field holds something other than nil in every object, given
// that options and constructors are not handed nil.
func (r *panicRule) setField(field string) bool { return r.madeField(field, "set ", 0) }

func (r *panicRule) madeField(field, mode string, depth int) bool {
	if v, ok := r.made[mode+field]; ok {
		return v > 0
	}
	if depth > 3 {
		return false
	}
	i := strings.LastIndex(field, ".")
	if i < 0 {
		return true
	}
	typ := field[:i]
	ok := true
	seen := false
	for _, p := range r.c.x.order {
		for _, t := range p.Traces {
			type part struct {
				o    *Term
				path string
			}
			objs := map[part]bool{}
			for _, e := range t.of("store") {
				if e.Loc.Op != "faddr" {
					continue
				}
				o, path := e.Loc.Args[0], ""
				for o.Op == "faddr" {
					o, path = o.Args[0], o.S[strings.LastIndex(o.S, ".")+1:]+"."+path
				}
				if o.Op == "new" && o.T != nil {
					for _, in := range partsOf(deref(o.T), typ, "", 0) {
						if _, had := objs[part{o, in}]; !had {
							objs[part{o, in}] = false
						}
					}
				}
				if e.Loc.S != field {
					continue
				}
				good := nonNilOp(e.Val) || e.Val.Op == "mapclone" || t.at(e).Eval(tEq(e.Val, tNil)) == -1 ||
					e.Val.Op == "load" && place(e.Val) == field || mode == "" && e.Val.T != nil && nonNilOp(RootOf(e.Val))
				if !good && mode != "" {
					from, _ := fieldBase(e.Val)
					good = e.Val.Op == "param" || from != "" && from != field && r.madeField(from, mode, depth+1)
				}
				if !good {
					ok = false
				}
				objs[part{o, path}] = true
			}
			switch t.elemsMade(typ, field) {
			case 1:
				seen = true
			case -1:
				ok = false
			}
			if t.End == "return" || t.End == "back" {
				for o, m := range objs {
					if o.o.Op != "new" {
						continue
					}
					if m {
						seen = true
					} else if t.End == "return" && t.escapes(o.o) {
						ok = false
					}
				}
			}
		}
	}
	v := -1
	if ok && seen {
		v = 1
	}
	r.made[mode+field] = v
	return v > 0
}

// elemsMade decides about the objects of the type that are elements of slices
// made here: 1 each gets a value in the field, -1 some may not, 0 none are made.
func (t *Trace) elemsMade(typ, field string) int {
	res := 0
	for _, e := range t.Events {
		switch e.Kind {
		case "append":
			for _, a := range normList(e.Val).App {
				if a.Op == "mk" && a.T != nil && typeKey(a.T) == typ {
					res = max(res, 1)
					if v := t.deepField(a, field); v == nil || !nonNilOp(v) {
						return -1
					}
				}
			}
		case "make":
			if e.Res == nil || e.Res.Op != "mkslice" || e.Res.T == nil || t.End != "return" || !t.escapes(e.Res) {
				continue
			}
			sl, ok := e.Res.T.Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if n, ok := sl.Elem().(*types.Named); !ok || typeKey(n) != typ || isZero(tLen(e.Res)) {
				continue
			}
			if !t.eachElem(e.Res, field) {
				return -1
			}
			res = 1
		}
	}
	return res
}

// eachElem: a loop gives the field of every element of the slice a value.
func (t *Trace) eachElem(list *Term, field string) bool {
	n := tLen(list)
	for _, inst := range t.loopsIn() {
		ok := len(inst.Iters) > 0
		for _, it := range inst.Iters {
			hit := false
			for _, e := range it.of("store") {
				if e.Loc.Op != "faddr" || e.Loc.S != field || !nonNilOp(e.Val) {
					continue
				}
				if a := e.Loc.Args[0]; a.Op == "iaddr" && it.eq(a.Args[0], list) {
					hit = hit || covers(inst, n, a.Args[1]) && t.leftExhausted(inst, a.Args[1], n)
				}
			}
			ok = ok && hit
		}
		if ok {
			return true
		}
	}
	return false
}

// partsOf: where a struct of the named type lies within a value of type t.
func partsOf(t types.Type, typ, path string, depth int) []string {
	var out []string
	if n, ok := t.(*types.Named); ok && typeKey(n) == typ {
		out = append(out, path)
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 4 {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			out = append(out, partsOf(f.Type(), typ, path+f.Name()+".", depth+1)...)
		}
	}
	return out
}

// escapes: the object is returned or stored into something.
func (t *Trace) escapes(o *Term) bool {
	for _, v := range t.Ret {
		if v == o {
			return true
		}
	}
	for _, e := range t.of("store", "mapset") {
		if e.Val == o {
			return true
		}
	}
	return false
}

func init() {
	register("Q03", "on every path of every entry point, goroutine and stored function: an index or slice bound is within the value indexed, by the branch conditions of the path, loop bounds and the equal sizes constructors give; a map is written only if it was made; what a lookup yields is used through a pointer only if the key is known to be present; no integer division by a number that may be zero unless it is a configured count; no nil is dereferenced; no explicit panic is reached", func(c *Chk) {
		r := c.newPanicRule()
		for _, p := range c.x.order {
			if strings.HasPrefix(p.Name, "net.") {
				continue // fixed-width helpers: N02, N03
			}
			c.use(p)
			for _, t := range p.Traces {
				if t.End == "cut" {
					continue
				}
				for _, e := range t.Events {
					r.event(p, t, e)
				}
			}
		}
		c.atLeast("index", 8)
		c.atLeast("map-made", 10)
		c.atLeast("present", 8)
	})
}

func (r *panicRule) event(p *Proc, t *Trace, e *Event) {
	c := r.c
	switch e.Kind {
	case "index":
		if given(e.Key) {
			return
		}
		ok := r.always(p, t, e, []*Term{e.Key, e.Val}, func(f Facts) bool {
			if !f.ProveLE(tInt(0), e.Key, 0) {
				return false
			}
			return f.ProveLT(e.Key, e.Val) || r.listed(t, e, f)
		})
		c.check("index", ok, t, e, "index %v can be outside %v", e.Key, e.Loc.Args[0])
	case "reslice":
		if strings.HasPrefix(p.Name, "crypto") {
			return // A02
		}
		lo, hi := e.Args[0], e.Args[1]
		if lo.Op == "none" {
			lo = tInt(0)
		}
		if hi.Op == "none" {
			hi = tLen(e.Val)
		}
		if given(lo) || given(hi) {
			return
		}
		ok := r.always(p, t, e, []*Term{lo, hi, tLen(e.Val)}, func(f Facts) bool {
			return f.ProveLE(tInt(0), lo, 0) && (f.ProveLE(lo, hi, 0) && f.ProveLE(hi, tLen(e.Val), 0) || lo.Op == "const" && r.listed(t, &Event{Kind: "index", Key: tAdd(lo, -1), Val: hi, Loc: mk("iaddr", "", nil, e.Val, lo), NF: e.NF}, f))
		})
		c.check("slice", ok, t, e, "the bounds %v and %v can be outside %v", lo, hi, e.Val)
	case "div":
		if given(e.Val) || r.configured(e.Val) {
			return
		}
		ok := r.always(p, t, e, []*Term{e.Val}, func(f Facts) bool {
			return f.Eval(tEq(e.Val, tInt(0))) == -1 || f.ProveLE(tInt(1), e.Val, 0)
		})
		c.check("divisor", ok, t, e, "%v can be zero", e.Val)
	case "mapset":
		if nonNilOp(e.Map) {
			return
		}
		ok := t.at(e).Eval(tEq(e.Map, tNil)) == -1
		f := ""
		if e.Map.Op == "load" && e.Map.Args[0].Op == "faddr" {
			f = e.Map.Args[0].S
		} else if e.Map.Op == "fld" {
			f = e.Map.S
		}
		if f == "" && !isNilVal(e.Map) {
			return
		}
		c.check("map-made", ok || f != "" && r.madeMap(f), t, e, "the map written (%v) may never have been made", e.Map)
	case "load", "store", "lock", "unlock":
		b := e.Loc
		if b != nil && b.Op == "keyed" {
			r.mayNil(p, t, e, b.Args[0])
		}
		if b == nil || b.Op != "faddr" {
			return
		}
		r.base(p, t, e, b.Args[0])
	case "go", "call":
		if e.FnT != nil {
			r.mayNil(p, t, e, e.FnT)
		}
		if e.Kind == "call" && len(e.Args) > 0 && strings.HasPrefix(e.Name, "(*") {
			r.base(p, t, e, e.Args[0])
		}
	case "callback":
		if isNilVal(e.FnT) {
			c.check("nil", false, t, e, "a nil function is called")
		}
		r.mayNil(p, t, e, e.FnT)
	case "panic":
		if e.Val != nil && !rangeFuncPanic(e.Val) {
			c.check("no-panic", false, t, e, "an explicit panic is reached")
		}
	}
}

// rangeFuncPanic: the check the compiler adds around a loop over an iterator
// function; it fails only when the iterator breaks the rules for iterators.
func rangeFuncPanic(v *Term) bool {
	return v.Any(func(x *Term) bool {
		return x.Op == "const" && (strings.Contains(x.S, "yield function called after range loop exit") ||
			strings.Contains(x.S, "yield iterator accessed after exit") || strings.Contains(x.S, "iterator call did not preserve panic"))
	})
}

func (r *panicRule) base(p *Proc, t *Trace, e *Event, b *Term) {
	for b.Op == "faddr" {
		b = b.Args[0]
	}
	if isNilVal(b) {
		r.c.check("nil", false, t, e, "nil is dereferenced")
		return
	}
	if b.Op != "lookup" {
		r.mayNil(p, t, e, b)
		return
	}
	f := t.at(e)
	ok := f.Eval(tEq(b, tNil)) == -1 || f.Eval(mk("has", b.S, types.Typ[types.Bool], b.Args...)) == 1
	for _, g := range t.of("mapget") {
		if g.Res == b && g.Ok != nil && f.Eval(g.Ok) == 1 {
			ok = true
		}
	}
	r.c.check("present", ok, t, e, "what the lookup yields (%v) is dereferenced without the key being known to be present", b)
}

// listed: the list has as many elements as a map of the same object that is
// known not to be empty (the properties of bounded collections relate them).
func (r *panicRule) listed(t *Trace, e *Event, f Facts) bool {
	k, ok := e.Key.Int()
	if !ok {
		return false
	}
	own := owner(e.Loc.Args[0])
	for _, m := range t.of("maplen") {
		if own != nil && owner(m.Map) == own && f.ProveLE(tInt(k+1), m.Res, 0) && r.listsKeys(place(m.Map), place2(t, e.Loc.Args[0])) {
			return true
		}
	}
	return false
}

// listsKeys: every operation that inserts into the map also appends to the
// list on some path (that it does so on every path is H01 and G01).
func (r *panicRule) listsKeys(m, list string) bool {
	if list == "" {
		return true
	}
	if v, ok := r.made["lists "+m+" "+list]; ok {
		return v > 0
	}
	v := 1
	for _, p := range r.c.x.order {
		inserts, appends := false, false
		for _, t := range p.Traces {
			for _, e := range t.Events {
				switch {
				case e.Kind == "mapset" && place(e.Map) == m && e.Pres != 1:
					inserts = true
				case e.Kind == "store" && e.Loc.Op == "faddr" && e.Loc.S == list && !e.Fresh && e.Val.Any(func(x *Term) bool { return x.Op == "append" || x.Op == "appends" }):
					appends = true
				}
			}
		}
		if inserts && !appends {
			v = -1
		}
	}
	r.made["lists "+m+" "+list] = v
	return v > 0
}

// mayNil: a function or pointer kept in a field that some objects leave nil
// is used only where it is known not to be.
func (r *panicRule) mayNil(p *Proc, t *Trace, e *Event, v *Term) {
	if v.Op != "load" && v.Op != "fld" {
		return
	}
	f, _ := fieldBase(v)
	if f == "" || !strings.Contains(f, ".") || r.required[f] {
		return
	}
	ok := r.setField(f) || r.always(p, t, e, []*Term{v}, func(fs Facts) bool {
		return fs.Eval(tEq(v, tNil)) == -1 || r.excluded(f, v, fs)
	})
	r.c.check("optional", ok, t, e, "%v is used although it can be nil", v)
}

// excluded: the facts rule out every construction of the object that leaves
// the field nil, by what they say about its other fields or about settings
// that never change.
func (r *panicRule) excluded(field string, v *Term, fs Facts) bool {
	_, base := fieldBase(v)
	if base == nil {
		return false
	}
	typ := field[:strings.LastIndex(field, ".")]
	n := 0
	for _, p := range r.c.x.order {
		for _, t := range p.Traces {
			objs := map[*Term]map[string]*Term{}
			for _, e := range t.of("store") {
				if e.Loc.Op != "faddr" {
					continue
				}
				o := e.Loc.Args[0]
				if o.Op != "new" || o.T == nil {
					if e.Loc.S == field && t.at(e).Eval(tEq(e.Val, tNil)) != -1 && !nonNilOp(e.Val) {
						return false // taken away from existing objects
					}
					continue
				}
				if nt, ok := deref(o.T).(*types.Named); !ok || typeKey(nt) != typ {
					continue
				}
				if objs[o] == nil {
					objs[o] = map[string]*Term{}
				}
				objs[o][e.Loc.S] = e.Val
			}
			if t.End != "return" && t.End != "back" {
				continue
			}
			for o, set := range objs {
				n++
				has := func(f string) bool {
					x := set[f]
					return x != nil && (nonNilOp(x) || nonNilOp2(x) || t.Facts.Eval(tEq(x, tNil)) == -1)
				}
				if has(field) || !t.escapes(o) {
					continue
				}
				out := false
				for _, k := range fs {
					if k.Atom.Op != "eq" || k.Val || !isNilVal(k.Atom.Args[0]) && !isNilVal(k.Atom.Args[1]) {
						continue
					}
					for _, a := range k.Atom.Args {
						if f, b := fieldBase(a); b == base && f != field && !has(f) && !r.moved[f] {
							out = true
						}
					}
				}
				if !out {
					var f Facts
					for _, k := range append(fs[:len(fs):len(fs)], t.Facts...) {
						if a := r.setting(k.Atom); a != nil {
							f = f.Add(a, k.Val)
						}
					}
					out = f.contradictory()
				}
				if !out {
					return false
				}
			}
		}
	}
	return n > 0
}

// setting: a condition about nothing but constants and fields of the object
// the operation is called on, which never change once it is built, with the
// object taken away; nil if it speaks about anything else. An entry is used
// by the object that made it: the two agree about such a condition.
func (r *panicRule) setting(a *Term) *Term {
	m := map[*Term]*Term{}
	ok := true
	var walk func(x *Term)
	walk = func(x *Term) {
		switch x.Op {
		case "eq", "lt", "le", "not", "const", "nil", "zero", "bin", "neg", "conv":
			for _, y := range x.Args {
				walk(y)
			}
		case "load", "fld":
			f, b := fieldBase(x)
			if f == "" || b == nil || b.Op != "slot" && b.Op != "param" || r.moved[f] {
				ok = false
				return
			}
			m[x] = mk("setting", f, x.T)
		default:
			ok = false
		}
	}
	walk(a)
	if !ok || len(m) == 0 {
		return nil
	}
	return a.subst(m)
}

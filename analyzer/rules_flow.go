package main

import (
	"strings"
)

// E01: routes of a built processor.

// procOf: the analysis of a closure that was stored or returned below p.
func (c *Chk) procOf(p *Proc, cl *Term) *Proc {
	fn, binds := resolveFn(cl)
	if fn == nil {
		return nil
	}
	for _, q := range c.children(p) {
		if q.Fn == fn && len(q.Binds) == len(binds) {
			same := true
			for i := range binds {
				same = same && binds[i] == q.Binds[i]
			}
			if same {
				return q
			}
		}
	}
	return nil
}

// condition: the closure evaluates cond on its own arguments exactly once,
// returns nil when it holds and an error when it does not.
func (c *Chk) condition(p *Proc, cl, cond *Term) bool {
	q := c.procOf(p, cl)
	if q == nil || len(q.Params) == 0 {
		return false
	}
	good := len(q.Traces) > 0
	for _, t := range q.Traces {
		var calls []*Event
		for _, e := range t.Events {
			switch e.Kind {
			case "callback":
				calls = append(calls, e)
			case "go":
				good = false
			case "store", "mapset", "mapdel", "send":
				good = good && e.Fresh
			}
		}
		if t.End == "panic" {
			good = good && len(t.of("cbpanic")) > 0
			continue
		}
		if t.End != "return" || len(calls) != 1 || len(t.Ret) != 1 {
			return false
		}
		e := calls[0]
		good = good && e.FnT == cond && len(e.Args) > 0 && len(e.Args) <= len(q.Params)
		for i, a := range e.Args {
			good = good && i < len(q.Params) && a == q.Params[i]
		}
		switch t.truth(e.Res) {
		case 1:
			good = good && t.Ret[0].IsNil()
		case -1:
			good = good && t.nonNilErr(t.Ret[0])
		default:
			good = false
		}
	}
	return good
}

// lastStore: the value the path left in a field of an object.
func (t *Trace) lastStore(obj *Term, typ string) (field string, v *Term, n int) {
	for _, e := range t.of("store") {
		if e.Loc.Op == "faddr" && e.Loc.Args[0] == obj && strings.Contains(e.Loc.S, typ) {
			field, v = e.Loc.S, e.Val
			n++
		}
	}
	return
}

// appendedTo: the value is the object's list as it was with elements added.
func appendedTo(v, obj *Term, field string) []*Term {
	if v == nil || v.Op != "append" {
		return nil
	}
	b := v.Args[0]
	if b.Op != "load" || b.Args[0].Op != "faddr" || b.Args[0].S != field || b.Args[0].Args[0] != obj {
		return nil
	}
	return v.Args[1:]
}

func ruleE01(c *Chk) {
	// the list a route's steps are kept in
	do := c.P("flow.ProcessorRouterBuilder.Do")
	chain := ""
	for _, t := range ends(do, "return", "back") {
		f, v, _ := t.lastStore(param(do, 0), "ProcessorRouterBuilder")
		add := appendedTo(v, param(do, 0), f)
		ok := t.End == "return" && len(add) == 1 && add[0] == param(do, 1) && t.Ret[0] == param(do, 0) && len(t.of("callback")) == 0
		if c.check("declare", ok, t, nil, "Do does not add its function, and nothing else, at the end of the route") {
			chain = f
		}
	}
	if chain == "" {
		return
	}
	for _, n := range []string{"On", "OnEvent"} {
		p := c.P("flow.ProcessorRouterBuilder." + n)
		for _, t := range ends(p, "return", "back", "panic") {
			f, v, _ := t.lastStore(param(p, 0), "ProcessorRouterBuilder")
			add := appendedTo(v, param(p, 0), f)
			ok := t.End == "return" && f == chain && len(add) == 1 && t.Ret[0] == param(p, 0) && len(t.of("callback")) == 0
			c.check("declare", ok, t, nil, "%s does not add one step at the end of the route", n)
			c.check("condition", ok && c.condition(p, add[0], param(p, 1)), t, nil, "the step %s adds does not fail exactly when the condition does not hold for its event", n)
		}
	}
	// Route
	routes := ""
	rt := c.P("flow.ProcessorBuilder.Route")
	for _, t := range ends(rt, "return", "back", "panic") {
		var cb *Event
		k := 0
		for _, e := range t.of("callback") {
			cb = e
			k++
		}
		f, v, n := t.lastStore(param(rt, 0), "ProcessorBuilder")
		if t.End == "panic" {
			c.check("register", len(t.of("cbpanic")) > 0, t, nil, "Route panics")
			continue
		}
		add := appendedTo(v, param(rt, 0), f)
		ok := t.End == "return" && t.Ret[0] == param(rt, 0) && k == 1 && cb.FnT == param(rt, 1) && len(cb.Args) == 1 && cb.Args[0].Op == "new" && len(add) == 1 && n == 1
		if ok {
			b := cb.Args[0]
			// a new, empty route; its steps are taken up after they were declared
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Loc.Args[0] == b && e.Loc.S == chain {
					ok = ok && e.Seq < cb.Seq && emptyList(e.Val)
				}
			}
			ok = ok && c.routeOf(t, add[0], func(v *Term) bool {
				if v.Op != "load" || v.Args[0].Op != "faddr" || v.Args[0].Args[0] != b || v.Args[0].S != chain {
					return false
				}
				for _, e := range t.of("load") {
					if e.Val == v && e.Seq > cb.Seq {
						return true
					}
				}
				return false
			}, b)
			// the builder is not shared with another route
			sharedRefs := false
			for _, e := range t.of("store") {
				if e.Loc.Op == "faddr" && e.Loc.Args[0] == param(rt, 0) && e.Val == b {
					sharedRefs = true
				}
			}
			ok = ok && !sharedRefs
		}
		if c.check("register", ok, t, nil, "Route does not let its function declare one new route and then add it after the others") {
			routes = f
		}
	}
	if routes == "" {
		return
	}
	// RouteOn
	ro := c.P("flow.ProcessorBuilder.RouteOn")
	cond, fns := param(ro, 1), param(ro, 2)
	for _, t := range ends(ro, "return", "panic") {
		f, v, n := t.lastStore(param(ro, 0), "ProcessorBuilder")
		add := appendedTo(v, param(ro, 0), f)
		if n == 0 && t.End == "return" && t.Facts.ProveLE(tLen(fns), tInt(0), 0) {
			c.check("routeon", true, t, nil, "")
			continue
		}
		ok := t.End == "return" && t.Ret[0] == param(ro, 0) && f == routes && n == 1 && len(add) == 1 && len(t.of("callback")) == 0
		ok = ok && c.routeOf(t, add[0], func(v *Term) bool { return c.guarded(ro, t, v, cond, fns) }, nil)
		c.check("routeon", ok, t, nil, "RouteOn does not add one route with every action in order, each behind the condition")
	}
	// the built function
	bp := c.P("flow.ProcessorBuilder.Build")
	n := 0
	for _, t := range ends(bp, "return", "back", "panic") {
		if t.End == "back" {
			c.check("build", len(t.of("callback")) == 0, t, nil, "Build calls a step")
			continue
		}
		if !c.check("build", t.End == "return" && len(t.Ret) == 1 && len(t.of("callback")) == 0, t, nil, "Build does not return a function") {
			continue
		}
		q := c.procOf(bp, t.Ret[0])
		if !c.check("build", q != nil && len(q.Params) == 2, t, nil, "Build does not return a function of its own") {
			continue
		}
		n++
		c.runs(t, q, param(bp, 0), routes, chain)
	}
	c.fixedProcessor("fixed")
	c.atLeast("fixed", 1)
	c.atLeast("declare", 2)
	c.atLeast("condition", 2)
	c.atLeast("register", 1)
	c.atLeast("routeon", 1)
	c.atLeast("run", 2)
}

// fixedProcessor: the function Build returns reads and writes nothing of the
// builder, so what the builder is given afterwards does not change it.
func (c *Chk) fixedProcessor(rule string) {
	bp := c.P("flow.ProcessorBuilder.Build")
	if bp == nil {
		return
	}
	for _, t := range ends(bp, "return") {
		if len(t.Ret) != 1 {
			continue
		}
		q := c.procOf(bp, t.Ret[0])
		if q == nil {
			continue
		}
		var at *Event
		in := q.Traces[0]
		for _, u := range q.Traces {
			for _, e := range u.of("load", "store") {
				if e.Loc.Op == "faddr" && e.Loc.Args[0] == param(bp, 0) {
					at, in = e, u
				}
			}
		}
		c.check(rule, at == nil, in, at, "the built processor follows its builder: routes added later change it")
	}
}

// routeOf: the registered route keeps the wanted list of steps.
func (c *Chk) routeOf(t *Trace, r *Term, want func(*Term) bool, builder *Term) bool {
	if want(r) || builder != nil && r == builder {
		return true
	}
	if r.Op == "mk" {
		k := 0
		for _, a := range r.Args {
			if want(a) {
				k++
			}
		}
		return k == 1
	}
	if r.Op == "new" {
		// a route of its own
		k := 0
		for _, e := range t.of("store") {
			if e.Loc.Op == "faddr" && e.Loc.Args[0] == r && want(e.Val) {
				k++
			}
		}
		return k == 1
	}
	return false
}

// guarded: the list has, for every function in order, the condition and then
// the function.
func (c *Chk) guarded(p *Proc, t *Trace, v, cond, fns *Term) bool {
	for _, l := range t.loopsIn() {
		lv := l.Var(v)
		if lv == nil {
			continue
		}
		if !emptyList(lv.Init) || bufRoot(lv.Init) != nil && bufRoot(lv.Init) == fns {
			return false
		}
		good := len(l.Iters) > 0
		for _, it := range l.Iters {
			nx := it.Next[v]
			if nx == nil || nx.Op != "append" || nx.Args[0] != v || len(nx.Args) != 3 {
				return false
			}
			s, i, ok := elemIndex(nx.Args[2])
			good = good && ok && s == fns && l.ascends(i) && covers(l, tLen(fns), i) && t.leftExhausted(l, i, tLen(fns)) && c.condition(p, nx.Args[1], cond)
		}
		return good
	}
	return false
}

// ascends: the index goes up by one each round.
func (l *LoopInst) ascends(i *Term) bool {
	for _, v := range l.Phis {
		if !l.sharedVar(v) && linDiff(i, v.Term).isConst() && upFrom(l, v) {
			return true
		}
	}
	return false
}

// stepOf: the function called is step j of route i.
func stepOf(f *Term, recv *Term, routes, chain string, copies map[*Term]*Term) (list *Term, i *Term, steps *Term, j *Term, ok bool) {
	steps, j, ok = elemIndex(f)
	if !ok {
		return
	}
	list, i, ok = routeAt(steps, recv, routes, copies)
	return
}

func routeAt(steps, recv *Term, routes string, copies map[*Term]*Term) (list, i *Term, ok bool) {
	e := steps
	for e != nil && (e.Op == "load" || e.Op == "faddr" || e.Op == "fld") {
		if e.Op == "load" && e.Args[0].Op == "iaddr" {
			break
		}
		e = e.Args[0]
	}
	switch {
	case e != nil && e.Op == "load":
		list, i = e.Args[0].Args[0], e.Args[0].Args[1]
	case e != nil && e.Op == "iaddr":
		list, i = e.Args[0], e.Args[1]
	default:
		return nil, nil, false
	}
	ok = routeList(list, recv, routes, copies)
	return
}

// routeList: the routes of the builder, or a complete copy of them.
func routeList(l, recv *Term, routes string, copies map[*Term]*Term) bool {
	if l.Op == "appends" && len(l.Args) == 2 && emptyList(l.Args[0]) {
		l = l.Args[1]
	}
	if x := copies[l]; x != nil && l.Op == "mkslice" && l.Args[0] == tLen(x) {
		l = x
	}
	return l.Op == "load" && l.Args[0].Op == "faddr" && l.Args[0].S == routes && l.Args[0].Args[0] == recv
}

// allSteps: the one list of the steps of all routes in order, when building
// has made one.
func allSteps(b *Trace, isRoutes func(*Term) bool, routeAt func(*Term) (*Term, *Term, bool)) *Term {
	for _, l := range b.loopsIn() {
		for _, lv := range l.Phis {
			v := lv.Term
			ok := lv.Init != nil && emptyList(lv.Init) && len(l.Iters) > 0
			for _, it := range l.Iters {
				nx := it.Next[v]
				if !ok || nx == nil || nx.Op != "appends" || len(nx.Args) != 2 || nx.Args[0] != v {
					ok = false
					break
				}
				list, i, is := routeAt(nx.Args[1])
				ok = is && isRoutes(list) && l.ascends(i) && covers(l, tLen(list), i) && b.leftExhausted(l, i, tLen(list))
			}
			if ok {
				return v
			}
		}
	}
	return nil
}

func (c *Chk) runs(b *Trace, q *Proc, recv *Term, routes, chain string) {
	copies := map[*Term]*Term{}
	for _, e := range b.of("copy") {
		if e.Loc != nil && e.Val != nil {
			copies[e.Loc] = e.Val
		}
	}
	event, state := q.Params[0], q.Params[1]
	// lens: the lengths some path compares with, of the lists ok accepts
	lens := func(ok func(*Term) bool) []*Term {
		seen := map[*Term]bool{}
		var out []*Term
		for _, t := range q.Traces {
			for _, f := range t.Facts {
				f.Atom.Any(func(x *Term) bool {
					if x.Op == "len" && !seen[x] && ok(x.Args[0]) {
						seen[x] = true
						out = append(out, x)
					}
					return false
				})
			}
		}
		return out
	}
	isRoutes := func(l *Term) bool { return routeList(l, recv, routes, copies) }
	routeLens := lens(isRoutes)
	over := func(l *LoopInst, ns []*Term, i *Term) bool {
		for _, n := range ns {
			if covers(l, n, i) && l.ascends(i) {
				return true
			}
		}
		return false
	}
	left := func(t *Trace, l *LoopInst, ns []*Term, i *Term) bool {
		for _, n := range ns {
			if t.leftExhausted(l, i, n) {
				return true
			}
		}
		return false
	}
	// what a call site runs, and the loops it is in
	type site struct {
		i, j    *Term
		lens    []*Term
		out, in *LoopInst
		res     *Term
	}
	flat := allSteps(b, isRoutes, func(x *Term) (*Term, *Term, bool) { return routeAt(x, recv, routes, copies) })
	look := func(t *Trace, e *Event) *site {
		if l, j, ok := elemIndex(e.FnT); ok && flat != nil && l == flat {
			if len(e.Args) != 2 || e.Args[0] != event || e.Args[1] != state || len(e.Loops) != 1 {
				return nil
			}
			s := &site{j: j, res: e.Res, lens: []*Term{tLen(flat)}, in: e.Loops[0]}
			if !over(s.in, s.lens, j) {
				return nil
			}
			return s
		}
		_, i, _, j, ok := stepOf(e.FnT, recv, routes, chain, copies)
		if !ok || len(e.Args) != 2 || e.Args[0] != event || e.Args[1] != state || len(e.Loops) != 2 {
			return nil
		}
		s := &site{i: i, j: j, res: e.Res}
		s.lens = lens(func(l *Term) bool {
			_, k, ok := routeAt(l, recv, routes, copies)
			return ok && linDiffZero(k, i)
		})
		for _, l := range e.Loops {
			if over(l, routeLens, i) {
				s.out = l
			}
			if over(l, s.lens, j) {
				s.in = l
			}
		}
		if s.out == nil || s.in == nil || s.out == s.in {
			return nil
		}
		return s
	}
	// the loops
	var the *site
	for _, t := range q.Traces {
		for _, e := range t.of("callback") {
			s := look(t, e)
			if !c.check("run", s != nil, t, e, "something else is called than the steps of the routes in order, with the event and state given") {
				return
			}
			if the != nil && (s.out != the.out || s.in != the.in) {
				c.check("run", false, t, e, "steps are called from more than one loop")
				return
			}
			the = s
		}
		for _, e := range t.of("store", "mapset", "mapdel", "send", "go") {
			c.check("run", e.Kind == "store" && e.Fresh, t, e, "running a processor changes shared state")
		}
	}
	if the == nil {
		c.bad("run", q.Name, "the built function never calls a step")
		return
	}
	// the outcome of the last step may be carried to the head of the loop
	var carry *Term
	for _, v := range the.in.Phis {
		ok := v.Init != nil && len(the.in.Iters) > 0
		for _, it := range the.in.Iters {
			ok = ok && it.Next[v.Term] == the.res && it.eq(v.Term, tNil)
		}
		if ok {
			carry = v.Term
		}
	}
	// known to be nil, also by never having been anything else in the loop
	var isNil func(t *Trace, v *Term, seen map[*Term]bool) bool
	isNil = func(t *Trace, v *Term, seen map[*Term]bool) bool {
		if v.IsNil() || v.Op == "zero" || t.eq(v, tNil) || seen[v] {
			return true
		}
		for _, l := range []*LoopInst{the.in, the.out} {
			if l == nil {
				continue
			}
			lv := l.Var(v)
			if lv == nil || lv.Init == nil {
				continue
			}
			seen[v] = true // by induction over the rounds
			ok := isNil(t, lv.Init, seen) && len(l.Iters) > 0
			for _, it := range l.Iters {
				nx := it.Next[v]
				ok = ok && nx != nil && (nx == v || isNil(it, nx, seen))
			}
			return ok
		}
		return false
	}
	for _, t := range q.Traces {
		calls := t.of("callback")
		switch t.End {
		case "panic":
			c.check("run", len(t.of("cbpanic")) > 0, t, nil, "the built function panics by itself")
		case "halt", "cut":
		case "back":
			switch t.Loop {
			case the.in:
				ok := len(calls) == 1 && inLoop(calls[0], the.in) && (carry != nil || t.eq(calls[0].Res, tNil))
				c.check("run", ok, t, nil, "the run goes on although a step was not called, or failed")
			case the.out:
				ended := false
				if t.enter(the.in) != nil {
					ended = left(t, the.in, the.lens, the.j) && (carry == nil || t.eq(carry, tNil))
				}
				for _, n := range the.lens {
					ended = ended || t.Facts.ProveLE(n, tInt(0), 0)
				}
				c.check("run", ended && len(calls) == 0, t, nil, "the run goes on to the next route before the end of a route")
			default:
				c.check("run", false, t, nil, "the built function has another loop")
			}
		case "return":
			r := t.Ret[0]
			if len(calls) > 0 {
				c.check("run", len(calls) == 1 && r == calls[0].Res && t.ne(r, tNil), t, nil, "the error of a failing step is not what is returned")
				continue
			}
			if carry != nil && r == carry && t.ne(r, tNil) {
				c.check("run", true, t, nil, "")
				continue
			}
			ns, loop, at := routeLens, the.out, the.i
			if loop == nil {
				ns, loop, at = the.lens, the.in, the.j
			}
			none := false
			for _, n := range ns {
				none = none || t.Facts.ProveLE(n, tInt(0), 0)
			}
			c.check("run", isNil(t, r, map[*Term]bool{}) && (none || left(t, loop, ns, at)), t, nil, "the run ends before all routes were run")
		default:
			c.check("run", false, t, nil, "the built function does not end properly")
		}
	}
}

func init() {
	register("E01", "list-building typestate of the route declarations; path-sensitive analysis of the built closure over two nested index-covering ascending loops with the outcome of each step; the closure touches no field of its builder", ruleE01)
}

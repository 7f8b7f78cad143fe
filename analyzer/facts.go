package main

import (
	"go/types"
	"sort"
)

// Facts are the outcomes of the branches taken on a path. Because terms are
// versioned, a fact never becomes false later on the same path.
type Fact struct {
	Atom *Term
	Val  bool
}

type Facts []Fact

// linear facts: Lin <= 0
func (f Facts) linear(extra ...*Term) []*Lin {
	var out []*Lin
	addLE := func(a, b *Term, c int64) { // a - b <= c
		l := linDiff(a, b)
		l.C -= c
		if len(l.Coef) > 0 {
			out = append(out, l)
		}
	}
	seen := map[*Term]bool{}
	var mods []*Term
	var note func(t *Term)
	note = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "len" || t.Op == "cap" || t.Op == "maplen" {
			l := newLin()
			l.add(lin(t), -1) // -len <= 0
			if len(l.Coef) > 0 {
				out = append(out, l)
			}
		}
		if t.Op == "bin" && (t.S == "%" || t.S == "&") {
			mods = append(mods, t)
		}
		if m := unsignedMod(t); m != nil {
			mods = append(mods, t)
		}
		for _, a := range t.Args {
			note(a)
		}
	}
	for _, x := range f {
		if x.Atom.Op == "lt" && numericAtom(x.Atom) {
			a, b := x.Atom.Args[0], x.Atom.Args[1]
			if x.Val {
				addLE(a, b, -1)
			} else {
				addLE(b, a, 0)
			}
			note(x.Atom)
		} else if x.Atom.Op == "eq" && numericAtom(x.Atom) {
			a, b := x.Atom.Args[0], x.Atom.Args[1]
			if x.Val {
				addLE(a, b, 0)
				addLE(b, a, 0)
			}
			note(x.Atom)
		} else if x.Atom.Op == "ge0" && x.Val {
			l := newLin()
			l.add(lin(x.Atom.Args[0]), -1)
			if len(l.Coef) > 0 {
				out = append(out, l)
			}
			note(x.Atom.Args[0])
		}
	}
	for _, t := range extra {
		note(t)
	}
	// remainders of a positive divisor, and masks
	sort.Slice(mods, func(i, j int) bool { return mods[i].ID < mods[j].ID })
	for _, t := range mods {
		if n := unsignedMod(t); n != nil {
			if proveLE0(out, linDiff(tInt(1), n)) {
				addLE(tInt(0), t, 0)
				addLE(t, n, -1)
			}
			continue
		}
		a, n := t.Args[0], t.Args[1]
		nonneg := func(x *Term) bool {
			l := newLin()
			l.add(lin(x), -1)
			return proveLE0(out, l) && exactInt(x, n)
		}
		if t.S == "&" {
			if nonneg(n) {
				addLE(tInt(0), t, 0)
				addLE(t, n, 0)
			}
			if nonneg(a) {
				addLE(tInt(0), t, 0)
				addLE(t, a, 0)
			}
			continue
		}
		pos := linDiff(tInt(1), n)
		if !proveLE0(out, pos) {
			continue
		}
		addLE(t, n, -1)
		if nonneg(a) {
			addLE(tInt(0), t, 0)
			addLE(t, a, 0)
		} else {
			// -(n-1) <= a%n
			l := newLin()
			l.add(lin(t), -1)
			l.add(lin(n), -1)
			l.C++
			out = append(out, l)
		}
	}
	// disequalities tighten non-strict bounds: a<=b and a!=b gives a<b
	for _, x := range f {
		if x.Atom.Op == "eq" && !x.Val && numericAtom(x.Atom) {
			d := linDiff(x.Atom.Args[0], x.Atom.Args[1])
			if proveLE0(out, d) {
				d2 := newLin()
				d2.add(d, 1)
				d2.C++
				out = append(out, d2)
			}
			nd := newLin()
			nd.add(d, -1)
			if proveLE0(out, nd) {
				nd.C++
				out = append(out, nd)
			}
		}
	}
	return out
}

// unsignedMod: t is int(uintN(a) % uintN(n)); returns n.
func unsignedMod(t *Term) *Term {
	if t.Op != "conv" || !isIntType(t.T) || len(t.Args) != 1 || t.Args[0].Op != "bin" || t.Args[0].S != "%" {
		return nil
	}
	m := t.Args[0]
	b, ok := m.T.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsUnsigned == 0 {
		return nil
	}
	n := m.Args[1]
	if n.Op == "conv" && len(n.Args) == 1 && isIntType(n.Args[0].T) {
		return n.Args[0]
	}
	return nil
}

// exactInt: the term's value as an unbounded integer is its machine value, so
// its sign may be judged arithmetically (n is a divisor or count in play).
func exactInt(t, n *Term) bool {
	small := func(x *Term) bool {
		if _, ok := x.Int(); ok {
			return true
		}
		return x == n || x.Op == "len" || x.Op == "cap" || x.Op == "bin" && x.S == "%"
	}
	switch t.Op {
	case "bin":
		switch t.S {
		case "+", "-":
			return (small(t.Args[0]) || t.Args[0].Op == "neg" && small(t.Args[0].Args[0])) && small(t.Args[1])
		case "*", "<<":
			return false
		}
		return true
	case "neg":
		return small(t.Args[0])
	case "conv":
		return false
	}
	return true
}

func numericAtom(t *Term) bool {
	for _, a := range t.Args {
		if a.T != nil && isIntType(a.T) {
			return true
		}
		if a.Op == "len" || a.Op == "maplen" || a.Op == "timesub" {
			return true
		}
		if isTimeTerm(a) {
			return true
		}
	}
	return false
}

func isTimeTerm(a *Term) bool {
	if a.Op == "timeadd" || a.Op == "timesub" || a.IsCall("time.Now") {
		return true
	}
	return a.T != nil && a.T.String() == "time.Time"
}

// proveLE0 reports whether the facts (each Lin<=0) entail goal<=0, using the
// zone domain (difference bounds) and syntactic matching of longer sums.
func proveLE0(facts []*Lin, goal *Lin) bool {
	if goal.isConst() {
		return goal.C <= 0
	}
	// a goal entailed by one fact, or by the sum of two facts
	for _, f := range facts {
		if f.sameVec(goal, 1) && goal.C <= f.C {
			return true
		}
	}
	for i, f := range facts {
		for _, g := range facts[i:] {
			s := newLin()
			s.add(f, 1)
			s.add(g, 1)
			if s.sameVec(goal, 1) && goal.C <= s.C {
				return true
			}
		}
	}
	// zone closure
	var pos, neg *Term
	n := 0
	for t, c := range goal.Coef {
		n++
		if c == 1 && pos == nil {
			pos = t
		} else if c == -1 && neg == nil {
			neg = t
		} else {
			return false
		}
	}
	if n > 2 {
		return false
	}
	// edges: x - y <= k
	type edge struct {
		x, y *Term
		k    int64
	}
	var es []edge
	for _, f := range facts {
		var p, q *Term
		bad := false
		for t, c := range f.Coef {
			if c == 1 && p == nil {
				p = t
			} else if c == -1 && q == nil {
				q = t
			} else {
				bad = true
			}
		}
		if bad {
			continue
		}
		es = append(es, edge{p, q, -f.C})
	}
	// want pos - neg <= -goal.C : shortest path from neg to pos
	dist := map[*Term]int64{neg: 0}
	for i := 0; i < len(es)+1; i++ {
		ch := false
		for _, e := range es {
			if d, ok := dist[e.y]; ok {
				if c, ok2 := dist[e.x]; !ok2 || d+e.k < c {
					dist[e.x] = d + e.k
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	d, ok := dist[pos]
	return ok && d <= -goal.C
}

// ProveLE: facts entail a - b <= c.
func (f Facts) ProveLE(a, b *Term, c int64) bool {
	g := linDiff(a, b)
	g.C -= c
	return proveLE0(f.linear(a, b), g)
}

func (f Facts) ProveLT(a, b *Term) bool { return f.ProveLE(a, b, -1) }

// eqRep returns representative classes over the positive equalities.
func (f Facts) classes() func(*Term) *Term {
	par := map[*Term]*Term{}
	var find func(*Term) *Term
	find = func(t *Term) *Term {
		if p, ok := par[t]; ok && p != t {
			r := find(p)
			par[t] = r
			return r
		}
		return t
	}
	for _, x := range f {
		if x.Val && x.Atom.Op == "eq" {
			a, b := find(x.Atom.Args[0]), find(x.Atom.Args[1])
			if a != b {
				// prefer constants as representatives
				if a.Op == "const" || a.Op == "nil" {
					par[b] = a
				} else {
					par[a] = b
				}
			}
		}
	}
	return find
}

// Eval evaluates a boolean term: 1 true, -1 false, 0 unknown.
func (f Facts) Eval(t *Term) int {
	switch t.Op {
	case "const":
		if t.S == "true" {
			return 1
		}
		return -1
	case "not":
		return -f.Eval(t.Args[0])
	}
	for _, x := range f {
		if x.Atom == t {
			if x.Val {
				return 1
			}
			return -1
		}
	}
	switch t.Op {
	case "eq":
		a, b := t.Args[0], t.Args[1]
		find := f.classes()
		ra, rb := find(a), find(b)
		if ra == rb {
			return 1
		}
		if v := tEq(ra, rb); v.Op == "const" {
			if v.IsTrue() {
				return 1
			}
			return -1
		}
		for _, x := range f {
			if !x.Val && x.Atom.Op == "eq" {
				p, q := find(x.Atom.Args[0]), find(x.Atom.Args[1])
				if (p == ra && q == rb) || (p == rb && q == ra) {
					return -1
				}
			}
		}
		if numericAtom(t) {
			ls := f.linear(a, b)
			d := linDiff(a, b)
			if d.isConst() {
				if d.C == 0 {
					return 1
				}
				return -1
			}
			nd := newLin()
			nd.add(d, -1)
			le, ge := proveLE0(ls, d), proveLE0(ls, nd)
			if le && ge {
				return 1
			}
			d.C++
			nd.C++
			if proveLE0(ls, d) || proveLE0(ls, nd) {
				return -1
			}
		}
	case "lt":
		a, b := t.Args[0], t.Args[1]
		if numericAtom(t) {
			ls := f.linear(a, b)
			d := linDiff(a, b)
			d.C++ // a-b+1 <= 0
			if proveLE0(ls, d) {
				return 1
			}
			nd := linDiff(b, a)
			if proveLE0(ls, nd) {
				return -1
			}
		} else {
			// strict order: a<b known true makes b<a false
			for _, x := range f {
				if x.Val && x.Atom.Op == "lt" && x.Atom.Args[0] == b && x.Atom.Args[1] == a {
					return -1
				}
			}
			if f.Eval(tEq(a, b)) == 1 {
				return -1
			}
		}
	}
	return 0
}

// Add records an outcome.
func (f Facts) Add(t *Term, val bool) Facts {
	for t.Op == "not" {
		t = t.Args[0]
		val = !val
	}
	if t.Op == "const" {
		return f
	}
	for _, x := range f {
		if x.Atom == t && x.Val == val {
			return f
		}
	}
	return append(f[:len(f):len(f)], Fact{t, val})
}

package main

import "strings"

func init() {
	register("T01", "every path of every TwoKeyMap operation is evaluated over its symbolic keys for each of the finitely many ways these keys can be linked beforehand (zero keys included) and its effect on the three tables and its result compared with the specified ones; all changes of an operation lie in one critical section", ruleT01)
	register("S01", "for every path of Set: members are added, removed and cleared exactly as asked, HasAll/HasAny/Equals leave their loops only on a deciding member or after all members were visited, and Clone fills a fresh map from all members", ruleS01)
	register("U01", "for every path of StructUniqSet.Has/Add/Remove: the key is the hash returned by the configured build function for the argument, its error is returned before any change, and the result is the membership found in (and for Add changed within) the same critical section", ruleU01)
	register("U02", "for every removal by the cleanup of StructUniqSet: the removed entry is the very element whose age is proven to be at least the lifetime, the age queue loses exactly the examined expired elements, every stored element is queued, and no element of a possibly empty queue is accessed", ruleU02)
}

// ---- TwoKeyMap ----

// ---- Set ----

// shrunk: r compares the sizes of the map before and after the removal of the
// key in one critical section.
func (t *Trace) shrunk(r *Term, sp *mapSpec, key *Term) bool {
	var before, after, del *Event
	for _, e := range t.Events {
		switch {
		case e.Kind == "maplen" && place(e.Map) == sp.Field:
			if del == nil {
				before = e
			} else {
				after = e
			}
		case mapChange(e, sp.Field):
			if e.Kind != "mapdel" || del != nil || !t.eq(e.Key, key) {
				return false
			}
			del = e
		}
	}
	if before == nil || after == nil || del == nil || !sameW(before, del) || !sameW(del, after) {
		return false
	}
	return r == tLt(after.Res, before.Res) || r == tNot(tEq(after.Res, before.Res)) || r == tEq(after.Res, tAdd(before.Res, -1))
}

// addedAll: the collection all whose elements a loop of this path added to
// the map and nothing else.
func (t *Trace) addedAll(field string) *Term {
	for _, inst := range t.loopsIn() {
		good := len(inst.Iters) > 0
		var elem *Term
		for _, it := range inst.Iters {
			hit := false
			for _, e := range it.of("mapset") {
				if e.Seq < inst.Events {
					continue
				}
				if place(e.Map) == field || e.Map.Op == "mkmap" {
					hit = true
					elem = e.Key
				} else {
					good = false
				}
			}
			good = good && hit
		}
		if good && elem != nil {
			if coll, full := t.visits(inst, elem); full {
				return coll
			}
		}
	}
	return nil
}

// accumulates: the result is a variable that starts at all and that every
// iteration of a loop over the arguments combines with the presence of its
// argument (and for all, or for any).
func (t *Trace) accumulates(field string, all bool) bool {
	for _, inst := range t.loopsIn() {
		for _, v := range inst.Phis {
			if v.Init == nil || v.Init != tBool(all) {
				continue
			}
			if r := t.truth(t.Ret[0]); t.Ret[0] != v.Term && (r == 0 || r != t.truth(v.Term)) {
				continue
			}
			good := len(inst.Iters) > 0
			var elem *Term
			for _, it := range inst.Iters {
				next := it.Next[v.Term]
				was, hit := it.truth(v.Term), false
				settled := 1 // the value after which arguments no longer matter
				if all {
					settled = -1
				}
				for _, e := range it.mapEvs(field, "mapget") {
					if !it.memberOf(e.Key, param(t.Proc, 1)) {
						continue
					}
					elem = e.Key
					is := next == e.Ok || it.truth(next) != 0 && it.truth(next) == it.truth(e.Ok)
					if was == -settled && is || it.truth(e.Ok) == settled && it.truth(next) == settled {
						hit = true
					}
					if it.truth(e.Ok) == -settled && next == v.Term {
						hit = true
					}
				}
				if was == settled && (next == v.Term || it.truth(next) == settled) {
					hit = true
				}
				good = good && hit
			}
			if !good || elem == nil {
				continue
			}
			if _, full := t.visits(inst, elem); full {
				return true
			}
		}
	}
	return false
}

func ruleS01(c *Chk) {
	n := "collections.Set."
	field := c.presenceMap(n + "Has")
	if field == "" {
		return
	}
	sp := &mapSpec{Field: field, Key: keyAt(1)}
	c.hasOp(n+"Has", sp)
	c.sizeOp(n+"Size", sp)
	c.keysOp(n+"Values", sp)
	c.keysOp(n+"All", sp)
	c.deleteOp(n+"Remove", sp)
	c.clearOp(n+"Clear", sp)
	for _, t := range returns(c.P(n + "Add")) {
		c.onlyKey("add.only-key", t, sp)
		ok := t.finalPresence(field, param(t.Proc, 1)) == 1
		if one := t.addedAll(field); one != nil && one.Op == "arr" && len(one.Args) > 0 && one.Args[0] == param(t.Proc, 1) {
			ok = true // by way of a list of the one value
		}
		c.check("add", ok, t, nil, "Add can return with the value missing")
	}
	c.ctorMakes("collections.NewSet", field)
	addsAll := func(name string, arg int) {
		for _, t := range returns(c.P(name)) {
			c.check("adds-all", t.addedAll(field) == param(t.Proc, arg), t, nil, "%s can return without having added every value", name)
		}
		c.atLeast("adds-all", 1)
	}
	addsAll(n+"AddAll", 1)
	addsAll("collections.NewSet", 0)
	// HasAll, HasAny
	quant := func(name string, all bool) {
		for _, t := range returns(c.P(name)) {
			r := t.truth(t.Ret[0])
			if t.accumulates(field, all) {
				c.check("quantified", true, t, nil, "")
				c.check("quantified.early", true, t, nil, "")
				c.check("quantified.all", true, t, nil, "")
				continue
			}
			c.check("quantified", r != 0, t, nil, "the path does not decide its result")
			early := r == -1
			if !all {
				early = r == 1
			}
			want := -1
			if !all {
				want = 1
			}
			if early {
				ok := false
				for _, e := range t.mapEvs(field, "mapget") {
					if t.memberOf(e.Key, param(t.Proc, 1)) && t.truth(e.Ok) == want {
						ok = true
					}
				}
				c.check("quantified.early", ok, t, nil, "the result is given early without a deciding argument")
				continue
			}
			ok := false
			for _, inst := range t.loopsIn() {
				good := len(inst.Iters) > 0
				var elem *Term
				for _, it := range inst.Iters {
					hit := false
					for _, e := range it.mapEvs(field, "mapget") {
						if it.memberOf(e.Key, param(t.Proc, 1)) && it.truth(e.Ok) == -want {
							hit = true
							elem = e.Key
						}
					}
					good = good && hit
				}
				if good && elem != nil {
					_, full := t.visits(inst, elem)
					ok = ok || full
				}
			}
			c.check("quantified.all", ok, t, nil, "the result is given without having looked at every argument")
		}
	}
	quant(n+"HasAll", true)
	quant(n+"HasAny", false)
	c.atLeast("quantified.all", 2)
	c.atLeast("quantified.early", 2)
	// Equals
	eq := n + "Equals"
	for _, t := range returns(c.P(eq)) {
		p := t.Proc
		mine, other := param(p, 0), param(p, 1)
		side := func(m *Term) int {
			o := owner(m)
			if place(m) != field || o == nil {
				return 0
			}
			if o == mine {
				return 1
			}
			if o == other {
				return 2
			}
			return 0
		}
		r := t.truth(t.Ret[0])
		c.check("equals.decided", r != 0, t, nil, "the path does not decide its result")
		var la, lb *Term
		for _, e := range t.of("maplen") {
			if side(e.Map) == 1 {
				la = e.Res
			} else if side(e.Map) == 2 {
				lb = e.Res
			}
		}
		sizes := 0
		if la != nil && lb != nil {
			sizes = t.Facts.Eval(tEq(la, lb))
		}
		if t.eq(mine, other) {
			c.check("equals.self", r == 1, t, nil, "a set is not equal to itself")
			continue
		}
		if r == -1 {
			ok := sizes == -1
			for _, e := range t.of("mapget") {
				if s := side(e.Map); s != 0 && t.truth(e.Ok) == -1 {
					// the key must be a member of the other side
					src := e.Key
					if l, _, is := elemIndex(src); is {
						if m, what, cc := t.collected(l); cc && what.Op == "rkey" {
							ok = ok || side(m) == 3-s
						}
					} else if src.Op == "rkey" && src.Args[0].Op == "iter" {
						ok = ok || side(src.Args[0].Args[0]) == 3-s
					}
				}
			}
			c.check("equals.differ", ok, t, nil, "two sets are reported different without a differing size or member")
			continue
		}
		covered := map[int]bool{}
		for _, inst := range t.loopsIn() {
			good := len(inst.Iters) > 0
			var elem *Term
			s := 0
			for _, it := range inst.Iters {
				hit := false
				for _, e := range it.of("mapget") {
					if e.Seq >= inst.Events && side(e.Map) != 0 && it.truth(e.Ok) == 1 {
						hit = true
						elem = e.Key
						s = side(e.Map)
					}
				}
				good = good && hit
			}
			if good && elem != nil {
				coll, full := t.visits(inst, elem)
				if full && side(coll) == 3-s {
					covered[side(coll)] = true
				}
			}
		}
		c.check("equals.same", len(covered) == 2 || len(covered) == 1 && sizes == 1, t, nil, "two sets are reported equal without equal sizes and every member found in the other")
	}
	c.atLeast("equals.same", 1)
	c.atLeast("equals.differ", 1)
	// Clone
	for _, t := range returns(c.P(n + "Clone")) {
		res := t.Ret[0]
		ok := res.Op == "new"
		var m *Term
		for _, e := range t.of("store") {
			if e.Loc.Op == "faddr" && e.Loc.S == field && e.Loc.Args[0] == res {
				m = e.Val
			}
		}
		c.check("clone.fresh", ok && m != nil && (m.Op == "mkmap" || m.Op == "mapclone"), t, nil, "Clone does not return a new set with its own map")
		full := m != nil && m.Op == "mapclone" && len(m.Args) > 0 && place(m.Args[0]) == field && owner(m.Args[0]) == param(t.Proc, 0)
		for _, inst := range t.loopsIn() {
			good := len(inst.Iters) > 0
			var elem *Term
			for _, it := range inst.Iters {
				hit := false
				for _, e := range it.of("mapset") {
					if e.Seq >= inst.Events && e.Map == m {
						hit = true
						elem = e.Key
					}
				}
				good = good && hit
			}
			if good && elem != nil {
				coll, f := t.visits(inst, elem)
				full = full || f && place(coll) == field && owner(coll) == param(t.Proc, 0)
			}
		}
		c.check("clone.members", full, t, nil, "Clone can return without every member of the original")
		for _, e := range t.Events {
			if mapChange(e, field) && !e.Fresh {
				c.check("clone.pure", false, t, e, "Clone changes the original")
			}
		}
	}
	c.atLeast("clone.members", 1)
	for _, m := range []string{"HasAll", "HasAny", "Equals"} {
		for _, t := range c.Ts(n + m) {
			for _, e := range t.Events {
				if mapChange(e, field) && !e.Fresh {
					c.check("pure", false, t, e, "%s changes a set", m)
				}
			}
		}
	}
}

// ---- StructUniqSet ----

// hashKey: the hash of the operation's argument on this path, as given by
// the configured build function.
func (c *Chk) hashKey(t *Trace, fields map[string]bool) (hash, err *Term, call *Event) {
	for _, e := range t.of("callback") {
		if fields[place(e.FnT)] && len(e.Args) >= 1 && t.eq(e.Args[0], param(t.Proc, 1)) {
			if e.Res.Op == "tuple" && len(e.Res.Args) == 2 {
				return e.Res.Args[0], e.Res.Args[1], e
			}
		}
	}
	return nil, nil, nil
}

func ruleU01(c *Chk) {
	n := "collections.StructUniqSet."
	field := c.countMap(n + "Count")
	bf := c.optionFields("collections.StructUniqSetBuilder", "WithBuildFunc")
	if field == "" {
		return
	}
	c.sizeOp(n+"Count", &mapSpec{Field: field, Key: keyAt(0)})
	for _, m := range []string{"Has", "Add", "Remove"} {
		for _, t := range returns(c.P(n + m)) {
			hash, err, call := c.hashKey(t, bf)
			sp := &mapSpec{Field: field, Key: func(*Trace) *Term { return hash }}
			if !c.check("hash", hash != nil, t, nil, "%s does not hash its argument with the configured build function", m) {
				continue
			}
			isErr := t.Facts.Eval(tEq(err, tNil))
			if isErr == -1 {
				c.check("hash-error", t.eq(t.Ret[1], err) && t.truth(t.Ret[0]) == -1 && len(sp.changes(t)) == 0, t, call, "an error of the build function is not returned as it is, without changing the set")
				continue
			}
			c.check("hash-checked", isErr == 1, t, call, "the error of the build function is not checked")
			c.check("no-error", t.Ret[1].IsNil() || t.eq(t.Ret[1], err), t, nil, "an error is returned although hashing succeeded")
			for _, e := range t.mapEvs(field, "mapget", "mapset", "mapdel") {
				c.check("hash-key", t.eq(e.Key, hash), t, e, "the set is accessed with something other than the computed hash")
			}
			switch m {
			case "Has":
				c.reports("has", t, sp, t.Ret[0])
				c.readOnly("has.pure", t, sp)
			case "Remove":
				c.onlyKey("remove.only-key", t, sp)
				c.check("remove.absent", t.finalPresence(field, hash) == -1, t, nil, "the hash can still be present after Remove")
				if t.shrunk(t.Ret[0], sp, hash) {
					// the set got smaller: exactly when the key was there
					c.check("remove.result", true, t, nil, "")
					c.check("remove.atomic", true, t, nil, "")
					continue
				}
				c.reports("remove.result", t, sp, t.Ret[0])
				// of concurrent removals exactly one reports the element
				var got, del *Event
				for _, e := range sp.gets(t) {
					got = e
				}
				for _, e := range sp.changes(t) {
					if e.Kind == "mapdel" {
						del = e
					}
				}
				if t.truth(t.Ret[0]) == 1 {
					c.check("remove.atomic", del != nil && del.Pres == 1 && got != nil && sameSection(got, del), t, del, "Remove reports an element without removing it in the critical section that found it")
				} else if t.truth(t.Ret[0]) == 0 {
					c.check("remove.atomic", del != nil && got != nil && sameSection(got, del), t, del, "Remove decides its result outside the critical section that removes the element")
				}
			case "Add":
				r := t.truth(t.Ret[0])
				c.check("add.decided", r != 0, t, nil, "the path does not decide its result")
				if r == 1 {
					var set *Event
					k := 0
					for _, e := range sp.changes(t) {
						if e.Kind == "mapset" && t.eq(e.Key, hash) {
							set = e
							k++
						} else {
							k = 9
						}
					}
					c.check("add.atomic", k == 1 && set.Pres == -1, t, set, "Add reports a new value without storing it in the critical section that found it absent")
				} else if r == -1 {
					c.check("add.present", sp.seen(t) == 1 && len(sp.changes(t)) == 0, t, nil, "Add reports a present value although its hash was not found present, or changes the set")
				}
			}
		}
	}
	c.atLeast("add.atomic", 1)
	c.atLeast("add.present", 1)
	c.atLeast("has", 1)
	c.atLeast("remove.absent", 1)
	c.atLeast("hash-error", 2)
	c.ctorMakes("collections.StructUniqSetBuilder.Build", field)
	// the default build function hashes the encoding of the whole value
	c.defaultHash(bf)
}

// defaultHash: the build function a set has when none is configured identifies
// a value by the digest of its whole encoding, or fails.
func (c *Chk) defaultHash(bf map[string]bool) {
	for _, name := range []string{"collections.NewStructUniqSet", "collections.StructUniqSetBuilder.Build"} {
		for _, p := range c.children(c.P(name)) {
			if p.Kind != "stored" || p.Spawn == nil || p.Spawn.Loc == nil || !bf[place(p.Spawn.Loc)] {
				continue
			}
			for _, t := range returns(p) {
				if t.fails() || len(t.Ret) != 2 {
					continue
				}
				c.check("default-hash", t.encodedDigest(t.Ret[0], param(p, 0)), t, nil, "the default build function gives a hash that is not the digest of the value's whole encoding")
			}
		}
	}
	c.atLeast("default-hash", 1)
}

// encodedDigest: h is the digest of the complete gob encoding of v made on
// this path by an encoder of its own.
func (t *Trace) encodedDigest(h, v *Term) bool {
	var enc *Event
	for _, e := range t.of("call") {
		if strings.HasPrefix(e.Name, "(*encoding/gob.Encoder).Encode") {
			if enc != nil {
				return false
			}
			enc = e
		}
	}
	if enc == nil || len(enc.Args) < 2 || !t.eq(unface(enc.Args[1]), v) {
		return false
	}
	if err := errTerm(enc); err == nil || t.Facts.Eval(tEq(err, tNil)) != 1 && !t.ownErr(enc) {
		return false
	}
	mk := t.produced(enc.Args[0], 0, "encoding/gob.NewEncoder")
	if mk == nil {
		return false
	}
	w := unface(mk.Args[0])
	if src := t.digestOf(h); src != nil {
		by := t.produced(src, 0, "(*bytes.Buffer).Bytes")
		if by == nil || by.Args[0] != w || by.Seq < enc.Seq {
			return false
		}
		// the buffer was empty and nothing else went in or out
		clean := w.Op == "new"
		for _, u := range t.uses(w) {
			switch {
			case u.Seq > by.Seq, u == mk, isMethod(u, "Len"), isMethod(u, "Bytes"), isMethod(u, "Cap"), isMethod(u, "Grow"):
			case u.Seq < enc.Seq && isMethod(u, "Reset"):
				clean = true
			default:
				return false
			}
		}
		return clean
	}
	return t.digested(h) == w && w != nil
}

// digested: the MD5 state whose sum h is, when nothing but one encoder wrote
// to it.
func (t *Trace) digested(h *Term) *Term {
	for i := 0; h != nil && i < 4; i++ {
		if e := t.produced(h, 0, "(hash.Hash).Sum"); e != nil {
			w := e.Args[0]
			if len(e.Args) != 2 || !emptyList(e.Args[1]) || !w.IsCall("crypto/md5.New") {
				return nil
			}
			for _, u := range t.uses(w) {
				if u.Seq < e.Seq && u.Name != "encoding/gob.NewEncoder" {
					return nil
				}
			}
			return w
		}
		if b := sameBytes(h); b != nil && b != h {
			h = b
			continue
		}
		if ps := t.laidOut(h, 1<<30); len(ps) == 1 && ps[0] != h {
			h = ps[0]
			continue
		}
		break
	}
	return nil
}

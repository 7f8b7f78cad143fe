package main

// G07: what GuavaMap keeps on the side of its entries goes with them.

func isGlobalErr(v *Term, name string) bool {
	for v != nil && (v.Op == "conv" || v.Op == "iface" || v.Op == "load") {
		v = v.Args[0]
	}
	return v != nil && v.Op == "global" && lastSeg(v.S) == name
}

// stoppers: the entry fields through which the goroutine waiting for the
// expiry of an entry is told to end: the cancel function of the context it
// watches, a channel it watches, or a timer that runs a function.
func (g *guava) stoppers() map[string]string {
	out := map[string]string{}
	for _, p := range g.procs {
		for _, t := range p.Traces {
			// the contexts made for entries and the channels they close
			for _, e := range t.of("store") {
				if e.Loc.Op != "faddr" || !e.Fresh || e.Val == nil {
					continue
				}
				switch v := e.Val; {
				case v.Op == "extract" && v.Args[0].IsCall("context.WithCancel", "context.WithCancelCause"):
					if g.entryField(t, e) {
						out[e.Loc.S] = "cancel"
					}
				case v.IsCall("time.AfterFunc"):
					if g.entryField(t, e) {
						out[e.Loc.S] = "stop"
					}
				case v.Op == "mkchan":
					if g.entryField(t, e) {
						out[e.Loc.S] = "close"
					}
				}
			}
		}
	}
	return out
}

// entryField: the store fills a field of an entry put into the map.
func (g *guava) entryField(t *Trace, e *Event) bool {
	o := e.Loc.Args[0]
	for _, m := range t.mapEvs(g.Map, "mapset") {
		if m.Val == o {
			return true
		}
	}
	return false
}

// released: on this path the entry's waiting goroutine is told to end, or the
// entry is known to have none.
func (g *guava) released(t *Trace, stop map[string]string, is func(entry *Term) bool) bool {
	mine := func(v *Term) bool {
		f, b := fieldBase(v)
		return b != nil && stop[f] != "" && is(b)
	}
	for _, e := range t.Events {
		switch {
		case e.Kind == "call" && e.Name == "context.CancelFunc" && mine(e.FnT),
			e.Kind == "close" && mine(e.Ch),
			e.Kind == "call" && e.Name == "(*time.Timer).Stop" && len(e.Args) > 0 && mine(e.Args[0]):
			return true
		}
	}
	// without expiry there is nothing to end
	for _, f := range t.Facts {
		if f.Atom.Op != "eq" {
			continue
		}
		for i, a := range f.Atom.Args {
			if _, b := fieldBase(a); b != nil && is(b) && isNilVal(f.Atom.Args[1-i]) && t.Facts.Eval(f.Atom) == 1 {
				return true
			}
		}
	}
	return t.isSet(t.Facts, g.R) == -1 && t.isSet(t.Facts, g.W) == -1
}

// expired: the goroutine of the very entry removes it, and ends.
func expired(p *Proc, t *Trace, e *Event) bool {
	if p.Kind != "go" && p.Kind != "stored" {
		return false
	}
	for _, s := range t.of("select", "recv") {
		if s.Seq < e.Seq {
			return true
		}
	}
	return p.Spawn == nil || p.Spawn.Kind != "go"
}

// heeds: what the goroutine waits for includes what ends with the entry o: the
// context whose cancel function the entry keeps, or the channel it keeps.
func (g *guava) heeds(t *Trace, stop map[string]string, o *Term, ch *Term) bool {
	if f, b := fieldBase(ch); b == o && stop[f] == "close" {
		return true
	}
	for _, s := range t.of("store") {
		if s.Loc.Op != "faddr" || s.Loc.Args[0] != o || stop[s.Loc.S] == "" {
			continue
		}
		if s.Val == ch {
			return true
		}
		if ch.IsCall("(context.Context).Done") && s.Val.Op == "extract" {
			x := ch.Args[0]
			for x.Op == "call" && x.IsCall("context.WithValue") {
				x = x.Args[0]
			}
			if x.Op == "extract" && x.Args[0] == s.Val.Args[0] && x != s.Val {
				return true
			}
		}
	}
	return false
}

// watchers: the goroutines started for a new entry can be ended through it.
func (c *Chk) watchers(g *guava, stop map[string]string, p *Proc) {
	for _, t := range p.Traces {
		for _, m := range t.mapEvs(g.Map, "mapset") {
			if m.Val == nil || m.Val.Op != "new" {
				continue
			}
			for _, e := range t.of("go") {
				if e.Proc == nil {
					continue
				}
				for _, u := range e.Proc.Traces {
					if u.End == "cut" {
						continue
					}
					clocked := false
					for _, s := range u.of("select", "recv") {
						n, _ := fieldBase(s.Ch)
						clocked = clocked || n == "time.Timer.C" || s.Ch != nil && s.Ch.IsCall("time.After")
						for _, k := range s.Cases {
							n, _ := fieldBase(k.Ch)
							clocked = clocked || n == "time.Timer.C" || k.Ch != nil && k.Ch.IsCall("time.After")
						}
					}
					if !clocked {
						continue
					}
					for _, s := range u.of("select", "recv") {
						if s.Dflt {
							continue
						}
						ok := s.Ch != nil && g.heeds(t, stop, m.Val, s.Ch)
						for _, k := range s.Cases {
							ok = ok || k.Ch != nil && g.heeds(t, stop, m.Val, k.Ch)
						}
						c.check("heeds", ok, u, s, "the goroutine waiting for the expiry of an entry does not wait for what ends with the entry")
						if s.Ch != nil && g.heeds(t, stop, m.Val, s.Ch) {
							c.check("heeds-ends", u.End == "return", u, s, "the goroutine of an entry goes on after it was told to end")
						}
					}
				}
			}
		}
	}
}

func ruleG07(c *Chk) {
	g := c.guava()
	if g == nil {
		return
	}
	stop := g.stoppers()
	c.check("stopper", len(stop) > 0, nil, nil, "nothing kept with an entry can end the goroutine waiting for its expiry")
	for _, p := range g.procs {
		c.watchers(g, stop, p)
	}
	c.atLeast("heeds", 2)
	for _, p := range g.procs {
		for _, t := range p.Traces {
			if t.End != "return" && t.End != "back" {
				continue
			}
			for _, e := range t.mapEvs(g.Map, "mapdel") {
				if e.Fresh || e.Pres == -1 || t.prefix(e) || expired(p, t, e) {
					continue
				}
				ok := g.released(t, stop, func(b *Term) bool {
					if e.Old != nil && t.eq(b, e.Old) {
						return true
					}
					for _, get := range t.mapEvs(g.Map, "mapget") {
						if t.eq(get.Key, e.Key) && t.eq(b, get.Res) {
							return true
						}
					}
					return b.Op == "rval" && e.Key.Op == "rkey" && b.Args[0] == e.Key.Args[0]
				})
				c.check("ended", ok, t, e, "an entry is removed but the goroutine waiting for its expiry is not told to end")
			}
			if t.End != "return" {
				continue
			}
			for _, e := range t.Events {
				if !isReset(e, g.Map) || e.Fresh || e.Map == nil && p.Kind == "api" && t.private(e) {
					continue
				}
				done := t.isSet(t.Facts, g.R) == -1 && t.isSet(t.Facts, g.W) == -1
				for _, get := range t.mapEvs(g.Map, "maplen") {
					done = done || t.Facts.ProveLE(get.Res, tInt(0), 0)
				}
				for _, inst := range t.loopsIn() {
					if inst.Mapiter == nil || place(inst.Mapiter.Args[0]) != g.Map || !t.leftExhausted(inst, nil, nil) || len(inst.Iters) == 0 {
						continue
					}
					all := true
					for _, it := range inst.Iters {
						dels := false
						for _, d := range it.mapEvs(g.Map, "mapdel") {
							dels = dels || inLoop(d, inst)
						}
						all = all && (dels || g.released(it, stop, func(b *Term) bool { return b.Op == "rval" && b.Args[0] == inst.Mapiter }))
					}
					done = done || all
				}
				c.check("ended", done, t, e, "all entries are dropped but their expiry goroutines are not told to end")
			}
		}
	}
	c.atLeast("ended", 2)
	// update locks
	p := c.P("collections.GuavaMap.LockForUpdate")
	if p == nil {
		return
	}
	key := param(p, 1)
	grows := map[string]bool{}
	for _, t := range p.Traces {
		for _, e := range t.of("mapset") {
			if f := place(e.Map); f != "" && f != g.Map && t.eq(e.Key, key) {
				grows[f] = true
			}
		}
	}
	for f := range grows {
		for _, t := range p.Traces {
			if t.End != "return" && t.End != "panic" {
				continue
			}
			used := false
			for _, e := range t.mapEvs(f, "mapget", "mapset") {
				used = used || t.eq(e.Key, key)
			}
			if !used {
				continue
			}
			// the object counting the users of the key
			net, stores := int64(0), 0
			var last *Event
			linear := true
			for _, s := range t.of("store") {
				if s.Loc.Op != "faddr" || s.Val == nil || !isIntType(s.Val.T) || !t.isTableEntry(s.Loc.Args[0], key) {
					continue
				}
				prev := s.Old
				if prev == nil {
					prev = tInt(0)
				}
				d := linDiff(s.Val, prev)
				if !d.isConst() {
					linear = false
				}
				net += d.C
				stores++
				last = s
			}
			gone := false
			for _, e := range t.mapEvs(f, "mapdel") {
				gone = gone || t.eq(e.Key, key)
			}
			ok := gone
			if !gone && last != nil && linear && net == 0 && stores >= 2 {
				ok = t.Facts.Eval(tEq(last.Val, tInt(0))) == -1 || t.Facts.ProveLE(tInt(1), last.Val, 0)
			}
			c.check("lock-dropped", ok && (gone || net == 0), t, last, "the update lock of the key stays in its table although no call may be using it any more")
			if gone && stores > 0 {
				c.check("lock-counted", net == 0 && linear, t, last, "the users of an update lock are not counted up and down evenly")
			}
		}
	}
}

func init() {
	register("G07", "the goroutine started with an entry waits for what the entry keeps to end it, and then ends; every path that removes an entry calls the cancel function (closes the channel, stops the timer) kept in it, or has found that it has none; a path that drops all entries does so in a loop over all of them; every path of LockForUpdate, a panicking update included, that puts or finds the key's lock in the table either removes it or has lowered its use count, evenly raised before, to a value tested not to be zero", ruleG07)
}

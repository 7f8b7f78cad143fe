package main

import (
	"strings"
)

// Rules for builder options (B01): what a setter stores, what the constructor
// leaves when a setter is not called, what Build makes of the values, and that
// the built object is on its own from then on.

func init() {
	register("B01", "every With* method stores its argument, and only it, in fields of the builder no other option writes, and returns the builder; constructors leave the documented defaults; on every path of Build each object field that takes an option's value holds exactly that value unless the path established it to be unset; buffers, poll intervals, locks, contexts and loggers come from their own option, and the purpose checks of the owning rules (timeouts, limits, counts, callbacks) hold; neither Build nor anything the object runs writes or reads the builder later", ruleB01)
}

// option of a builder: its setter, and the value when the setter is not called.
type option struct {
	Name string
	Def  string // decimal constant, "nil", "background", "param", "func" or "" (not specified)
}

type optBuilder struct {
	Type, Ctor, Build string
	Object            string
	Opts              []option
}

const (
	tMs  = "000000"
	tSec = "000000000"
)

func optBuilders() []*optBuilder {
	return []*optBuilder{
		{"chans.ChunkChanBuilder", "chans.NewChunkChan", "Build", "ChunkChan", []option{{"WithContext", "background"}, {"WithChunkSize", "100"}, {"WithChunkFunc", "nil"},
			{"WithChunkTimeout", "50" + tMs}, {"WithIncomingBufferSize", "1000"}, {"WithOutgoingBufferSize", "100"}, {"WithIncomingChan", "nil"}}},
		{"chans.ShardChanBuilder", "chans.NewShardChan", "Build", "ShardChan", []option{{"WithContext", "background"}, {"WithShardFunc", "nil"}, {"WithShardCount", "4"},
			{"WithIncomingBufferSize", "1000"}, {"WithOutgoingBufferSize", "100"}, {"WithIncomingChan", "nil"}, {"WithWorkerFunc", "nil"}}},
		{"chans.ShardChunkBuilder", "chans.NewShardChunk", "Build", "ShardChunk", []option{{"WithShardWorker", "nil"}, {"WithContext", "background"}, {"WithChunkSize", "500"},
			{"WithChunkTimeout", "50" + tMs}, {"WithShardCount", "4"}, {"WithShardFunc", "nil"}, {"WithIncomingBufferSize", "1000"}, {"WithOutgoingBufferSize", "100"}, {"WithIncomingChan", "nil"}}},
		{"workers.RunnerBuilder", "workers.NewRunner", "Build", "Runner", []option{{"WithContext", "background"}, {"WithWorkerCount", "5"}}},
		{"collections.HashSetBuilder", "collections.NewHashSet", "Build", "HashSet", []option{{"WithMaxCount", "0"}}},
		{"collections.GuavaMapBuilder", "collections.NewGuavaMap", "Build", "GuavaMap", []option{{"WithContext", "background"}, {"WithLockLoad", "false"}, {"WithLoadFunc", "nil"},
			{"WithMaxCount", "0"}, {"WithUnloadFunc", "nil"}, {"WithWriteTimeout", "0"}, {"WithReadTimeout", "0"}}},
		{"collections.HolderMapBuilder", "collections.NewHolderMap", "Build", "HolderMap", []option{{"WithContext", "background"}, {"WithTimeout", "10" + tSec}, {"WithTTL", "300" + tSec}}},
		{"collections.ResponseMapBuilder", "collections.NewResponseMap", "Build", "ResponseMap", []option{{"WithLogger", "zero"}, {"WithResponseTimeout", "100" + tSec}, {"WithClearTimeout", "100" + tSec}}},
		{"collections.ShardMapBuilder", "collections.NewShardMap", "Build", "ShardMap", []option{{"WithShardsCount", "6"}, {"WithShardsFunc", "nil"}}},
		{"collections.StructUniqSetBuilder", "collections.NewStructUniqSet", "Build", "StructUniqSet", []option{{"WithBuildFunc", "func"}, {"WithContext", "background"},
			{"WithElementTtl", "1800" + tSec}, {"WithCheckInterval", "1" + tSec}}},
		{"collections.WaitMapBuilder", "collections.NewWaitMap", "Build", "WaitMap", []option{{"WithRequestTimeout", "10" + tSec}, {"WithResponseTtl", "300" + tSec}, {"WithContext", "background"}}},
		{"crypto_fs.CryptoFSBuilder", "crypto_fs.NewCryptoFSBuilder", "", "", []option{{"WithSavePath", "zero"}, {"WithRootDir", "zero"}, {"WithAES", "nil"}}},
	}
}

// unset: the path established that the value is nil, false, zero or less.
func (t *Trace) unset(v *Term) bool {
	if v == nil {
		return false
	}
	if isZeroVal(v) || t.eq(v, tNil) || t.truth(v) == -1 {
		return true
	}
	if v.Op == "conv" {
		return t.unset(v.Args[0])
	}
	return t.eq(v, tInt(0)) || t.Facts.ProveLE(v, tInt(0), 0)
}

// setter decides one With* method and returns the builder fields it fills.
func (c *Chk) setter(b *optBuilder, o option) map[string]bool {
	p := c.P(b.Type + "." + o.Name)
	if p == nil {
		return nil
	}
	own := map[string]bool{}
	v, recv := param(p, 1), param(p, 0)
	ts := returns(p)
	val := func(t *Trace, x *Term) bool {
		x = sameBytes(x)
		return x == v || t.eq(x, v) || (x.Op == "copied" || x.Op == "append" || x.Op == "appends") && x.Any(func(s *Term) bool { return s == v })
	}
	for _, t := range ts {
		for _, e := range t.of("store") {
			if e.Loc.Op == "faddr" && RootOf(e.Loc) == recv && val(t, e.Val) {
				own[e.Loc.S] = true
			}
		}
	}
	c.check("keeps", len(own) > 0 && len(ts) > 0, firstTrace(ts), nil, "%s does not keep its argument in the builder", o.Name)
	for _, t := range ts {
		c.check("fluent", len(t.Ret) == 1 && t.eq(t.Ret[0], recv), t, nil, "%s does not return the builder it was called on", o.Name)
		last := map[string]*Event{}
		for _, e := range t.of("store") {
			if RootOf(e.Loc) == recv && e.Loc.Op == "faddr" {
				last[e.Loc.S] = e
			}
			if e.Loc == recv {
				c.check("only", false, t, e, "%s overwrites the whole builder", o.Name)
			}
		}
		for f := range own {
			e := last[f]
			ok := e != nil && (val(t, e.Val) || t.unset(v))
			c.check("keeps", ok || e == nil && t.unset(v), t, e, "%s can leave a value other than its argument in %s", o.Name, lastSeg(f))
		}
		for f, e := range last {
			if !own[f] {
				same := e.Val.Op == "load" && e.Val.Args[0] == e.Loc
				c.check("only", same, t, e, "%s also changes %s", o.Name, lastSeg(f))
			}
		}
		for _, e := range t.Events {
			switch e.Kind {
			case "go", "callback", "send", "recv", "select", "close", "panic":
				c.check("only", false, t, e, "%s does more than store its argument", o.Name)
			}
		}
	}
	return own
}

func firstTrace(ts []*Trace) *Trace {
	if len(ts) > 0 {
		return ts[0]
	}
	return nil
}

// isDefault: the value is the default of the option.
func isDefault(p *Proc, v *Term, def string) bool {
	switch def {
	case "":
		return true
	case "background":
		for v != nil && (v.Op == "conv" || v.Op == "iface") {
			v = v.Args[0]
		}
		return v != nil && (v.IsCall("context.Background") || v.IsCall("context.TODO"))
	case "nil", "zero", "false", "0":
		return v == nil || isZeroVal(v) || isNilVal(v) || v.Op == "const" && v.S == def || zeroStruct(v)
	case "func":
		return v != nil && (v.Op == "closure" || v.Op == "func")
	}
	k, ok := v.Int2()
	return ok && k == def
}

func zeroStruct(v *Term) bool {
	if v.Op != "mk" {
		return false
	}
	for _, a := range v.Args {
		if !isZeroVal(a) && !isNilVal(a) && !zeroStruct(a) {
			return false
		}
	}
	return true
}

// Int2: the decimal text of an integer constant.
func (t *Term) Int2() (string, bool) {
	if t == nil {
		return "", false
	}
	for t.Op == "conv" {
		t = t.Args[0]
	}
	if t.Op == "zero" {
		return "0", true
	}
	if t.Op != "const" {
		return "", false
	}
	return t.S, true
}

// deepField: the value a field of a new object (or of a struct inside it)
// holds at the end of the path.
func (t *Trace) deepField(obj *Term, field string) *Term {
	var v *Term
	for _, e := range t.of("store") {
		if e.Loc.Op == "faddr" && e.Loc.S == field && RootOf(e.Loc) == obj {
			v = e.Val
		}
	}
	return v
}

// optVal: the value is what the builder holds for the option.
func optVal(v *Term, recv *Term, own map[string]bool) bool {
	for v != nil && v.Op == "conv" {
		v = v.Args[0]
	}
	return v != nil && (v.Op == "load" || v.Op == "fld") && own[place(v)] && (recv == nil || RootOf(v.Args[0]) == recv || v.Op == "fld")
}

func ruleB01(c *Chk) {
	c.fixedProcessor("processor")
	reach := map[string]map[string]bool{} // builder.option -> builder and object fields
	for _, b := range optBuilders() {
		fields := map[string]string{}
		own := map[string]map[string]bool{}
		for _, o := range b.Opts {
			s := c.setter(b, o)
			own[o.Name] = s
			for f := range s {
				c.checkAt("distinct", fields[f] == "", b.Type+"."+o.Name, "%s and %s both write %s", fields[f], o.Name, lastSeg(f))
				fields[f] = o.Name
			}
		}
		// constructor
		subst := map[string]bool{} // options whose default Build fills in
		var build *Proc
		if b.Build != "" {
			build = c.P(b.Type + "." + b.Build)
			if build == nil {
				continue
			}
			c.carries(b, build, own, reach, subst)
			c.alone(b, build)
		}
		ctor := c.P(b.Ctor)
		for _, t := range returns(ctor) {
			for _, o := range b.Opts {
				for f := range own[o.Name] {
					v := t.deepField(t.Ret[0], f)
					ok := isDefault(ctor, v, o.Def) || subst[o.Name] && isDefault(ctor, v, "0")
					c.check("default", ok, t, nil, "without %s the builder does not start from the default (%s)", o.Name, o.Def)
				}
			}
		}
	}
	c.optionUses(reach)
	c.purposes()
	c.atLeast("keeps", 40)
	c.atLeast("fluent", 20)
	c.atLeast("default", 23)
	c.atLeast("carried", 15)
	c.atLeast("capacity", 3)
	c.atLeast("poll", 1)
	c.atLeast("alone", 30)
}

// checkAt records an obligation that belongs to a name rather than a path.
func (c *Chk) checkAt(rule string, ok bool, where, format string, args ...any) {
	if ok {
		c.Obl[rule]++
		return
	}
	c.bad(rule, where, format, args...)
}

// carries decides what Build puts into the fields of the new object.
func (c *Chk) carries(b *optBuilder, build *Proc, own map[string]map[string]bool, reach map[string]map[string]bool, subst map[string]bool) {
	recv := param(build, 0)
	of := map[string]string{} // object field -> option
	for _, o := range b.Opts {
		r := map[string]bool{}
		for f := range own[o.Name] {
			r[f] = true
		}
		reach[b.Type+"."+o.Name] = r
	}
	for _, t := range returns(build) {
		for _, e := range t.of("store") {
			if e.Loc.Op != "faddr" || RootOf(e.Loc) == recv {
				continue
			}
			for _, o := range b.Opts {
				if optVal(e.Val, recv, own[o.Name]) && RootOf(e.Loc) == t.Ret[0] {
					c.check("one-option", of[e.Loc.S] == "" || of[e.Loc.S] == o.Name, t, e, "%s is filled from both %s and %s", lastSeg(e.Loc.S), of[e.Loc.S], o.Name)
					of[e.Loc.S] = o.Name
					reach[b.Type+"."+o.Name][e.Loc.S] = true
				}
			}
		}
	}
	for _, t := range returns(build) {
		if len(t.Ret) == 0 || isNilVal(t.Ret[0]) {
			continue
		}
		obj := t.Ret[0]
		c.check("fresh", obj.Op == "new", t, nil, "Build does not return an object of its own")
		for f, name := range of {
			var o option
			for _, x := range b.Opts {
				if x.Name == name {
					o = x
				}
			}
			v := t.deepField(obj, f)
			ok := optVal(v, recv, own[name])
			if !ok {
				// the option was found unset on this path
				for bf := range own[name] {
					for _, l := range t.fieldVals(map[string]bool{bf: true}) {
						if l.Op == "load" && RootOf(l.Args[0]) == recv && t.unset(l) {
							ok = ok || v == nil || isZeroVal(v) || isDefault(build, v, o.Def) || !isIntType(v.T)
							if v != nil && !isZeroVal(v) && isDefault(build, v, o.Def) {
								subst[name] = true
							}
						}
					}
				}
			}
			c.check("carried", ok, t, nil, "the value of %s does not reach %s of the built object on every path", name, lastSeg(f))
		}
	}
	// every simple setting is either kept in the object or consumed by a use
	// that is decided below
	for _, o := range b.Opts {
		n := 0
		for _, f := range of {
			if f == o.Name {
				n++
			}
		}
		c.checkAt("reaches", n > 0 || consumed[b.Type+"."+o.Name], b.Type+"."+o.Name, "nothing of the built object takes the value of %s", o.Name)
	}
}

// consumed: options Build uses up itself (their uses are decided by
// optionUses and purposes).
var consumed = map[string]bool{
	"chans.ChunkChanBuilder.WithChunkFunc": true, "chans.ChunkChanBuilder.WithIncomingBufferSize": true, "chans.ChunkChanBuilder.WithOutgoingBufferSize": true,
	"chans.ShardChanBuilder.WithIncomingBufferSize": true, "chans.ShardChanBuilder.WithOutgoingBufferSize": true, "chans.ShardChanBuilder.WithWorkerFunc": true,
	"chans.ShardChunkBuilder.WithShardWorker": true, "chans.ShardChunkBuilder.WithContext": true, "chans.ShardChunkBuilder.WithChunkSize": true,
	"chans.ShardChunkBuilder.WithChunkTimeout": true, "chans.ShardChunkBuilder.WithShardCount": true, "chans.ShardChunkBuilder.WithShardFunc": true,
	"chans.ShardChunkBuilder.WithIncomingBufferSize": true, "chans.ShardChunkBuilder.WithOutgoingBufferSize": true, "chans.ShardChunkBuilder.WithIncomingChan": true,
	"workers.RunnerBuilder.WithWorkerCount": true, "collections.GuavaMapBuilder.WithLockLoad": true, "collections.ShardMapBuilder.WithShardsCount": true,
	"collections.StructUniqSetBuilder.WithCheckInterval": true,
}

// alone: the object and the builder part ways when Build returns.
func (c *Chk) alone(b *optBuilder, build *Proc) {
	recv := param(build, 0)
	for _, t := range build.Traces {
		for _, e := range t.Events {
			switch e.Kind {
			case "store":
				c.check("alone", RootOf(e.Loc) != recv, t, e, "Build changes the builder")
				if e.Val == recv && RootOf(e.Loc) == firstRet(t) {
					c.check("alone", false, t, e, "the built object keeps its builder")
				}
			case "mapset", "mapdel", "mapclear":
				m := e.Map
				for m != nil && (m.Op == "load" || m.Op == "faddr") {
					m = m.Args[0]
				}
				c.check("alone", m != recv, t, e, "Build changes a table of the builder")
			}
		}
	}
	for _, q := range c.children(build) {
		for _, t := range q.Traces {
			for _, e := range t.Events {
				if e.Loc != nil && (e.Kind == "load" || e.Kind == "store") {
					c.check("alone", RootOf(e.Loc) != recv, t, e, "what the built object runs still uses the builder")
				}
			}
		}
	}
}

func firstRet(t *Trace) *Term {
	if len(t.Ret) > 0 {
		return t.Ret[0]
	}
	return nil
}

// optionUses decides the purposes no other rule looks at: buffer capacities,
// given channels, the poll interval, contexts and loggers.
func (c *Chk) optionUses(reach map[string]map[string]bool) {
	// capacity of the channels kept in a field
	caps := func(build string, field string, size, given map[string]bool, what string) {
		p := c.P(build)
		if p == nil || field == "" {
			return
		}
		recv := param(p, 0)
		one := func(t *Trace, e *Event, v *Term) {
			if v.Op == "mkchan" {
				n := v.Args[0]
				ok := optVal(n, recv, size) || isZero(n) && func() bool {
					for _, l := range t.fieldVals(size) {
						if t.unset(l) {
							return true
						}
					}
					return false
				}()
				c.check("capacity", ok, t, e, "the %s channel does not have the configured buffer size", what)
				if given != nil {
					nilGiven := false
					for _, l := range t.fieldVals(given) {
						nilGiven = nilGiven || RootOf(l.Args[0]) == recv && t.eq(l, tNil)
					}
					c.check("given", nilGiven, t, e, "a channel is made although one was given")
				}
				return
			}
			if given != nil {
				c.check("given", optVal(v, recv, given), t, e, "the %s channel is neither the given nor a new one", what)
			}
		}
		for _, t := range p.Traces {
			for _, e := range t.Events {
				switch e.Kind {
				case "store":
					if e.Loc.Op == "faddr" && e.Loc.S == field && !strings.Contains(ownerName(field), "Builder") {
						one(t, e, e.Val)
					}
					if e.Loc.Op == "iaddr" && place(e.Loc) == field {
						one(t, e, e.Val)
					}
				case "mapset":
					if place(e.Map) == field {
						one(t, e, e.Val)
					}
				case "append":
					if place2(t, e.Val) == field {
						for _, a := range e.Args {
							if a.Op == "arr" {
								for _, x := range a.Args {
									one(t, e, x)
								}
							}
						}
					}
				}
			}
		}
	}
	set := func(b string) func(o string) map[string]bool {
		return func(o string) map[string]bool { return reach[b+"."+o] }
	}
	cc, sc, sk := set("chans.ChunkChanBuilder"), set("chans.ShardChanBuilder"), set("chans.ShardChunkBuilder")
	in, out := c.getter("chans.ChunkChan.Incoming"), c.getter("chans.ChunkChan.C")
	caps("chans.ChunkChanBuilder.Build", in, cc("WithIncomingBufferSize"), cc("WithIncomingChan"), "incoming")
	caps("chans.ChunkChanBuilder.Build", out, cc("WithOutgoingBufferSize"), nil, "outgoing")
	_, sin, scoll, _ := newChk(c.w, c.x, c.ID, c.Tier).shardPipe()
	caps("chans.ShardChanBuilder.Build", sin, sc("WithIncomingBufferSize"), sc("WithIncomingChan"), "incoming")
	caps("chans.ShardChanBuilder.Build", scoll, sc("WithOutgoingBufferSize"), nil, "outgoing")
	caps("chans.ShardChunkBuilder.Build", sin, sk("WithIncomingBufferSize"), sk("WithIncomingChan"), "incoming")
	caps("chans.ShardChunkBuilder.Build", out, sk("WithOutgoingBufferSize"), nil, "outgoing")

	// the cleanup of StructUniqSet wakes up at the check interval
	iv := reach["collections.StructUniqSetBuilder.WithCheckInterval"]
	for _, q := range c.family("collections", "StructUniqSet", "StructUniqSetBuilder") {
		for _, t := range q.Traces {
			for _, e := range t.of("call") {
				if d := waitArg(e); d != nil {
					c.check("poll", optVal(d, nil, iv), t, e, "the wait between two cleanups is not the configured check interval")
				}
			}
		}
	}
	// contexts are derived from the configured one
	for _, x := range []struct{ b, typ string }{{"collections.GuavaMapBuilder", "GuavaMap"}, {"collections.HolderMapBuilder", "HolderMap"}, {"collections.WaitMapBuilder", "WaitMap"}, {"collections.StructUniqSetBuilder", "StructUniqSet"}} {
		ctx := reach[x.b+".WithContext"]
		for _, q := range c.family("collections", x.typ, lastSeg(x.b)) {
			for _, t := range q.Traces {
				for _, e := range t.of("call") {
					if hasAny(e.Name, "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause", "context.WithValue") && len(e.Args) > 0 {
						c.check("context", ctxFrom(e.Args[0], ctx) || ctxDerived(e.Args[0], ctx), t, e, "a context is not derived from the configured one")
					}
				}
			}
		}
	}
	// log lines go to the configured logger
	lg := reach["collections.ResponseMapBuilder.WithLogger"]
	for _, q := range c.family("collections", "ResponseMap", "ResponseMapBuilder") {
		for _, t := range q.Traces {
			for _, e := range t.of("call") {
				if strings.HasPrefix(e.Name, "(*github.com/rs/zerolog.Logger).") && len(e.Args) > 0 {
					c.check("logger", lg[place(e.Args[0])], t, e, "a message does not go to the configured logger")
				}
			}
		}
	}
	// load locking is off unless asked for
	if lo := reach["collections.GuavaMapBuilder.WithLockLoad"]; lo != nil {
		lockF := c.mutexFields("collections.GuavaMapBuilder")
		for _, t := range returns(c.P("collections.GuavaMapBuilder.Build")) {
			on := t.isSet2(lo)
			for f := range lockF {
				v := t.deepField(t.Ret[0], f)
				made := v != nil && !isNilVal(v)
				if len(lo) > 1 { // the object keeps the flag and decides later
					continue
				}
				c.check("load-lock", made && on == 1 || !made && on == -1, t, nil, "a load lock exists exactly when WithLockLoad(true) was called: this path does not follow the option")
			}
		}
	}
}

func ownerName(field string) string {
	if i := strings.LastIndex(field, "."); i >= 0 {
		return field[:i]
	}
	return field
}

func ctxDerived(t *Term, ctx map[string]bool) bool {
	ok := false
	t.Any(func(s *Term) bool {
		ok = ok || ctx[place(s)]
		return ok
	})
	return ok
}

// waitArg: the duration of a timed wait.
func waitArg(e *Event) *Term {
	switch e.Name {
	case "time.After", "time.NewTimer", "time.NewTicker", "time.Tick", "time.Sleep", "time.AfterFunc":
		return e.Args[0]
	case "(*time.Timer).Reset", "(*time.Ticker).Reset":
		if len(e.Args) > 1 {
			return e.Args[1]
		}
	}
	return nil
}

// purposes re-evaluates the checks of other properties that decide whether an
// option's value is what its purpose uses.
func (c *Chk) purposes() {
	for _, d := range []struct {
		id    string
		names string
	}{
		{"C01", "one-consumer chunk-once"},
		{"C02", "full clock bounded"},
		{"C03", "shards workers"},
		{"C04", "passed workers chunkers"},
		{"C05", "watch"},
		{"W01", "pool context"},
		{"G01", "bounded.limit"},
		{"G02", "unload.once"},
		{"G03", "load.lock-made"},
		{"G04", "timer.created timer.none reset.write reset.read"},
		{"H01", "bounded.limit"},
		{"M02", "own-shard size-all clear-all"},
		{"D01", "serve.timeout serve.bounded verdict.timeout"},
		{"D02", "removal.waits"},
		{"P01", "serve.timeout serve.bounded"},
		{"P03", "cleanup.old-enough cleanup.ends entry.cancellable"},
		{"V01", "bounded"},
		{"V02", "armed expiry-waits"},
		{"U01", "hash"},
		{"U02", "cleanup.old-enough cleanup.lives"},
	} {
		s := newChk(c.w, c.x, d.id, c.Tier)
		registry[d.id].run(s)
		for p := range s.Procs {
			c.Procs[p] = true
		}
		for _, n := range strings.Fields(d.names) {
			r := "effect." + d.id + "." + n
			c.Obl[r] += s.Obl[n]
			c.Fail[r] += s.Fail[n]
			for _, f := range s.Findings {
				if f.Rule == n {
					c.Findings = append(c.Findings, &Finding{Rule: r, Where: f.Where, Msg: f.Msg, Pos: f.Pos, Trace: f.Trace, Ev: f.Ev})
				}
			}
		}
	}
}

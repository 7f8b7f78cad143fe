package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callee resolves the function value and the arguments (receiver first).
func (x *Exec) callee(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, x.val(s, c.Value))
		for _, a := range c.Args {
			args = append(args, x.val(s, a))
		}
		return mkObj("method", methodName(c.Method), nil, c.Method), args
	}
	for _, a := range c.Args {
		args = append(args, x.val(s, a))
	}
	return x.val(s, c.Value), args
}

func methodName(m *types.Func) string {
	sig := m.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		return "(" + short(typeKeyPath(r.Type())) + ")." + m.Name()
	}
	return m.Name()
}

func typeKeyPath(t types.Type) string {
	if n := namedOf(t); n != nil {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return types.TypeString(t, nil)
}

// fnName is the canonical name of a function: "time.Now",
// "(*sync.RWMutex).Lock", "collections.(*SimpleMap).Get".
func fnName(f *ssa.Function) string {
	f = origin(f)
	if o, ok := f.Object().(*types.Func); ok && o != nil {
		sig := o.Type().(*types.Signature)
		if r := sig.Recv(); r != nil {
			star := ""
			if _, p := r.Type().(*types.Pointer); p {
				star = "*"
			}
			return "(" + star + short(typeKeyPath(r.Type())) + ")." + o.Name()
		}
		if o.Pkg() != nil {
			return short(o.Pkg().Path()) + "." + o.Name()
		}
		return o.Name()
	}
	return short(f.String())
}

func calleeName(c *ssa.CallCommon, fn *Term) string {
	if c != nil && c.IsInvoke() {
		return methodName(c.Method)
	}
	switch fn.Op {
	case "func", "closure":
		return fnName(fn.Obj.(*ssa.Function))
	case "builtin":
		return "builtin." + fn.S
	}
	return "?"
}

var inlineStd = map[string]bool{"slices": true, "maps": true, "cmp": true}

func (x *Exec) inlinable(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	if x.opaqueFn != nil && x.opaqueFn(f) {
		return false
	}
	root := f
	for root.Parent() != nil {
		root = root.Parent()
	}
	if root.Pkg == nil {
		if f.Synthetic != "" {
			return true // wrappers, bound methods, instances
		}
		if o := root.Object(); o != nil {
			return inModule(o.Pkg()) || (o.Pkg() != nil && inlineStd[o.Pkg().Path()])
		}
		return false
	}
	return inModule(root.Pkg.Pkg) || inlineStd[root.Pkg.Pkg.Path()]
}

func (x *Exec) setResult(s *State, dst ssa.Value, t *Term) {
	if dst != nil {
		x.set(s, dst, t)
	}
}

// call performs a call. The instruction index has already been advanced for
// ordinary calls; deferred calls are re-dispatched by RunDefers.
func (x *Exec) call(s *State, c *ssa.CallCommon, fnT *Term, args []*Term, dst ssa.Value, ins ssa.Instruction, isDefer bool) bool {
	fr := s.top()
	if fnT.Op == "builtin" {
		r, cont := x.builtin(s, fnT.S, c, args, ins)
		if !cont {
			return false
		}
		x.setResult(s, dst, r)
		return true
	}
	// interface method with a known dynamic value
	if c.IsInvoke() {
		recv := args[0]
		if f := x.devirtualize(recv, c.Method); f != nil {
			fnT = mkObj("func", f.String(), f.Type(), f)
		}
	}
	if fn, binds := resolveFn(fnT); fn != nil {
		name := fnName(fn)
		if r, ok := x.model(s, name, c, args, ins, dst, isDefer); ok {
			if r == nil {
				return false
			}
			if r != stay {
				x.setResult(s, dst, r)
			}
			return true
		}
		if x.inlinable(fn) && len(s.frames) < 14 {
			rec := 0
			for _, f := range s.frames {
				if f.fn == fn {
					rec++
				}
			}
			if rec < 1 {
				if x.disc == nil {
					x.cur.Inl[fn] = true
				}
				x.emit(s, &Event{Kind: "enter", Pos: ins.Pos(), Name: name, Args: args, FnT: fnT, Defer: isDefer})
				nf := &Frame{fn: fn, ctx: fr.ctx + "." + x.id(ins), env: map[ssa.Value]*Term{}, bind: binds, visits: map[*ssa.BasicBlock]int{},
					blk: fn.Blocks[0], ret: ins, discard: isDefer || dst == nil, inCall: name}
				if !isDefer && dst == nil {
					nf.discard = true
				}
				for i, p := range fn.Params {
					if i < len(args) {
						nf.env[p] = args[i]
					}
				}
				s.frames = append(s.frames, nf)
				return true
			}
		}
		return x.opaque(s, name, c, args, ins, dst, fn)
	}
	if c.IsInvoke() {
		name := methodName(c.Method)
		if r, ok := x.model(s, name, c, args, ins, dst, isDefer); ok {
			if r == nil {
				return false
			}
			if r != stay {
				x.setResult(s, dst, r)
			}
			return true
		}
		return x.opaque(s, name, c, args, ins, dst, nil)
	}
	// call of an unknown function value: user code
	return x.callback(s, c, fnT, args, ins, dst)
}

var stay = mk("stay", "", nil)

func (x *Exec) devirtualize(recv *Term, m *types.Func) *ssa.Function {
	var t types.Type
	switch recv.Op {
	case "new":
		t = types.NewPointer(recv.T)
	case "mk":
		t = recv.T
	case "faddr":
		// embedded lock used through sync.Locker
		t = types.NewPointer(recv.T)
	default:
		return nil
	}
	if t == nil {
		return nil
	}
	ms := x.w.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	if f, ok := sel.Obj().(*types.Func); ok {
		if fn := x.w.Prog.FuncValue(f); fn != nil {
			return fn
		}
	}
	return nil
}

func (x *Exec) callRes(s *State, name string, c *ssa.CallCommon, args []*Term, ins ssa.Instruction, pure bool) *Term {
	key := name
	if !pure {
		key += "@" + s.top().ctx + ":" + x.id(ins)
	}
	sig := c.Signature()
	var rt types.Type
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	t := mk("call", key, rt, args...)
	if sig.Results().Len() > 1 {
		var rs []*Term
		for i := 0; i < sig.Results().Len(); i++ {
			rs = append(rs, mk("extract", strconv.Itoa(i), sig.Results().At(i).Type(), t))
		}
		return tuple(rs)
	}
	return t
}

// callback: user-supplied code runs. It may panic and may call back into the
// library; it may not touch objects it has no reference to.
func (x *Exec) callback(s *State, c *ssa.CallCommon, fnT *Term, args []*Term, ins ssa.Instruction, dst ssa.Value) bool {
	for _, a := range args {
		s.publish(a)
	}
	if isCancel(fnT) {
		x.emit(s, &Event{Kind: "call", Pos: ins.Pos(), Name: "context.CancelFunc", FnT: fnT})
		x.setResult(s, dst, tNil)
		return true
	}
	r := x.callRes(s, "callback", c, append([]*Term{fnT}, args...), ins, false)
	ev := &Event{Kind: "callback", Pos: ins.Pos(), FnT: fnT, Args: args, Res: r}
	x.emit(s, ev)
	x.interfereRefs(s, args)
	x.interfere(s)
	p := s.clone()
	p.top().unwinding = true
	x.emit(p, &Event{Kind: "cbpanic", Pos: ins.Pos(), FnT: fnT})
	x.work = append(x.work, p)
	x.setResult(s, dst, r)
	return true
}

// isCancel: the function cancels a context; it neither blocks nor panics.
func isCancel(f *Term) bool {
	if f.T != nil {
		if n := namedOf(f.T); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && strings.HasPrefix(n.Obj().Name(), "Cancel") {
			return true
		}
	}
	return f.Op == "extract" && f.Args[0].Op == "call" && strings.HasPrefix(callName(f.Args[0].S), "context.With")
}

// interfereRefs: memory reachable from the arguments may have been written.
func (x *Exec) interfereRefs(s *State, args []*Term) {
	var all []*Term
	for _, a := range args {
		all = append(all, a)
		// the memory behind a slice
		for a != nil {
			if o, ok := a.Obj.(*Term); ok && a.Op == "arr" {
				a = o
			} else if a.Op == "slice" {
				a = a.Args[0]
			} else {
				break
			}
			all = append(all, a)
		}
	}
	for _, a := range all {
		root := RootOf(a)
		for l := range s.mem {
			if RootOf(l) == root && a != nil && refLike(a) && (l == a || under(l, a)) {
				if x.stable(s, l) && s.pub[root] && l.Op == "faddr" {
					continue
				}
				s.drop(l)
				s.touched[root] = true
			}
		}
		if refLike(a) {
			s.touched[root] = true
		}
		if st := s.maps[a]; st != nil {
			s.dropMap(a)
		}
	}
}

func under(l, a *Term) bool {
	for {
		if l == a {
			return true
		}
		if l.Op == "faddr" || l.Op == "iaddr" {
			l = l.Args[0]
			continue
		}
		return false
	}
}

func refLike(a *Term) bool {
	switch a.Op {
	case "new", "faddr", "iaddr", "mkslice", "arr", "slice":
		return true
	}
	return false
}

var pureFuncs = map[string]bool{
	"(context.Context).Done": true, "(time.Duration).Seconds": true, "(time.Duration).Milliseconds": true,
	"(time.Duration).Microseconds": true, "(time.Duration).Nanoseconds": true, "(time.Duration).Minutes": true, "(time.Duration).Hours": true,
	"(time.Time).IsZero": true, "(time.Time).UnixNano": true, "(time.Time).UnixMilli": true, "(time.Time).Unix": true,
	"crypto/md5.Sum": true, "encoding/hex.EncodeToString": true, "path.Join": true, "path/filepath.Join": true, "fmt.Sprintf": true,
	"(io/fs.FileMode).Type": true, "(io/fs.FileMode).IsDir": true, "crypto/md5.New": false, "strings.ToLower": true,
	"(crypto/cipher.AEAD).NonceSize": true, "(crypto/cipher.AEAD).Overhead": true,
	"context.Background": true, "(*crypto.AES).none": true, "bytes.Equal": true, "path/filepath.Clean": true, "path.Clean": true, "path.Base": true, "path/filepath.Base": true,
	"(io/fs.FileInfo).IsDir": true, "(io/fs.FileInfo).Name": true, "(io/fs.FileInfo).Size": true, "(io/fs.FileInfo).Mode": true,
	"(io/fs.DirEntry).Name": true, "(io/fs.DirEntry).IsDir": true, "(*os.File).Name": true, "(reflect.Type).Kind": true,
}

// opaque: code outside the module whose body is not analysed.
func (x *Exec) opaque(s *State, name string, c *ssa.CallCommon, args []*Term, ins ssa.Instruction, dst ssa.Value, fn *ssa.Function) bool {
	pure := pureFuncs[name] || (strings.HasPrefix(name, "(comparer.") || strings.HasSuffix(name, "Ider).GetId"))
	r := x.callRes(s, name, c, args, ins, pure)
	ev := &Event{Kind: "call", Pos: ins.Pos(), Name: name, Args: args, Res: r}
	x.emit(s, ev)
	if !pure {
		for _, a := range args {
			if a.Op == "closure" || a.Op == "func" {
				if f, _ := resolveFn(a); f != nil && x.inlinable(f) && x.disc == nil {
					ev.Proc = x.spawn(s, a, nil, "callback", ev)
				}
				for _, b := range a.Args {
					x.interfereRefs(s, []*Term{b})
				}
			}
		}
		x.interfereRefs(s, args)
		if strings.HasPrefix(name, "os.Exit") || name == "log.Fatal" || name == "runtime.Goexit" {
			x.finish(s, "halt", nil, ins.Pos(), nil, nil)
			return false
		}
	}
	if name == "(context.Context).Err" && len(args) == 1 && s.sawDone(args[0]) {
		s.facts = s.facts.Add(tEq(r, tNil), false)
	}
	x.setResult(s, dst, r)
	return true
}

// sawDone: this path has received from the context's Done channel, so the
// context is over.
func (s *State) sawDone(ctx *Term) bool {
	for _, e := range s.ev {
		if e.Kind != "recv" && (e.Kind != "select" || e.Idx < 0 || e.Idx >= len(e.Cases) || e.Cases[e.Idx].Send) {
			continue
		}
		ch := e.Ch
		if e.Kind == "select" {
			ch = e.Cases[e.Idx].Ch
		}
		if ch != nil && ch.IsCall("(context.Context).Done") && len(ch.Args) == 1 && ch.Args[0] == ctx {
			return true
		}
	}
	return false
}

func lockName(name string) (op string, ok bool) {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return "Lock", true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		return "Unlock", true
	case "(*sync.RWMutex).RLock":
		return "RLock", true
	case "(*sync.RWMutex).RUnlock":
		return "RUnlock", true
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		return "TryLock", true
	case "(*sync.RWMutex).TryRLock":
		return "TryRLock", true
	}
	return "", false
}

// acquire and release of a lock.
func (x *Exec) lockOp(s *State, op string, loc *Term, ins ssa.Instruction) {
	switch op {
	case "Lock", "RLock":
		x.interfere(s)
		x.emit(s, &Event{Kind: "lock", Pos: ins.Pos(), Loc: loc, Write: op == "Lock", Name: op})
		s.locks = append(s.locks, Held{Loc: loc, Write: op == "Lock", Pos: ins.Pos(), Depth: len(s.frames), Seq: len(s.ev) - 1})
	case "Unlock", "RUnlock":
		idx := -1
		for i := len(s.locks) - 1; i >= 0; i-- {
			if s.locks[i].Loc == loc && s.locks[i].Write == (op == "Unlock") {
				idx = i
				break
			}
		}
		e := &Event{Kind: "unlock", Pos: ins.Pos(), Loc: loc, Write: op == "Unlock", Name: op}
		if idx < 0 {
			// the same lock in the other mode, or an equal location
			for i := len(s.locks) - 1; i >= 0; i-- {
				if s.facts.Eval(tEq(s.locks[i].Loc, loc)) == 1 && s.locks[i].Write == (op == "Unlock") {
					idx = i
					loc = s.locks[i].Loc
					break
				}
			}
		}
		if idx < 0 {
			e.Kind = "badunlock"
			for _, h := range s.locks {
				if h.Loc == loc {
					e.Name = "mode"
				}
			}
			x.emit(s, e)
			return
		}
		x.emit(s, e)
		s.locks = append(s.locks[:idx:idx], s.locks[idx+1:]...)
		still := false
		for _, h := range s.locks {
			if h.Loc == loc {
				still = true
			}
		}
		if !still {
			x.invalidateDeps(s, loc)
		}
	}
}

// model gives library functions their meaning. A nil result with ok means the
// path ended.
func (x *Exec) model(s *State, name string, c *ssa.CallCommon, args []*Term, ins ssa.Instruction, dst ssa.Value, isDefer bool) (*Term, bool) {
	if op, ok := lockName(name); ok {
		switch op {
		case "TryLock", "TryRLock":
			r := mk("call", name+"@"+s.top().ctx+":"+x.id(ins), types.Typ[types.Bool], args[0])
			n := s.clone()
			n.facts = n.facts.Add(r, false)
			x.setResult(n, dst, tBool(false))
			x.work = append(x.work, n)
			s.facts = s.facts.Add(r, true)
			x.interfere(s)
			x.emit(s, &Event{Kind: "lock", Pos: ins.Pos(), Loc: args[0], Write: op == "TryLock", Name: op})
			s.locks = append(s.locks, Held{Loc: args[0], Write: op == "TryLock", Pos: ins.Pos(), Depth: len(s.frames), Seq: len(s.ev) - 1})
			return tBool(true), true
		}
		x.lockOp(s, op, args[0], ins)
		return tNil, true
	}
	if op, key := keyedLock(name); op != "" && len(args) == 2 && x.keyedOutside(s, key) {
		x.lockOp(s, op, mk("keyed", key, nil, args[0], args[1]), ins)
		return tNil, true
	}
	if c.IsInvoke() && name == "(sync.Locker).Lock" || name == "(sync.Locker).Unlock" {
		loc := args[0]
		op := strings.TrimPrefix(name, "(sync.Locker).")
		if loc.IsCall("(*sync.RWMutex).RLocker") {
			x.lockOp(s, "R"+op, loc.Args[0], ins)
			return tNil, true
		}
		x.lockOp(s, op, loc, ins)
		return tNil, true
	}
	ev := func(kind string, r *Term) {
		x.emit(s, &Event{Kind: kind, Pos: ins.Pos(), Name: name, Args: args, Res: r})
	}
	switch name {
	case "(*sync.RWMutex).RLocker":
		return mk("call", name, nil, args[0]), true
	case "time.Now":
		r := mk("call", "time.Now@"+s.top().ctx+":"+x.id(ins), c.Signature().Results().At(0).Type())
		ev("call", r)
		return r, true
	case "time.Since":
		now := mk("call", "time.Now@"+s.top().ctx+":"+x.id(ins), args[0].T)
		r := mk("timesub", "", c.Signature().Results().At(0).Type(), now, args[0])
		ev("call", r)
		return r, true
	case "time.Until":
		now := mk("call", "time.Now@"+s.top().ctx+":"+x.id(ins), args[0].T)
		r := mk("timesub", "", c.Signature().Results().At(0).Type(), args[0], now)
		ev("call", r)
		return r, true
	case "(time.Time).Sub":
		return mk("timesub", "", c.Signature().Results().At(0).Type(), args[0], args[1]), true
	case "(time.Time).Add":
		return mk("timeadd", "", c.Signature().Results().At(0).Type(), args[0], args[1]), true
	case "(time.Time).After":
		return tLt(args[1], args[0]), true
	case "(time.Time).Before":
		return tLt(args[0], args[1]), true
	case "(time.Time).Equal":
		return tEq(args[0], args[1]), true
	case "time.Sleep":
		x.interfere(s)
		ev("call", nil)
		return tNil, true
	case "(*sync.Once).Do":
		x.emit(s, &Event{Kind: "once", Pos: ins.Pos(), Loc: args[0], Name: s.top().ctx + ".o" + x.id(ins)})
		n := s.clone()
		x.setResult(n, dst, tNil)
		x.work = append(x.work, n)
		return stay, x.enterFn(s, args[1], nil, ins)
	case "(*sync.WaitGroup).Go":
		e := x.emit(s, &Event{Kind: "go", Pos: ins.Pos(), FnT: args[1], Name: "wg.Go"})
		s.publish(args[1])
		if x.disc == nil {
			e.Proc = x.spawn(s, args[1], nil, "go", e)
		}
		return tNil, true
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait":
		x.interfere(s)
		ev("call", nil)
		x.emit(s, &Event{Kind: "wait", Pos: ins.Pos(), Args: args, Name: name})
		return tNil, true
	case "time.AfterFunc":
		r := x.callRes(s, name, c, args, ins, false)
		e := x.emit(s, &Event{Kind: "call", Pos: ins.Pos(), Name: name, Args: args, Res: r})
		s.publish(args[1])
		if x.disc == nil {
			e.Proc = x.spawn(s, args[1], nil, "go", e)
		}
		return r, true
	case "context.AfterFunc":
		r := x.callRes(s, name, c, args, ins, false)
		e := x.emit(s, &Event{Kind: "call", Pos: ins.Pos(), Name: name, Args: args, Res: r})
		s.publish(args[1])
		if x.disc == nil {
			e.Proc = x.spawn(s, args[1], nil, "go", e)
		}
		return r, true
	case "maps.Clone":
		if args[0].T != nil {
			r := mk("mapclone", "@"+s.top().ctx+":"+x.id(ins), args[0].T, args[0])
			ev("call", r)
			x.emit(s, &Event{Kind: "maprange", Pos: ins.Pos(), Map: args[0], Res: r, Name: "clone"})
			return r, true
		}
	case "sort.Slice", "sort.SliceStable", "slices.Sort":
		ev("call", tNil)
		return tNil, true
	case "slices.Clone":
		r := mk("appends", "", args[0].T, tNil, args[0])
		ev("call", r)
		return r, true
	case "bytes.Clone":
		r := mk("appends", "", args[0].T, tNil, args[0])
		ev("call", r)
		return r, true
	case "slices.Delete":
		if len(args) == 3 {
			lo, hi := args[1], args[2]
			d := linDiff(hi, lo)
			if d.isConst() && d.C == 1 {
				r := mk("removeat", "", args[0].T, args[0], lo)
				ev("call", r)
				return r, true
			}
		}
	case "slices.DeleteFunc":
		if k := x.equalTo(s, args[1]); k != nil {
			r := mk("without", "", args[0].T, args[0], k)
			ev("call", r)
			return r, true
		}
	case "slices.IndexFunc", "slices.ContainsFunc":
		if k := x.equalTo(s, args[1]); k != nil {
			return x.model(s, strings.TrimSuffix(name, "Func"), c, []*Term{args[0], k}, ins, dst, isDefer)
		}
	case "slices.Index", "slices.Contains":
		sl, ok := args[0].T, false
		if sl != nil {
			_, ok = sl.Underlying().(*types.Slice)
		}
		if !ok {
			return nil, false
		}
		r := mk("call", name+"'"+strconv.Itoa(s.cnt[args[0]]), types.Typ[types.Int], args...)
		ev("call", r)
		n := s.clone()
		x.emit(n, &Event{Kind: "searched", Pos: ins.Pos(), Val: args[0], Key: args[1]})
		if name == "slices.Index" {
			x.setResult(n, dst, tInt(-1))
		} else {
			x.setResult(n, dst, tBool(false))
		}
		n.facts = n.facts.Add(tLt(r, tInt(0)), true)
		x.work = append(x.work, n)
		et := sl.Underlying().(*types.Slice).Elem()
		el := x.load(s, mk("iaddr", "", et, args[0], r), et)
		s.facts = s.facts.Add(tLt(r, tInt(0)), false)
		s.facts = s.facts.Add(tLt(r, tLen(args[0])), true)
		s.facts = s.facts.Add(tEq(el, args[1]), true)
		if name == "slices.Index" {
			return r, true
		}
		return tBool(true), true
	}
	return nil, false
}

// equalTo: the value a predicate compares its argument with, when that is all
// it does.
func (x *Exec) equalTo(s *State, fnT *Term) *Term {
	fn, binds := resolveFn(fnT)
	if fn == nil || len(fn.Blocks) != 1 || len(fn.Params) != 1 {
		return nil
	}
	var eq *ssa.BinOp
	loads := map[ssa.Value]bool{}
	for _, in := range fn.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return nil
			}
			loads[in] = true
		case *ssa.BinOp:
			if in.Op != token.EQL || eq != nil {
				return nil
			}
			eq = in
		case *ssa.Return:
			if eq == nil || len(in.Results) != 1 || in.Results[0] != eq {
				return nil
			}
		default:
			return nil
		}
	}
	if eq == nil {
		return nil
	}
	o := eq.X
	if o == fn.Params[0] {
		o = eq.Y
	} else if eq.Y != fn.Params[0] {
		return nil
	}
	free := func(v ssa.Value) *Term {
		for i, f := range fn.FreeVars {
			if f == v && i < len(binds) {
				return binds[i]
			}
		}
		return nil
	}
	switch o := o.(type) {
	case *ssa.UnOp:
		if b := free(o.X); b != nil {
			return x.load(s, b, o.Type())
		}
	case *ssa.FreeVar:
		return free(o)
	}
	return nil
}

func (x *Exec) enterFn(s *State, fnT *Term, args []*Term, ins ssa.Instruction) bool {
	fn, binds := resolveFn(fnT)
	if fn == nil || !x.inlinable(fn) {
		return true
	}
	nf := &Frame{fn: fn, ctx: s.top().ctx + ".o" + x.id(ins), env: map[ssa.Value]*Term{}, bind: binds, visits: map[*ssa.BasicBlock]int{},
		blk: fn.Blocks[0], ret: nil, discard: true}
	s.frames = append(s.frames, nf)
	return true
}

func (x *Exec) builtin(s *State, name string, c *ssa.CallCommon, args []*Term, ins ssa.Instruction) (*Term, bool) {
	pos := ins.Pos()
	rt := types.Type(nil)
	if c.Signature() != nil && c.Signature().Results().Len() == 1 {
		rt = c.Signature().Results().At(0).Type()
	}
	switch name {
	case "len":
		a := args[0]
		var at types.Type
		if len(c.Args) > 0 {
			at = c.Args[0].Type()
		}
		if at != nil {
			if asMap(at) != nil || asMap(a.T) != nil {
				st := x.mapState(s, a)
				x.emit(s, &Event{Kind: "maplen", Pos: pos, Map: a, Res: st.Len, Fresh: s.private(a)})
				return st.Len, true
			}
			if ar, ok := deref(at).Underlying().(*types.Array); ok {
				return tInt(ar.Len()), true
			}
			if _, ok := at.Underlying().(*types.Chan); ok {
				return mk("chanlen", "@"+s.top().ctx+":"+x.id(ins), types.Typ[types.Int], a), true
			}
		}
		t := tLen(a)
		l := lin(t)
		if l.isConst() {
			return tConst(strconv.FormatInt(l.C, 10), types.Typ[types.Int]), true
		}
		if len(l.Coef) == 1 && l.C == 0 {
			for v, k := range l.Coef {
				if k == 1 {
					return v, true
				}
			}
		}
		return t, true
	case "cap":
		return mk("cap", "", types.Typ[types.Int], args[0]), true
	case "append":
		base := args[0]
		if len(args) == 1 {
			return base, true
		}
		add := args[1]
		x.emit(s, &Event{Kind: "append", Pos: pos, Val: base, Args: []*Term{add}})
		if add.Op == "arr" || add.IsNil() {
			t := base
			if len(add.Args) == 0 {
				return base, true
			}
			if t.Op == "append" {
				return mk("append", "", rt, append(append([]*Term(nil), t.Args...), add.Args...)...), true
			}
			return mk("append", "", rt, append([]*Term{t}, add.Args...)...), true
		}
		// append(l[:i], l[i+1:]...) removes element i
		if base.Op == "slice" && add.Op == "slice" && base.Args[0] == add.Args[0] && base.Args[1].Op == "none" && add.Args[2].Op == "none" &&
			base.Args[2].Op != "none" && add.Args[1].Op != "none" {
			d := linDiff(add.Args[1], base.Args[2])
			if d.isConst() && d.C == 1 {
				return mk("removeat", "", rt, base.Args[0], base.Args[2]), true
			}
		}
		return mk("appends", "", rt, base, add), true
	case "delete":
		m, k := args[0], args[1]
		pres := x.mapPresence(s, m, k)
		var old *Term
		old, _ = x.mapLookup(s, m, k, types.Typ[types.Invalid])
		x.emit(s, &Event{Kind: "mapdel", Pos: pos, Map: m, Key: k, Fresh: s.private(m), Pres: pres, Old: old, Len0: x.mapState(s, m).Len})
		x.mapWrite(s, m, k, nil, true)
		return tNil, true
	case "clear":
		m := args[0]
		x.emit(s, &Event{Kind: "mapclear", Pos: pos, Map: m, Fresh: s.private(m)})
		s.cnt[m]++
		s.maps[m] = &mapSt{Ver: s.cnt[m], Len: tInt(0), Closed: true, Deps: s.lockLocs()}
		s.modMaps[m] |= 2
		return tNil, true
	case "close":
		x.emit(s, &Event{Kind: "close", Pos: pos, Ch: args[0]})
		x.interfere(s)
		return tNil, true
	case "copy":
		// copy(l[i:], l[i+1:]) moves the elements after i down
		if d, a := args[0], args[1]; d.Op == "slice" && a.Op == "slice" && d.Args[0] == a.Args[0] && d.Args[2].Op == "none" && a.Args[2].Op == "none" && a.Args[1].Op != "none" {
			lo := d.Args[1]
			if lo.Op == "none" {
				lo = tInt(0)
			}
			if df := linDiff(a.Args[1], lo); df.isConst() && df.C == 1 {
				if s.shift == nil {
					s.shift = map[*Term]*Term{}
				} else {
					m := map[*Term]*Term{}
					for k, v := range s.shift {
						m[k] = v
					}
					s.shift = m
				}
				s.shift[d.Args[0]] = lo
			}
		}
		back := args[0]
		if o, ok := back.Obj.(*Term); ok && back.Op == "arr" {
			back = o
		} else if back.Op == "slice" && back.Args[0].Op == "new" && back.Args[1].Op == "none" && back.Args[2].Op == "none" {
			back = back.Args[0]
		}
		x.emit(s, &Event{Kind: "copy", Pos: pos, Loc: args[0], Val: args[1], Fresh: s.private(args[0]) || back.Op == "new" && s.private(back)})
		if back.Op == "new" {
			// the array as a whole holds what was copied
			x.interfereRefs(s, []*Term{back})
			if at, ok := deref(back.T).Underlying().(*types.Array); ok && s.private(back) {
				s.mem[back] = &cell{Val: mk("arrcopy", "@"+s.top().ctx+":"+x.id(ins), at, args[1]), T: at, Stored: true, Deps: s.lockLocs()}
			}
		}
		for l := range s.mem {
			if l.Op == "iaddr" && (l.Args[0] == args[0] || RootOf(l) == RootOf(args[0])) {
				s.drop(l)
			}
		}
		s.cnt[RootOf(args[0])]++
		return mk("copied", "@"+s.top().ctx+":"+x.id(ins), types.Typ[types.Int], args...), true
	case "recover":
		for i := len(s.frames) - 2; i >= 0; i-- {
			if s.frames[i].unwinding {
				s.frames[i].recovered = true
				return mk("nonnil", "recovered", rt), true
			}
		}
		return tNil, true
	case "panic":
		x.emit(s, &Event{Kind: "panic", Pos: pos})
		s.top().unwinding = true
		return tNil, true
	case "min", "max":
		t := args[0]
		for _, a := range args[1:] {
			t = x.minmax(s, name, t, a, rt)
		}
		return t, true
	case "print", "println":
		return tNil, true
	case "ssa:wrapnilchk":
		return args[0], true
	}
	return mk("builtin."+name, "@"+s.top().ctx+":"+x.id(ins), rt, args...), true
}

func (x *Exec) minmax(s *State, name string, a, b *Term, t types.Type) *Term {
	c := tLt(a, b)
	switch s.facts.Eval(c) {
	case 1:
		if name == "min" {
			return a
		}
		return b
	case -1:
		if name == "min" {
			return b
		}
		return a
	}
	// both orders are looked at, as for a comparison in the source
	yes := s.clone()
	yes.facts = yes.facts.Add(c, true)
	yes.top().idx-- // runs the call again, with the order known
	x.work = append(x.work, yes)
	s.facts = s.facts.Add(c, false)
	if name == "min" {
		return b
	}
	return a
}

// ---- entry points ----

// Entry analyses fn with symbolic parameters.
func (x *Exec) Entry(fn *ssa.Function, name string) *Proc {
	p := &Proc{Name: name, Kind: "api", Fn: fn}
	st := newState()
	fr := &Frame{fn: fn, ctx: "", env: map[ssa.Value]*Term{}, visits: map[*ssa.BasicBlock]int{}, blk: fn.Blocks[0]}
	for i, pa := range fn.Params {
		nm := pa.Name()
		if i == 0 && fn.Signature.Recv() != nil {
			nm = "recv"
		}
		// parameters are identified by position so that renaming has no effect
		t := mkObj("param", fmt.Sprintf("%s", nm), pa.Type(), nil, mk("slot", fmt.Sprintf("%s/%d", name, i), nil))
		fr.env[pa] = t
		p.Params = append(p.Params, t)
	}
	st.frames = []*Frame{fr}
	x.explore(p, st)
	x.order = append(x.order, p)
	return p
}

// All analyses every exported function and method of the module twice: once
// to learn which fields change after construction, once using that.
func exploreAll(w *World, pkgs ...string) *Exec {
	var x *Exec
	var mut mutFields
	var neverNil map[string]bool
	for round := 0; round < 2; round++ {
		x = newExec(w)
		x.trueMaps(w)
		if round == 1 {
			x.allMut = false
			x.mutField = mut
			x.neverNil = neverNil
		}
		x.exploreRound(pkgs)
		mut = mutFields{}
		for _, p := range x.order {
			for _, t := range p.Traces {
				for _, e := range t.Events {
					if e.Kind == "store" && !e.Fresh && e.Loc.Op == "faddr" {
						mut.add(e.Loc)
					}
				}
			}
		}
		neverNil = x.nonNilMaps()
	}
	return x
}

type entryFn struct {
	fn   *ssa.Function
	name string
}

func (w *World) entries(pkgs []string) []entryFn {
	want := map[string]bool{}
	for _, p := range pkgs {
		want[p] = true
	}
	var names []string
	for r := range w.SSA {
		if len(pkgs) == 0 || want[r] {
			names = append(names, r)
		}
	}
	sort.Strings(names)
	var out []entryFn
	for _, r := range names {
		scope := w.Pkgs[r].Types.Scope()
		ns := scope.Names()
		for _, n := range ns {
			switch o := scope.Lookup(n).(type) {
			case *types.Func:
				if o.Exported() {
					if f := w.Prog.FuncValue(o); f != nil && len(f.Blocks) > 0 {
						out = append(out, entryFn{f, r + "." + n})
					}
				}
			case *types.TypeName:
				nt, ok := o.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < nt.NumMethods(); i++ {
					m := nt.Method(i)
					if !m.Exported() {
						continue
					}
					if f := w.Prog.FuncValue(m); f != nil && len(f.Blocks) > 0 {
						out = append(out, entryFn{f, r + "." + n + "." + m.Name()})
					}
				}
			}
		}
	}
	return out
}

func (x *Exec) exploreRound(pkgs []string) {
	for _, e := range x.w.entries(pkgs) {
		x.Entry(e.fn, e.name)
	}
}

// P finds an analysed entry point by name.
func (x *Exec) P(name string) *Proc {
	for _, p := range x.order {
		if p.Kind == "api" && p.Name == name {
			return p
		}
	}
	return nil
}

// keyedLock: the library's own keyed mutexes, used by other types, are locks
// identified by table and key (their inside is decided by property L01).
func keyedLock(name string) (op, table string) {
	for _, t := range []string{"(*collections.MapMutex).", "(*collections.MapRWMutex)."} {
		if strings.HasPrefix(name, t) {
			switch o := strings.TrimPrefix(name, t); o {
			case "Lock", "Unlock", "RLock", "RUnlock":
				return o, t
			}
		}
	}
	return "", ""
}

func (x *Exec) keyedOutside(s *State, table string) bool {
	return !strings.HasPrefix(fnName(s.frames[0].fn), table)
}

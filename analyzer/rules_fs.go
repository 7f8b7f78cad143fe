package main

import (
	"go/types"
	"strings"
)

// Rules for the archive file system: F01 Save, F02 reading, F03 loading, F04
// building.

// fsShape: the fields that make up a stored entry, found from what the
// builder puts there, and the maps entries are kept in.
type fsShape struct {
	entry                        types.Type
	name, path, data, dir, items string
	built                        string // the builder's map
}

// fields of a struct value on a path: the terms by field key.
func (t *Trace) fieldsOf(v *Term) map[string]*Term {
	out := map[string]*Term{}
	if v == nil {
		return out
	}
	if v.Op == "mk" {
		st := structOf(v.T)
		if st == nil {
			return out
		}
		for i, a := range v.Args {
			if i < st.NumFields() {
				out[fieldKey(v.T, i)] = a
			}
		}
		return out
	}
	if v.Op == "new" || v.Op == "iaddr" {
		for _, e := range t.of("store") {
			if e.Loc.Op == "faddr" && e.Loc.Args[0] == v {
				out[e.Loc.S] = e.Val
			}
			if e.Loc == v && e.Val.Op == "mk" {
				for k, a := range t.fieldsOf(e.Val) {
					out[k] = a
				}
			}
		}
	}
	return out
}

// walker: the function AddFolder walks the tree with, and the walk.
func (c *Chk) walker(p *Proc) (q *Proc, walks []*Event) {
	for _, t := range p.Traces {
		for _, e := range t.calls("path/filepath.Walk", "path/filepath.WalkDir") {
			if len(e.Args) == 2 {
				walks = append(walks, e)
				if x := c.procOf(p, e.Args[1]); x != nil {
					q = x
				}
			}
		}
	}
	if q == nil {
		for _, x := range c.children(p) {
			if x.Kind == "callback" && len(x.Params) >= 3 {
				q = x
			}
		}
	}
	return
}

// walkParams: path, info and error parameter of the walk function.
func walkParams(q *Proc) (root, info, err *Term) {
	n := len(q.Params)
	if n < 3 {
		return nil, nil, nil
	}
	return q.Params[n-3], q.Params[n-2], q.Params[n-1]
}

func isInfo(v *Term, method string, info *Term) bool {
	return v != nil && v.IsCall("(io/fs.FileInfo)."+method, "(io/fs.DirEntry)."+method) && len(v.Args) > 0 && v.Args[0] == info
}

// shape finds the entry fields by what the builder stores in them.
func (c *Chk) shape() *fsShape {
	p := c.P("crypto_fs.CryptoFSBuilder.AddFolder")
	q, _ := c.walker(p)
	if q == nil {
		c.bad("anchor", "AddFolder", "the function AddFolder walks the tree with was not found")
		return nil
	}
	s := &fsShape{}
	root, info, _ := walkParams(q)
	for _, t := range returns(q) {
		for _, e := range t.of("mapset") {
			if e.Key != root {
				continue
			}
			s.built = place(e.Map)
			fs := t.fieldsOf(e.Val)
			if s.entry == nil {
				s.entry = deref(e.Val.T)
			}
			for _, k := range sortedKeys(fs) {
				switch v := fs[k]; {
				case isInfo(v, "Name", info):
					s.name = k
				case v == root:
					s.path = k
				}
			}
		}
	}
	if s.entry == nil || structOf(s.entry) == nil {
		c.bad("anchor", "AddFolder", "AddFolder stores no entries")
		return nil
	}
	st := structOf(s.entry)
	one := func(is func(types.Type) bool) string {
		out := ""
		for i := 0; i < st.NumFields(); i++ {
			if is(st.Field(i).Type()) {
				if out != "" {
					return ""
				}
				out = fieldKey(s.entry, i)
			}
		}
		return out
	}
	s.data = one(func(x types.Type) bool {
		sl, ok := x.Underlying().(*types.Slice)
		return ok && isByte(sl.Elem())
	})
	s.items = one(func(x types.Type) bool {
		sl, ok := x.Underlying().(*types.Slice)
		return ok && !isByte(sl.Elem())
	})
	s.dir = one(isBoolType)
	if s.data == "" || s.items == "" || s.dir == "" {
		c.bad("anchor", "entry", "content, listing or kind of an entry cannot be told apart in %s", typeKey(s.entry))
		return nil
	}
	if s.name == "" {
		s.name = one(func(x types.Type) bool { return isStringT(x) })
	}
	return s
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// entryKeys finds the same fields from the entry's accessors.
func (c *Chk) entryKeys(s *fsShape) *fsShape {
	n := namedOf(s.entry)
	if n == nil {
		return nil
	}
	out := &fsShape{entry: s.entry, data: s.data, items: s.items, dir: s.dir, path: s.path, built: s.built, name: s.name}
	get := func(m string) *Term {
		q, _ := c.methodProc(s.entry, m)
		if q == nil {
			return nil
		}
		for _, t := range returns(q) {
			if len(t.Ret) == 1 {
				return t.Ret[0]
			}
		}
		return nil
	}
	if v := get("Name"); v != nil && place(v) != "" {
		out.name = place(v)
	}
	return out
}

// methodProc: the analysed method a call on a value of the type reaches, and
// the embedded fields it is promoted through.
func (c *Chk) methodProc(t types.Type, m string) (*Proc, []string) {
	if t == nil {
		return nil, nil
	}
	base := deref(t)
	if base == nil {
		return nil, nil
	}
	var pkg *types.Package
	if n := namedOf(base); n != nil {
		pkg = n.Obj().Pkg()
	}
	sel := types.NewMethodSet(types.NewPointer(base)).Lookup(pkg, m)
	if sel == nil {
		return nil, nil
	}
	var embed []string
	cur := base
	ix := sel.Index()
	for _, i := range ix[:len(ix)-1] {
		st := structOf(cur)
		if st == nil {
			return nil, nil
		}
		embed = append(embed, fieldKey(cur, i))
		cur = deref(st.Field(i).Type())
	}
	for _, q := range c.x.order {
		if q.Fn != nil && q.Parent == nil && q.Fn.Object() == sel.Obj() {
			c.use(q)
			return q, embed
		}
	}
	return nil, embed
}

// ---- values followed through methods ----

// norm: the place a term denotes, as a root and the fields below it.
func norm(v *Term) (*Term, []string) {
	switch v.Op {
	case "load", "iface", "conv":
		return norm(v.Args[0])
	case "fld", "faddr":
		r, p := norm(v.Args[0])
		return r, append(append([]string(nil), p...), v.S)
	}
	return v, nil
}

// world: the stores made so far on objects under construction.
type world struct {
	w     *Chk
	loc   []*Term
	val   []*Term
	facts []Fact
}

func (w *world) add(t *Trace, m map[*Term]*Term) {
	for _, e := range t.of("store") {
		w.loc = append(w.loc, e.Loc.subst(m))
		w.val = append(w.val, e.Val.subst(m))
	}
	for _, f := range t.Facts {
		f.Atom = f.Atom.subst(m)
		w.facts = append(w.facts, f)
	}
}

func hasPrefix(p, q []string) bool {
	if len(q) > len(p) {
		return false
	}
	for i := range q {
		if p[i] != q[i] {
			return false
		}
	}
	return true
}

// read follows a place back to what was stored there.
func (w *world) read(v *Term, d int) (*Term, []string) {
	r, p := norm(v)
	return w.follow(r, p, d)
}

func (w *world) follow(r *Term, p []string, d int) (*Term, []string) {
	if d > 20 {
		return r, p
	}
	if len(p) > 0 && r.Op == "mk" {
		st := structOf(r.T)
		for i := range r.Args {
			if st != nil && i < st.NumFields() && fieldKey(r.T, i) == p[0] {
				r2, p2 := norm(r.Args[i])
				return w.follow(r2, append(append([]string(nil), p2...), p[1:]...), d+1)
			}
		}
		return r, p
	}
	if r.Op == "new" && len(p) > 0 {
		for i := len(w.loc) - 1; i >= 0; i-- {
			lr, lp := norm(w.loc[i])
			if lr == r && hasPrefix(p, lp) {
				r2, p2 := norm(w.val[i])
				return w.follow(r2, append(append([]string(nil), p2...), p[len(lp):]...), d+1)
			}
		}
	}
	return r, p
}

// fldOf: the field of a value, with its type.
func fldOf(base *Term, key string) *Term {
	t := base.T
	if t != nil {
		t = deref(t)
		if st := structOf(t); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if fieldKey(t, i) == key {
					return mk("fld", key, st.Field(i).Type(), base)
				}
			}
		}
	}
	return mk("fld", key, nil, base)
}

func sameRef(r *Term, p []string, r2 *Term, p2 []string) bool {
	return r == r2 && len(p) == len(p2) && hasPrefix(p, p2)
}

func (w *world) clone() *world {
	return &world{w: w.w, loc: append([]*Term(nil), w.loc...), val: append([]*Term(nil), w.val...), facts: append([]Fact(nil), w.facts...)}
}

// dynType: the type of a value kept in an interface.
func dynType(v *Term) types.Type {
	for v.Op == "iface" || v.Op == "conv" {
		v = v.Args[0]
	}
	if v.Op == "new" {
		return types.NewPointer(v.T)
	}
	if v.Op == "iaddr" || v.Op == "faddr" {
		return v.T
	}
	return v.T
}

// outcome: one way a method returns.
type outcome struct {
	w   *world
	ret []*Term
	q   *Proc
	t   *Trace
	end string
}

// apply runs the method's paths on a value.
func (w *world) apply(x *Term, typ types.Type, m string) []outcome {
	q, embed := w.w.methodProc(typ, m)
	if q == nil {
		return nil
	}
	base := x
	for _, f := range embed {
		base = fldOf(base, f)
	}
	var out []outcome
	for _, t := range ends(q, "return", "panic", "back", "halt") {
		s := map[*Term]*Term{q.Params[0]: base}
		n := w.clone()
		n.add(t, s)
		o := outcome{w: n, q: q, t: t, end: t.End}
		for _, r := range t.Ret {
			o.ret = append(o.ret, r.subst(s))
		}
		out = append(out, o)
	}
	return out
}

// flag: what the path knows of a stored boolean: 1, -1 or 0.
func (w *world) flag(r *Term, p []string) int {
	for _, f := range w.facts {
		a, pos := f.Atom, f.Val
		for a.Op == "not" {
			a, pos = a.Args[0], !pos
		}
		if ar, ap := w.read(a, 0); sameRef(ar, ap, r, p) {
			if pos {
				return 1
			}
			return -1
		}
	}
	return 0
}

const modeDir, modeType = int64(1) << 31, int64(0x8f280000)

func modeBits(v *Term) (int64, bool) {
	if v.IsCall("(io/fs.FileMode).Type") {
		n, ok := modeBits(v.Args[0])
		return n & modeType, ok
	}
	return num(v, nil)
}

// ---- what an accessor chain must deliver ----

// stored: the accessor on x delivers the field of the stored entry.
func (c *Chk) delivers(rule string, w *world, x *Term, typ types.Type, m string, s *fsShape, r *Term, p []string, what string) {
	os := w.apply(x, typ, m)
	if !c.check(rule, len(os) > 0, nil, nil, "%s of %s was not found", m, typeKey(deref(typ))) {
		return
	}
	at := func(f string) []string { return append(append([]string(nil), p...), f) }
	for _, o := range os {
		if !c.check(rule, o.end == "return" && len(o.ret) > 0, o.t, nil, "%s may panic or loop", m) {
			continue
		}
		v := o.ret[0]
		ok := false
		switch m {
		case "Name":
			vr, vp := o.w.read(v, 0)
			ok = sameRef(vr, vp, r, at(s.name))
		case "IsDir":
			f := o.w.flag(r, at(s.dir))
			vr, vp := o.w.read(v, 0)
			ok = sameRef(vr, vp, r, at(s.dir)) || f == 1 && v.IsTrue() || f == -1 && v.IsFalse()
			if v.IsCall("(io/fs.FileMode).IsDir") {
				n, k := modeBits(v.Args[0])
				ok = k && (f == 1 && n&modeDir != 0 || f == -1 && n&modeDir == 0)
			}
		case "Size":
			u := unconv(v)
			if u.Op == "len" {
				vr, vp := o.w.read(u.Args[0], 0)
				ok = sameRef(vr, vp, r, at(s.data))
			}
		case "Mode", "Type":
			n, k := modeBits(v)
			switch o.w.flag(r, at(s.dir)) {
			case 1:
				ok = k && n&modeType == modeDir
			case -1:
				ok = k && n&modeType == 0
			}
		}
		c.check(rule, ok, o.t, nil, "%s", what)
	}
}

// described: the FileInfo an accessor returns describes the stored entry.
func (c *Chk) described(rule string, w *world, x *Term, typ types.Type, m string, s *fsShape, r *Term, p []string) {
	os := w.apply(x, typ, m)
	if !c.check(rule, len(os) > 0, nil, nil, "%s of %s was not found", m, typeKey(deref(typ))) {
		return
	}
	for _, o := range os {
		if !c.check(rule, o.end == "return" && len(o.ret) == 2 && isNilVal(o.ret[1]), o.t, nil, "%s does not simply return a description", m) {
			continue
		}
		c.info(rule, o.w, o.ret[0], s, r, p)
	}
}

func (c *Chk) info(rule string, w *world, v *Term, s *fsShape, r *Term, p []string) {
	v, typ := w.holder(v)
	c.delivers(rule, w, v, typ, "Name", s, r, p, "the description has another name than the stored one")
	c.delivers(rule, w, v, typ, "Size", s, r, p, "the description has another size than the stored content")
	c.delivers(rule, w, v, typ, "IsDir", s, r, p, "the description is of another kind than the stored entry")
	c.delivers(rule, w, v, typ, "Mode", s, r, p, "the mode is of another kind than the stored entry")
}

// holder: the value behind a term and its type, for values handed on inside
// structures.
func (w *world) holder(v *Term) (*Term, types.Type) {
	t := dynType(v)
	if t != nil && !types.IsInterface(t) {
		return v, t
	}
	r, p := w.read(v, 0)
	for _, f := range p {
		r = fldOf(r, f)
	}
	return r, dynType(r)
}

// notExist: the error is, or wraps, fs.ErrNotExist.
func (t *Trace) notExist(v *Term) bool {
	for v != nil && (v.Op == "iface" || v.Op == "conv") {
		v = v.Args[0]
	}
	switch {
	case v == nil:
		return false
	case v.Op == "load":
		return t.notExist(v.Args[0])
	case v.Op == "global":
		return v.S == "io/fs.ErrNotExist" || v.S == "os.ErrNotExist"
	case v.Op == "new" || v.Op == "mk":
		if n := namedOf(v.T); n == nil || n.Obj().Name() != "PathError" {
			return false
		}
		for k, x := range t.fieldsOf(v) {
			if strings.HasSuffix(k, ".Err") && t.notExist(x) {
				return true
			}
		}
	case v.IsCall("fmt.Errorf") && len(v.Args) == 2 && strings.Contains(v.Args[0].S, "%w") && v.Args[1].Op == "arr":
		for _, x := range v.Args[1].Args {
			if t.notExist(x) {
				return true
			}
		}
	case v.IsCall("errors.Join"):
		return v.Any(func(x *Term) bool { return x != v && t.notExist(x) })
	}
	return false
}

// fsType: the file system type CryptoFSFromFile returns and its map.
func (c *Chk) fsType(rule string) (typ types.Type, files string) {
	p := c.P("crypto_fs.CryptoFSFromFile")
	for _, t := range returns(p) {
		if len(t.Ret) == 2 && t.Ret[0].Op == "new" {
			typ = t.Ret[0].T
		}
	}
	if typ == nil {
		c.bad("anchor", "CryptoFSFromFile", "CryptoFSFromFile returns no file system of its own")
		return nil, ""
	}
	st := structOf(typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if _, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			files = fieldKey(typ, i)
		}
	}
	if files == "" {
		c.bad("anchor", "CryptoFSFromFile", "the file system holds no map of entries")
	}
	return
}

func ruleF02(c *Chk) {
	s := c.shape()
	typ, files := c.fsType("open")
	if s == nil || files == "" {
		return
	}
	handles := map[types.Type]bool{}
	open, _ := c.methodProc(typ, "Open")
	list, _ := c.methodProc(typ, "ReadDir")
	if open == nil || list == nil {
		c.bad("anchor", "CryptoFS", "Open or ReadDir was not found")
		return
	}
	// looking a path up
	found := func(t *Trace, p *Proc) (pres int, e *Event) {
		for _, g := range t.mapEvs(files, "mapget") {
			if g.Key == param(p, 1) {
				return t.truth(g.Ok), g
			}
		}
		return 0, nil
	}
	for _, t := range ends(open, "return", "panic", "back") {
		if !c.check("lookup", t.End == "return" && len(t.Ret) == 2, t, nil, "Open may panic or loop") {
			continue
		}
		pres, g := found(t, open)
		switch pres {
		case 0:
			c.check("lookup", false, t, nil, "Open returns without having looked the path up as it is stored")
		case -1:
			c.check("missing", isNilVal(t.Ret[0]) && t.notExist(t.Ret[1]), t, g, "opening a path that is not stored does not fail with fs.ErrNotExist")
		case 1:
			if !c.check("found", isNilVal(t.Ret[1]), t, g, "opening a stored path fails") {
				continue
			}
			h := t.Ret[0]
			ht := dynType(h)
			fresh := h.Op == "new" || h.Op == "mk" || strings.HasPrefix(h.Op, "lookup")
			if !c.check("handle", ht != nil && fresh, t, g, "the open file is not an object of its own: handles share their read position") {
				continue
			}
			handles[deref(ht)] = true
			w := &world{w: c}
			w.add(t, nil)
			c.described("stat", w, h, ht, "Stat", s, g.Res, nil)
			c.reads(t, w, h, ht, s, g.Res)
		}
	}
	c.listing(list, found, s)
	// nothing but the builder and the loader touches what is stored
	for _, p := range c.family("crypto_fs", "cryptoFS", typeShort(typ), typeShort(s.entry)) {
		c.unchanged(p, s, files)
	}
	for h := range handles {
		for _, p := range c.family("crypto_fs", typeShort(h)) {
			c.unchanged(p, s, files)
		}
	}
	c.atLeast("missing", 2)
	c.atLeast("found", 1)
	c.atLeast("stat", 2)
	c.atLeast("read", 1)
	c.atLeast("listing", 2)
	c.atLeast("entry", 2)
}

func typeShort(t types.Type) string {
	if n := namedOf(t); n != nil {
		return n.Obj().Name()
	}
	return "?"
}

// unchanged: the procedure leaves stored entries and the map as they are.
func (c *Chk) unchanged(p *Proc, s *fsShape, files string) {
	keys := map[string]bool{s.name: true, s.data: true, s.dir: true, s.items: true}
	for _, t := range p.Traces {
		for _, e := range t.Events {
			switch e.Kind {
			case "store":
				root := bufRoot(e.Loc)
				made := root != nil && (root.Op == "new" || root.Op == "mkslice")
				own := e.Fresh || made
				c.check("unchanged", own || !(e.Loc.Op == "faddr" && keys[e.Loc.S] || place(e.Loc) == s.data || place(e.Loc) == s.items), t, e, "reading changes what is stored")
			case "copy", "append":
				d := e.Loc
				if e.Kind == "append" {
					d = e.Val
				}
				if d != nil {
					c.check("unchanged", place(d) != s.data && place(d) != s.items, t, e, "reading changes what is stored")
				}
			case "mapset", "mapdel", "mapclear":
				c.check("unchanged", place(e.Map) != files, t, e, "reading changes which paths are stored")
			}
		}
	}
}

// reads: successive Reads deliver the stored content once, in order.
func (c *Chk) reads(t *Trace, w *world, h *Term, ht types.Type, s *fsShape, g *Term) {
	q, embed := c.methodProc(ht, "Read")
	if q == nil {
		// promoted from an embedded standard reader
		ok := false
		if len(embed) > 0 {
			v := h
			for _, f := range embed {
				v = fldOf(v, f)
			}
			r, p := w.read(v, 0)
			ok = len(p) == 0 && c.overData(w, r, s, g)
		}
		c.check("read", ok, t, nil, "Read of the open file does not read the stored content")
		return
	}
	base := h
	for _, f := range embed {
		base = fldOf(base, f)
	}
	recv, buf := param(q, 0), param(q, 1)
	m := map[*Term]*Term{recv: base}
	isData := func(v *Term) bool {
		if v == nil {
			return false
		}
		r, p := w.read(v.subst(m), 0)
		return sameRef(r, p, g, []string{s.data})
	}
	isRecv := func(v *Term) bool { r, _ := norm(v); return r == recv }
	for _, x := range ends(q, "return", "panic", "back") {
		if !c.check("read", x.End == "return" && len(x.Ret) == 2, x, nil, "Read may panic or loop") {
			continue
		}
		var del []*Event
		for _, e := range x.of("call") {
			if isMethod(e, "Read") && len(e.Args) == 2 {
				del = append(del, e)
			} else {
				touched := false
				for _, a := range e.Args {
					rr, _ := w.read(a.subst(m), 0)
					touched = touched || a == buf || rr.IsCall("bytes.NewReader", "bytes.NewBuffer", "strings.NewReader")
				}
				n := callName(e.Name)
				c.check("read", !touched || hasAny(n, ").Len", ").Size"), x, e, "the content is read otherwise (%s)", lastSeg(e.Name))
			}
		}
		if len(del) > 0 {
			e := del[0]
			ok := len(del) == 1 && e.Args[1] == buf && x.Ret[0] == res(e, 0) && x.Ret[1] == res(e, 1)
			c.check("read", ok, x, e, "Read does not pass on both results of one read into the given buffer")
			src := e.Args[0]
			for src.Op == "iface" || src.Op == "conv" {
				src = src.Args[0]
			}
			r, p := w.read(src.subst(m), 0)
			good := len(p) == 0 && c.overData(w, r, s, g)
			for _, mk := range x.of("call") {
				if mk.Res == src {
					good = false // a reader made for this one call
				}
			}
			if !good {
				// made on first use
				good = c.lazyReader(x, w, src, base, recv, isData)
			}
			c.check("read", good, x, e, "the handle's reader does not read exactly the stored content, or is shared between handles")
			continue
		}
		// an offset of the handle's own
		var cp *Event
		n := 0
		for _, e := range x.of("copy") {
			cp = e
			n++
		}
		var sts []*Event
		for _, e := range x.of("store") {
			if !e.Fresh && isRecv(e.Loc) {
				sts = append(sts, e)
			}
		}
		if n == 0 {
			c.check("read", len(sts) == 0 && isZero(x.Ret[0]), x, nil, "Read moves on or reports bytes without having delivered any")
			if x.nonNilErr(x.Ret[1]) {
				ok := isEOF(x.Ret[1]) && c.offsetDone(x, recv, isData)
				if !isEOF(x.Ret[1]) {
					ok = c.closedOnly(x, w, recv, base, ht)
				}
				c.check("read", ok, x, nil, "Read ends although content may be left, or with another error than io.EOF")
			} else {
				c.check("read", x.Facts.ProveLE(tLen(buf), tInt(0), 0), x, nil, "Read delivers nothing although there is room and content")
			}
			continue
		}
		ok := n == 1 && cp.Loc == buf && cp.Val.Op == "slice" && isData(cp.Val.Args[0]) && (cp.Val.Args[2].Op == "none" || c.upToEnd(cp.Val, isData))
		if !c.check("read", ok, x, cp, "Read does not copy the content from the current position into the given buffer") {
			continue
		}
		off := cp.Val.Args[1]
		or, op := norm(off)
		okOff := or == recv && len(op) > 0
		if c.check("read", okOff && isCopied(unconv(x.Ret[0]), cp), x, cp, "Read does not report the bytes it copied from the handle's position") {
			// starts at zero
			z := base
			for _, f := range op {
				z = fldOf(z, f)
			}
			zr, zp := w.read(z, 0)
			c.check("read", len(zp) > 0 && zr.Op == "new" || isZero(zr) || zr.Op == "zero", x, cp, "a handle does not start at the beginning of the content")
			moved := len(sts) == 1
			if moved {
				lr, lp := norm(sts[0].Loc)
				d := linDiff(unconv(sts[0].Val), unconv(off))
				d.add(lin(unconv(x.Ret[0])), -1)
				moved = lr == recv && sameRef(lr, lp, or, op) && d.isZero()
			}
			c.check("read", moved, x, cp, "Read does not move on by exactly the bytes it delivered")
			c.check("read", !x.nonNilErr(x.Ret[1]) || isEOF(x.Ret[1]) && c.offsetDone(x, recv, isData), x, cp, "Read reports an error although it delivered content")
			c.check("read", x.Facts.ProveLT(off, tLen(cp.Val.Args[0])) || x.Facts.ProveLE(off, tLen(cp.Val.Args[0]), 0) && isEOF(x.Ret[1]), x, cp, "Read may not notice the end of the content")
		}
	}
}

// upToEnd: the slice's upper bound is the content's length.
func (c *Chk) upToEnd(v *Term, isData func(*Term) bool) bool {
	hi := v.Args[2]
	return hi.Op == "len" && isData(hi.Args[0])
}

// isCopied: the number of bytes the copy moved.
func isCopied(v *Term, cp *Event) bool {
	return v.Op == "copied" && v.Args[0] == cp.Loc && v.Args[1] == cp.Val || cp.Res != nil && v == cp.Res
}

func isEOF(v *Term) bool {
	for v != nil && (v.Op == "load" || v.Op == "iface") {
		v = v.Args[0]
	}
	return v != nil && v.Op == "global" && v.S == "io.EOF"
}

// offsetDone: the path knows that the position reached the content's length.
func (c *Chk) offsetDone(x *Trace, recv *Term, isData func(*Term) bool) bool {
	for _, f := range x.Facts {
		var done bool
		f.Atom.Any(func(n *Term) bool {
			if n.Op != "len" || !isData(n.Args[0]) {
				return false
			}
			f.Atom.Any(func(o *Term) bool {
				r, p := norm(o)
				if r == recv && len(p) > 0 && o.Op == "load" && x.Facts.ProveLE(n, o, 0) {
					done = true
				}
				return done
			})
			return done
		})
		if done {
			return true
		}
	}
	return false
}

// closedOnly: the path is taken only after Close marked the handle.
func (c *Chk) closedOnly(x *Trace, w *world, recv, base *Term, ht types.Type) bool {
	for _, f := range x.Facts {
		if !f.Val || f.Atom.Op != "load" && f.Atom.Op != "fld" {
			continue
		}
		r, p := norm(f.Atom)
		if r != recv || len(p) != 1 {
			continue
		}
		v, vp := w.read(fldOf(base, p[0]), 0)
		if !(v.IsFalse() || v.Op == "new" && len(vp) > 0) {
			continue
		}
		ok := true
		for _, q := range c.family("crypto_fs", typeShort(ht)) {
			for _, t := range q.Traces {
				for _, e := range t.of("store") {
					if e.Loc.Op == "faddr" && e.Loc.S == p[0] && !e.Fresh {
						ok = ok && strings.HasSuffix(q.Name, ".Close")
					}
				}
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// overData: a fresh reader of exactly the stored content.
func (c *Chk) overData(w *world, r *Term, s *fsShape, g *Term) bool {
	for r.Op == "iface" || r.Op == "conv" {
		r = r.Args[0]
	}
	if !r.IsCall("bytes.NewReader", "bytes.NewBuffer", "strings.NewReader") || len(r.Args) != 1 {
		return false
	}
	dr, dp := w.read(sameBytes(r.Args[0]), 0)
	return sameRef(dr, dp, g, []string{s.data})
}

// lazyReader: the reader is made when the handle has none yet.
func (c *Chk) lazyReader(x *Trace, w *world, src, base, recv *Term, isData func(*Term) bool) bool {
	var f string
	for _, e := range x.of("store") {
		if e.Loc.Op == "faddr" && e.Loc.Args[0] == recv && e.Val == src {
			f = e.Loc.S
			if !x.at(e).knowsNil(mk("load", "", nil, e.Loc), recv, f) {
				return false
			}
			return src.IsCall("bytes.NewReader") && isData(sameBytes(src.Args[0]))
		}
	}
	r, p := norm(src)
	if r != recv || len(p) != 1 {
		return false
	}
	v, vp := w.read(fldOf(base, p[0]), 0)
	unset := isNilVal(v) || v.Op == "new" && len(vp) > 0
	return unset && x.Facts.Eval(tEq(src, tNil)) == -1
}

// knowsNil: a load of the field is known to be nil.
func (f Facts) knowsNil(_ *Term, recv *Term, field string) bool {
	for _, a := range f {
		if a.Atom.Op == "eq" && a.Val {
			for i, x := range a.Atom.Args {
				r, p := norm(x)
				if r == recv && len(p) == 1 && p[0] == field && a.Atom.Args[1-i].IsNil() {
					return true
				}
			}
		}
	}
	return false
}

// mapped: the list holds, in order, one element for each index below n.
func (t *Trace) mapped(list, n *Term, elem func(it *Trace, val, i *Term) bool) bool {
	if emptyList(list) && t.Facts.ProveLE(n, tInt(0), 0) {
		return true
	}
	for _, l := range t.loopsIn() {
		for _, v := range l.Phis {
			if l.sharedVar(v) || v.Term.T == nil || !isIntType(v.Term.T) {
				continue
			}
			for _, k := range []int64{0, 1} {
				i := tAdd(v.Term, k)
				if !covers(l, n, i) || !t.leftExhausted(l, i, n) || !within(l, i, n) || !l.startsEmpty(list, n) {
					continue
				}
				ok := len(l.Iters) > 0
				for _, it := range l.Iters {
					val, at := l.produced(it, list)
					if val == nil {
						val, at = l.filled(it, list)
					}
					ok = ok && val != nil && (at == nil && upFrom(l, v) || at != nil && linDiffZero(at, i)) && elem(it, val, i)
				}
				if ok {
					return true
				}
			}
		}
	}
	return false
}

// filled: the element a round fills in field by field.
func (l *LoopInst) filled(it *Trace, list *Term) (el, at *Term) {
	for _, e := range it.of("store") {
		if inLoop(e, l) && e.Loc.Op == "faddr" && e.Loc.Args[0].Op == "iaddr" && e.Loc.Args[0].Args[0] == list {
			if el != nil && el != e.Loc.Args[0] {
				return nil, nil
			}
			el = e.Loc.Args[0]
			at = el.Args[1]
		}
	}
	return
}

// listing: ReadDir gives the stored entries of a directory.
func (c *Chk) listing(p *Proc, found func(*Trace, *Proc) (int, *Event), s *fsShape) {
	types_ := map[string]types.Type{}
	checked := map[*Term]bool{}
	for _, t := range ends(p, "return", "panic") {
		if !c.check("lookup", t.End == "return" && len(t.Ret) == 2, t, nil, "ReadDir may panic") {
			continue
		}
		pres, g := found(t, p)
		if pres == 0 {
			c.check("lookup", false, t, nil, "ReadDir returns without having looked the path up as it is stored")
			continue
		}
		if pres == -1 {
			c.check("missing", isNilVal(t.Ret[0]) && t.notExist(t.Ret[1]), t, g, "listing a path that is not stored does not fail with fs.ErrNotExist")
			continue
		}
		w := &world{w: c}
		w.add(t, nil)
		switch w.flag(g.Res, []string{s.dir}) {
		case -1:
			c.check("listing", t.nonNilErr(t.Ret[1]) && isNilVal(t.Ret[0]), t, g, "listing a file does not fail")
			continue
		case 0:
			c.check("listing", false, t, g, "ReadDir does not tell files from directories")
			continue
		}
		if !c.check("listing", isNilVal(t.Ret[1]), t, g, "listing a stored directory fails") {
			continue
		}
		var items *Term
		sub := func(it *Trace, val, i *Term) bool {
			v := val
			if v.Op == "iface" {
				v = v.Args[0]
			}
			if v.IsCall("io/fs.FileInfoToDirEntry") {
				v = v.Args[0]
			}
			// the element is the i-th stored entry, whole
			whole := c.wholeElem(v, i)
			if whole == nil {
				return false
			}
			r, pth := w.read(whole, 0)
			if !sameRef(r, pth, g.Res, []string{s.items}) {
				return false
			}
			if ty := dynType(v); ty != nil {
				types_[typeKey(deref(ty))] = ty
			}
			if !checked[val] {
				checked[val] = true
			}
			return true
		}
		// the length may be spelled as that of any read of the same list
		var lens []*Term
		seen := map[*Term]bool{}
		note := func(x *Term) {
			x.Any(func(y *Term) bool {
				if y.Op == "len" && !seen[y] {
					seen[y] = true
					if r, pth := w.read(y.Args[0], 0); sameRef(r, pth, g.Res, []string{s.items}) {
						lens = append(lens, y)
					}
				}
				return false
			})
		}
		for _, f := range t.Facts {
			note(f.Atom)
		}
		ok := false
		for _, n := range lens {
			ok = ok || t.mapped(t.Ret[0], n, sub)
		}
		_ = items
		c.check("listing", ok, t, g, "the listing is not exactly the stored entries of the directory")
	}
	for _, k := range sortedKeys(types_) {
		ty := types_[k]
		x := mk("elem", "", deref(ty))
		w := &world{w: c}
		c.delivers("entry", w, x, ty, "Name", s, x, nil, "a listed entry has another name than the stored one")
		c.delivers("entry", w, x, ty, "IsDir", s, x, nil, "a listed entry is of another kind than the stored one")
		if q, _ := c.methodProc(ty, "Info"); q != nil {
			c.delivers("entry", w, x, ty, "Type", s, x, nil, "the type of a listed entry is not that of the stored one")
			c.described("entry", w, x, ty, "Info", s, x, nil)
		}
	}
}

// wholeElem: the value is element i, unchanged, of the list returned.
func (c *Chk) wholeElem(v, i *Term) *Term {
	at := func(a *Term) *Term {
		if a.Op == "iaddr" && linDiffZero(a.Args[1], i) {
			return a.Args[0]
		}
		return nil
	}
	switch v.Op {
	case "iaddr":
		return at(v)
	case "load", "index":
		if v.Op == "load" {
			return at(v.Args[0])
		}
	case "new":
		return nil
	case "mk":
		var l *Term
		for k, a := range v.Args {
			r, p := norm(a)
			if len(p) != 1 || p[0] != fieldKey(v.T, k) || at(r) == nil || l != nil && l != at(r) {
				return nil
			}
			l = at(r)
		}
		return l
	}
	return nil
}

// ---- F01 ----

// secretOf: the builder field WithAES keeps the secret in.
func (c *Chk) option(name string) string {
	p := c.P("crypto_fs.CryptoFSBuilder." + name)
	out := ""
	for _, t := range returns(p) {
		for _, e := range t.of("store") {
			if e.Loc.Op == "faddr" && sameBytes(e.Val) == param(p, 1) {
				out = e.Loc.S
			}
		}
	}
	if out == "" {
		c.bad("anchor", name, "%s does not keep its argument", name)
	}
	return out
}

// encrypts: AES calls of a path with their plaintext and result.
type sealed struct {
	enter, leave *Event
}

func (t *Trace) aesCalls(m string) []sealed {
	var out []sealed
	var open []*Event
	for _, e := range t.Events {
		switch e.Kind {
		case "enter":
			if e.Name == "(*crypto.AES)."+m {
				open = append(open, e)
			}
		case "leave":
			if e.Name == "(*"+modulePath+"/crypto.AES)."+m || strings.HasSuffix(e.Name, "crypto.AES)."+m) {
				if n := len(open); n > 0 {
					out = append(out, sealed{open[n-1], e})
					open = open[:n-1]
				}
			}
		}
	}
	return out
}

// keyed: the AES object works under the key.
func (t *Trace) underKey(obj *Term, isKey func(*Term) bool) bool {
	fs := t.fieldsOf(obj)
	n := 0
	for _, v := range fs {
		if isKey(sameBytes(v)) {
			n++
		}
	}
	return n == 1
}

// serial: the value is the encoding of the files, completely in memory.
func (t *Trace) serial(v *Term, files string) (enc *Event) {
	v = sameBytes(v)
	b := t.produced(v, 0, "(*bytes.Buffer).Bytes")
	if b == nil {
		return nil
	}
	buf := b.Args[0]
	if !emptyBuffer(buf) {
		return nil
	}
	for _, u := range t.uses(buf) {
		switch u.Name {
		case "encoding/gob.NewEncoder":
			for _, w := range t.uses(res(u, 0)) {
				if w.Name != "(*encoding/gob.Encoder).Encode" || enc != nil || w.Seq > b.Seq || place(unface(w.Args[1])) != files {
					return nil
				}
				enc = w
			}
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Len", "bytes.NewBuffer":
		default:
			return nil
		}
	}
	return enc
}

func ruleF01(c *Chk) {
	s := c.shape()
	key, path := c.option("WithAES"), c.option("WithSavePath")
	p := c.P("crypto_fs.CryptoFSBuilder.Save")
	if s == nil || p == nil || key == "" || path == "" {
		return
	}
	isKey := func(v *Term) bool {
		return v != nil && isField(v, key, param(p, 0))
	}
	for _, t := range ends(p, "return", "panic", "back") {
		if !c.check("total", t.End == "return" && len(t.Ret) == 1, t, nil, "Save may panic or loop") {
			continue
		}
		noKey := false
		for _, f := range t.Facts {
			if f.Val && f.Atom.Op == "eq" {
				for i, x := range f.Atom.Args {
					noKey = noKey || isKey(x) && f.Atom.Args[1-i].IsNil()
				}
			}
		}
		// what may go to disk
		var used []*Event // calls that must have succeeded
		whole := func(v *Term, e *Event) bool {
			if enc := t.serial(v, s.built); enc != nil {
				used = append(used, enc)
				return c.check("sealed", noKey, t, e, "the serialised files are written in the clear although a secret may be set")
			}
			for _, a := range t.aesCalls("Encrypt") {
				if len(a.leave.Args) != 2 || sameBytes(v) != a.leave.Args[0] || a.leave.Seq > e.Seq {
					continue
				}
				enc := t.serial(a.enter.Args[1], s.built)
				if !c.check("sealed", enc != nil && t.underKey(a.enter.Args[0], isKey), t, e, "what is encrypted is not exactly the serialised files under the configured secret") {
					return false
				}
				if enc.Seq > a.enter.Seq {
					return c.check("sealed", false, t, e, "the files are encrypted before they are serialised")
				}
				used = append(used, enc)
				x := a.leave.Args[1]
				c.check("reported", t.fails() || x.IsNil() || t.Facts.Eval(tEq(x, tNil)) == 1, t, e, "Save goes on although the encryption may have failed")
				return true
			}
			return c.check("sealed", false, t, e, "something else than the serialised files or their encryption is written")
		}
		fileOf := map[*Term]*Event{}
		var targets []*Term // names written to
		writes := 0
		closed := map[*Term]bool{}
		for _, e := range t.of("call", "go", "callback") {
			n := e.Name
			switch {
			case n == "os.Create" || n == "os.OpenFile" || n == "os.CreateTemp" || n == "io/ioutil.TempFile":
				f := res(e, 0)
				fileOf[f] = e
				used = append(used, e)
				switch n {
				case "os.Create":
					targets = append(targets, e.Args[0])
				case "os.OpenFile":
					targets = append(targets, e.Args[0])
					fl, ok := e.Args[1].Int()
					c.check("target", ok && fl&0x200 != 0 && fl&0x40 != 0 && fl&3 != 0 && fl&0x400 == 0, t, e, "an archive that was there before is not replaced completely")
				default:
					targets = append(targets, f)
				}
				continue
			case n == "os.WriteFile" || n == "io/ioutil.WriteFile":
				used = append(used, e)
				writes++
				targets = append(targets, e.Args[0])
				whole(e.Args[1], e)
				continue
			case n == "os.Rename":
				used = append(used, e)
				from := e.Args[0]
				for i, x := range targets {
					if x == from || from.IsCall("(*os.File).Name") && from.Args[0] == x {
						targets[i] = e.Args[1]
						for f, o := range fileOf {
							if len(o.Args) > 0 && o.Args[0] == x || f == x {
								c.check("reported", closed[f], t, e, "the archive is moved into place before it is closed")
							}
						}
					}
				}
				continue
			}
			// uses of an open file
			var f *Term
			at := -1
			for i, a := range e.Args {
				if x := unface(a); fileOf[x] != nil {
					f, at = x, i
				}
			}
			if f == nil {
				continue
			}
			switch {
			case n == "(*os.File).Write" || n == "(*os.File).WriteString" && at == 0:
				writes++
				used = append(used, e)
				whole(bytesOf(e.Args[1]), e)
				c.check("reported", !closed[f], t, e, "the archive is written after it was closed")
			case n == "io.Copy" && at == 0:
				writes++
				used = append(used, e)
				if d := readerOver(t, e.Args[1]); d != nil {
					whole(d, e)
				} else {
					c.check("sealed", false, t, e, "something else than the serialised files or their encryption is written")
				}
			case n == "(*bytes.Buffer).WriteTo" || n == "(*bytes.Reader).WriteTo":
				writes++
				used = append(used, e)
				if d := readerOver(t, e.Args[0]); d != nil {
					whole(d, e)
				} else if enc := t.bufferSerial(e.Args[0], s.built); enc != nil {
					used = append(used, enc)
					c.check("sealed", noKey, t, e, "the serialised files are written in the clear although a secret may be set")
				} else {
					c.check("sealed", false, t, e, "something else than the serialised files or their encryption is written")
				}
			case n == "encoding/gob.NewEncoder":
				for _, w := range t.uses(res(e, 0)) {
					writes++
					used = append(used, w)
					c.check("sealed", noKey && w.Name == "(*encoding/gob.Encoder).Encode" && place(unface(w.Args[1])) == s.built, t, w, "the serialised files are written in the clear although a secret may be set")
				}
			case n == "(*os.File).Close":
				closed[f] = true
			case n == "(*os.File).Sync" || n == "(*os.File).Chmod":
				used = append(used, e)
			case n == "(*os.File).Name" || n == "(*os.File).Stat" || n == "os.Remove":
			default:
				c.check("sealed", false, t, e, "the archive file is used otherwise (%s)", lastSeg(n))
			}
		}
		for _, e := range t.of("go", "send", "callback") {
			c.check("total", false, t, e, "part of Save goes on elsewhere")
		}
		if t.fails() {
			continue
		}
		// a call that may report success
		for _, x := range targets {
			c.check("target", isField(x, path, param(p, 0)), t, nil, "the archive is not what the configured path names in the end")
		}
		c.check("written", writes == 1, t, nil, "Save may report success with %d complete writes of the archive", writes)
		for _, e := range used {
			c.check("reported", t.reported(e), t, e, "Save may report success although %s failed", lastSeg(e.Name))
		}
		for f, o := range fileOf {
			ok := false
			for _, e := range t.calls("(*os.File).Close") {
				if e.Args[0] == f && t.reported(e) {
					ok = true
				}
			}
			c.check("reported", ok, t, o, "Save may report success although closing the file failed")
		}
	}
	c.atLeast("sealed", 2)
	c.atLeast("reported", 2)
	c.atLeast("written", 2)
	c.atLeast("target", 2)
}

// bufferSerial: the buffer holds exactly the encoding of the files.
func (t *Trace) bufferSerial(b *Term, files string) (enc *Event) {
	if !emptyBuffer(b) {
		return nil
	}
	for _, u := range t.uses(b) {
		switch u.Name {
		case "encoding/gob.NewEncoder":
			for _, w := range t.uses(res(u, 0)) {
				if w.Name != "(*encoding/gob.Encoder).Encode" || enc != nil || place(unface(w.Args[1])) != files {
					return nil
				}
				enc = w
			}
		case "(*bytes.Buffer).WriteTo", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Len", "bytes.NewBuffer", "io.Copy":
		default:
			return nil
		}
	}
	return enc
}

// reported: a failure of the call cannot end in success.
func (t *Trace) reported(e *Event) bool {
	if t.okCall(e) || t.ownErr(e) || t.fails() {
		return true
	}
	x := errTerm(e)
	if r := t.Ret[len(t.Ret)-1]; r.IsCall("errors.Join") {
		for _, a := range r.Args {
			if a == x || a.Op == "arr" && containsTerm(a.Args, x) {
				return true
			}
		}
	}
	return false
}

func containsTerm(l []*Term, x *Term) bool {
	for _, a := range l {
		if a == x {
			return true
		}
	}
	return false
}

// ---- F03 ----

func ruleF03(c *Chk) {
	p := c.P("crypto_fs.CryptoFSFromFile")
	_, files := c.fsType("loaded")
	if p == nil || files == "" {
		return
	}
	path, secret := param(p, 0), param(p, 1)
	for _, t := range ends(p, "return", "panic", "back") {
		if !c.check("total", t.End == "return" && len(t.Ret) == 2, t, nil, "CryptoFSFromFile may panic or loop") {
			continue
		}
		noKey := t.Facts.Eval(tEq(secret, tNil)) == 1
		// raw: the whole archive as it is on disk
		var need []*Event
		raw := func(v *Term) bool {
			v = sameBytes(v)
			if e := t.produced(v, 0, "os.ReadFile", "io/ioutil.ReadFile"); e != nil && e.Args[0] == path {
				need = append(need, e)
				return true
			}
			if r, by := t.readAll(v); r != nil {
				if o := t.produced(unface(r), 0, "os.Open"); o != nil && o.Args[0] == path {
					need = append(need, o, by)
					return true
				}
			}
			return false
		}
		// every decoding reads what may be decoded
		var decs []*Event
		for _, d := range t.calls("(*encoding/gob.Decoder).Decode") {
			decs = append(decs, d)
			nd := t.produced(d.Args[0], 0, "encoding/gob.NewDecoder")
			if !c.check("source", nd != nil, t, d, "the decoder's source is unknown") {
				continue
			}
			src := unface(nd.Args[0])
			v := readerOver(t, src)
			if v == nil {
				o := t.produced(src, 0, "os.Open")
				if o != nil && o.Args[0] == path {
					need = append(need, o)
					c.check("authentic", noKey, t, d, "archive bytes are decoded unauthenticated although a secret may be given")
					continue
				}
				c.check("source", false, t, d, "something else than the archive is decoded")
				continue
			}
			var dec *sealed
			for _, a := range t.aesCalls("Decrypt") {
				if len(a.leave.Args) == 2 && a.leave.Args[0] == v {
					x := a
					dec = &x
				}
			}
			switch {
			case dec != nil:
				ok := t.underKey(dec.enter.Args[0], func(k *Term) bool { return k == secret }) && raw(dec.enter.Args[1])
				c.check("source", ok, t, d, "what is decrypted is not the whole archive under the given secret")
				x := dec.leave.Args[1]
				c.check("authentic", x.IsNil() || t.at(d).Eval(tEq(x, tNil)) == 1, t, d, "data is decoded although its authentication did not succeed")
			case raw(v):
				c.check("authentic", noKey, t, d, "archive bytes are decoded unauthenticated although a secret may be given")
			default:
				c.check("source", false, t, d, "something else than the archive is decoded")
			}
		}
		for _, e := range t.of("call") {
			if isMethod(e, "DecodeValue") || isMethod(e, "Unmarshal") {
				c.check("source", false, t, e, "something else than the archive is decoded")
			}
		}
		if isNilVal(t.Ret[0]) {
			ok := t.fails()
			for _, e := range t.of("call") {
				ok = ok || t.ownErr(e) && t.Facts.Eval(tEq(errTerm(e), tNil)) == -1
			}
			c.check("error", ok, t, nil, "CryptoFSFromFile returns neither a file system nor an error")
			continue
		}
		c.check("error", isNilVal(t.Ret[1]), t, nil, "CryptoFSFromFile returns a file system together with a possible error")
		if !c.check("loaded", len(decs) == 1, t, nil, "CryptoFSFromFile succeeds with %d decodings of the archive", len(decs)) {
			continue
		}
		d := decs[0]
		dst := unface(d.Args[1])
		r, pth := norm(dst)
		into := r == t.Ret[0] && len(pth) == 1 && pth[0] == files
		if r.Op == "new" && len(pth) == 0 {
			fv := t.finalField(t.Ret[0], files)
			into = into || fv != nil && fv.Op == "load" && fv.Args[0] == r
			for _, e := range t.of("store") {
				into = into && !(e.Loc == r && e.Seq > d.Seq)
			}
		}
		for _, e := range t.of("store") {
			if e.Seq > d.Seq && e.Loc.Op == "faddr" && e.Loc.S == files && e.Loc == dst {
				into = false
			}
		}
		for _, e := range t.mapEvs(files, "mapset", "mapdel", "mapclear") {
			into = into && e.Seq < d.Seq
		}
		c.check("loaded", into, t, d, "the decoded entries are not what the file system serves")
		c.check("checked", t.okCall(d), t, d, "CryptoFSFromFile succeeds although decoding failed")
		for _, e := range need {
			c.check("checked", t.okCall(e), t, e, "CryptoFSFromFile succeeds although %s failed", lastSeg(e.Name))
		}
	}
	c.atLeast("source", 1)
	c.atLeast("authentic", 2)
	c.atLeast("loaded", 2)
	c.atLeast("checked", 2)
	c.atLeast("error", 2)
}

// ---- F04 ----

// fileName: the value is the name of the file at this path.
func (t *Trace) fileName(v, path *Term) bool {
	switch {
	case v == nil:
		return false
	case v == path:
		return true
	case v.IsCall("path.Base", "path/filepath.Base"):
		return v.Args[0] == path
	case v.IsCall("(*os.File).Name"):
		o := t.produced(v.Args[0], 0, "os.Open", "os.OpenFile")
		return o != nil && o.Args[0] == path && t.okCall(o)
	case v.IsCall("(io/fs.FileInfo).Name"):
		return t.statOf(v.Args[0], path)
	}
	return false
}

// statOf: the value describes the file at this path.
func (t *Trace) statOf(v, path *Term) bool {
	if e := t.produced(v, 0, "os.Stat", "os.Lstat"); e != nil {
		return e.Args[0] == path && t.okCall(e)
	}
	if e := t.produced(v, 0, "(*os.File).Stat"); e != nil {
		o := t.produced(e.Args[0], 0, "os.Open")
		return o != nil && o.Args[0] == path && t.okCall(o) && t.okCall(e)
	}
	return false
}

// content: the value is all that the file at this path holds.
func (t *Trace) content(v, path *Term) bool {
	v = sameBytes(v)
	if e := t.produced(v, 0, "os.ReadFile", "io/ioutil.ReadFile"); e != nil {
		return e.Args[0] == path && t.okCall(e)
	}
	if r, by := t.readAll(v); r != nil {
		o := t.produced(unface(r), 0, "os.Open")
		return o != nil && o.Args[0] == path && t.okCall(o) && t.okCall(by)
	}
	return false
}

// failed: some call on the path is known to have failed.
func (t *Trace) failedCall() bool {
	for _, e := range t.of("call") {
		if x := errTerm(e); x != nil && t.Facts.Eval(tEq(x, tNil)) == -1 {
			return true
		}
	}
	return false
}

// listed: the value is the full listing of the directory at this path.
func (c *Chk) listed(t *Trace, v, root *Term, s *fsShape) bool {
	for _, e := range t.calls("os.ReadDir", "io/ioutil.ReadDir") {
		if e.Args[0] != root || !t.okCall(e) {
			continue
		}
		l := res(e, 0)
		if t.mapped(v, tLen(l), func(it *Trace, val, i *Term) bool {
			fs := it.fieldsOf(val)
			isElem := func(x *Term, m string) bool {
				if x == nil || !x.IsCall("(io/fs.DirEntry)."+m, "(io/fs.FileInfo)."+m) {
					return false
				}
				el, idx, ok := elemIndex(x.Args[0])
				return ok && el == l && linDiffZero(idx, i)
			}
			if !isElem(fs[s.name], "Name") || !isElem(fs[s.dir], "IsDir") {
				return false
			}
			if p := fs[s.path]; s.path != "" {
				return p != nil && (joined(p, root, func(x *Term) bool { return isElem(x, "Name") }))
			}
			return true
		}) {
			return true
		}
	}
	return false
}

// joined: the path of something inside a directory.
func joined(p, dir *Term, name func(*Term) bool) bool {
	if p.IsCall("path/filepath.Join", "path.Join") && len(p.Args) == 1 && p.Args[0].Op == "arr" {
		a := p.Args[0].Args
		return len(a) == 2 && a[0] == dir && name(a[1])
	}
	return false
}

func ruleF04(c *Chk) {
	s := c.shape()
	if s == nil {
		return
	}
	s = c.entryKeys(s)
	if s == nil {
		return
	}
	// AddFile
	p := c.P("crypto_fs.CryptoFSBuilder.AddFile")
	path := param(p, 1)
	for _, t := range ends(p, "return", "panic", "back") {
		if !c.check("total", t.End == "return", t, nil, "AddFile may panic or loop") {
			continue
		}
		n := 0
		for _, e := range t.mapEvs(s.built) {
			switch e.Kind {
			case "mapset":
				n++
				fs := t.fieldsOf(e.Val)
				c.check("file", e.Key == path, t, e, "a file is not stored under its own path")
				c.check("file", t.content(fs[s.data], path), t, e, "a file is stored with something else than its full content, or although reading it failed")
				c.check("file", t.fileName(fs[s.name], path), t, e, "a file is stored under another name than its own")
				k := fs[s.dir]
				ok := k == nil || k.IsFalse() || k.Op == "zero" || k.IsCall("(io/fs.FileInfo).IsDir") && t.statOf(k.Args[0], path)
				c.check("file", ok, t, e, "a file is not stored as one")
				if s.path != "" {
					c.check("file", fs[s.path] == path, t, e, "a file is stored with another path than its own")
				}
			case "mapdel", "mapclear":
				c.check("file", false, t, e, "AddFile removes entries")
			}
		}
		c.check("file", n == 1 || n == 0 && t.failedCall(), t, nil, "AddFile leaves out a file that could be read, or stores it %d times", n)
		c.check("chain", len(t.Ret) == 1 && t.Ret[0] == param(p, 0), t, nil, "AddFile does not return its builder")
	}
	// AddFolder
	p = c.P("crypto_fs.CryptoFSBuilder.AddFolder")
	root := c.option("WithRootDir")
	q, _ := c.walker(p)
	if q == nil {
		return
	}
	for _, t := range ends(p, "return", "panic", "back") {
		if !c.check("total", t.End == "return", t, nil, "AddFolder may panic or loop") {
			continue
		}
		ws := t.calls("path/filepath.Walk", "path/filepath.WalkDir")
		ok := len(ws) == 1 && len(ws[0].Args) == 2 && c.procOf(p, ws[0].Args[1]) == q
		if ok {
			a := ws[0].Args[0]
			ok = a.IsCall("path.Join", "path/filepath.Join") && len(a.Args) == 1 && a.Args[0].Op == "arr" && len(a.Args[0].Args) == 2 &&
				place(a.Args[0].Args[0]) == root && a.Args[0].Args[1] == param(p, 1)
		}
		c.check("walk", ok, t, nil, "AddFolder does not walk exactly the folder under the root directory")
		for _, e := range t.mapEvs(s.built, "mapset", "mapdel", "mapclear") {
			c.check("walk", false, t, e, "AddFolder changes entries outside the walk")
		}
	}
	at, info, werr := walkParams(q)
	for _, t := range ends(q, "return", "panic") {
		if !c.check("total", t.End == "return" && len(t.Ret) == 1, t, nil, "the walk may panic") {
			continue
		}
		// nothing may be asked of a file that could not be examined
		for _, e := range t.of("call") {
			if len(e.Args) > 0 && e.Args[0] == info {
				c.check("total", t.at(e).Eval(tEq(werr, tNil)) == 1 || t.at(e).Eval(tEq(info, tNil)) == -1, t, e, "the walk may panic on a path that could not be read")
			}
		}
		n := 0
		for _, e := range t.mapEvs(s.built) {
			switch e.Kind {
			case "mapset":
				n++
				fs := t.fieldsOf(e.Val)
				dir := 0
				for _, x := range t.of("call") {
					if isInfo(x.Res, "IsDir", info) {
						dir = t.truth(x.Res)
					}
				}
				c.check("stored", t.at(e).Eval(tEq(werr, tNil)) == 1, t, e, "an entry is stored although its path could not be read")
				c.check("stored", e.Key == at, t, e, "an entry is not stored under its own path")
				c.check("stored", isInfo(fs[s.name], "Name", info), t, e, "an entry is stored under another name than its own")
				if s.path != "" {
					c.check("stored", fs[s.path] == at, t, e, "an entry is stored with another path than its own")
				}
				k := fs[s.dir]
				kind := isInfo(k, "IsDir", info) || dir == 1 && k != nil && k.IsTrue() || dir == -1 && (k == nil || k.IsFalse() || k.Op == "zero")
				c.check("stored", kind && dir != 0, t, e, "an entry is not stored as what it is")
				if dir == 1 {
					c.check("directory", c.listed(t, fs[s.items], at, s), t, e, "a directory is stored with something else than its full listing, or although listing it failed")
					c.check("directory", fs[s.data] == nil || emptyList(fs[s.data]), t, e, "a directory is stored with content")
				} else {
					c.check("content", t.content(fs[s.data], at), t, e, "a file is stored with something else than its full content, or although reading it failed")
				}
			case "mapdel", "mapclear":
				c.check("stored", false, t, e, "the walk removes entries")
			}
		}
		if n > 0 {
			c.check("goes-on", n == 1 && t.Ret[0].IsNil(), t, nil, "the walk stops although the entry was stored")
		} else {
			c.check("goes-on", t.failedCall() || t.Facts.Eval(tEq(werr, tNil)) == -1, t, nil, "the walk leaves out an entry that could be read")
		}
	}
	c.atLeast("file", 3)
	c.atLeast("walk", 1)
	c.atLeast("stored", 3)
	c.atLeast("directory", 1)
	c.atLeast("content", 1)
	c.atLeast("goes-on", 2)
}

func init() {
	register("F01", "path-sensitive taint: what reaches a file-writing call must be the complete serialisation on paths that know no secret is set, or the result of the authenticated encryption of it; every failing call must leave the function as a failure", ruleF01)
	register("F02", "accessor composition: the handle built by Open is followed symbolically through Stat, Read and the accessors back to the fields of the looked-up entry; loop coverage of listings; no writes to stored fields", ruleF02)
	register("F03", "path-sensitive typestate read - authenticate - decode, with every decoder's source traced back to its bytes", ruleF03)
	register("F04", "path-sensitive relation of every stored entry to the successful reads of its own path; loop coverage of directory listings; must-store on paths without a failed call", ruleF04)
}

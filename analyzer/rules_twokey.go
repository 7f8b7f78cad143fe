package main

import (
	"fmt"
	"go/types"
	"sort"
)

// Decides the operations of TwoKeyMap. An operation only compares keys for
// equality and only touches keys it was given or found by looking those up, so
// its effect is determined by how its keys are linked beforehand. There are
// finitely many such arrangements (plus a bystander link, which also stands
// for the zero key an absent lookup yields); the effect of every path is
// evaluated over the symbolic keys of each arrangement it is consistent with
// and compared with the specified effect.

// tkCell is what a table holds for a key: a plain value (part "") or the
// fields of a struct, held directly or by pointer.
type tkCell struct {
	parts map[string]string
	null  bool
}

// tkTable is one table of the type: which key it is indexed by and what its
// values hold ("1" and "2" the keys of the link, "v" the value).
type tkTable struct {
	Field string
	Side  int
	Parts map[string]string
	Ptr   bool
	Group *Term // the object shared with other tables
}

type tkWorld struct {
	link   map[string]string // first to second key
	val    map[string]string // value by first key
	tables map[string]map[string]*tkCell
	env    map[*Term]string
	cells  map[*Term]*tkCell
	z      map[string]string // what the zero values of the roles stand for
	types  map[string]string // types of the roles
	links  string            // how the keys are linked beforehand
}

// build fills the tables from the links.
func (w *tkWorld) build(ts []*tkTable) map[string]map[string]*tkCell {
	out := map[string]map[string]*tkCell{}
	for _, t := range ts {
		out[t.Field] = map[string]*tkCell{}
	}
	for k1, k2 := range w.link {
		role := map[string]string{"1": k1, "2": k2, "v": w.val[k1]}
		shared := map[*Term]*tkCell{}
		for _, t := range ts {
			c := shared[t.Group]
			if c == nil || t.Group == nil {
				c = &tkCell{parts: map[string]string{}}
				for p, r := range t.Parts {
					c.parts[p] = role[r]
				}
				shared[t.Group] = c
			}
			if t.Side == 1 {
				out[t.Field][k1] = c
			} else {
				out[t.Field][k2] = c
			}
		}
	}
	return out
}

func (w *tkWorld) eval(t *Term) (string, bool) {
	if t == nil {
		return "", false
	}
	if v, ok := w.env[t]; ok {
		return v, true
	}
	switch t.Op {
	case "not":
		if v, ok := w.eval(t.Args[0]); ok {
			return map[string]string{"true": "false", "false": "true"}[v], true
		}
		return "", false
	case "const":
		return t.S, t.S == "true" || t.S == "false"
	case "fld":
		if c := w.cells[t.Args[0]]; c != nil {
			v, ok := c.parts[t.S]
			return v, ok
		}
	case "eq":
		for i, a := range t.Args {
			if c := w.cells[t.Args[1-i]]; a.IsNil() && c != nil {
				return fmt.Sprint(c.null), true
			}
		}
		x, okx := w.eval(t.Args[0])
		y, oky := w.eval(t.Args[1])
		if okx && oky {
			return fmt.Sprint(x == y), true
		}
		return "", false
	}
	if isZeroVal(t) && t.T != nil {
		for r, n := range w.types {
			if t.T.String() == n {
				return w.z[r], true
			}
		}
		if t.T.String() == "bool" {
			return "false", true
		}
	}
	return "", false
}

// feasible: nothing the path established contradicts the arrangement.
func (w *tkWorld) feasible(t *Trace) bool {
	for _, f := range t.Facts {
		if v, ok := w.eval(f.Atom); ok && (v == "true") != f.Val {
			return false
		}
	}
	return true
}

func (w *tkWorld) returns(t *Trace, v string, ok bool) string {
	if len(t.Ret) != 2 {
		return "does not return a value and whether it exists"
	}
	if !ok {
		v = "zero"
	}
	gv, kv := w.eval(t.Ret[0])
	gok, kok := w.eval(t.Ret[1])
	if !kok || gok != fmt.Sprint(ok) {
		return "does not report whether the key is linked"
	}
	if !ok && isZeroVal(t.Ret[0]) {
		return ""
	}
	if !kv || gv != v {
		return "does not return the value stored for the key"
	}
	return ""
}

// diff compares the tables with what they should hold.
func (tk *twoKeys) diff(got, want map[string]map[string]*tkCell) string {
	for _, t := range tk.tables {
		side := map[int]string{1: "first", 2: "second"}[t.Side]
		what := "entry"
		if t.Parts[""] != "" {
			what = map[string]string{"1": "link to the first key", "2": "link to the second key", "v": "value"}[t.Parts[""]]
		}
		for _, k := range sortedKeys(want[t.Field]) {
			g := got[t.Field][k]
			if g == nil {
				return fmt.Sprintf("the %s of %s is missing (table by %s key)", what, tkName[k], side)
			}
			for p, v := range want[t.Field][k].parts {
				if g.parts[p] != v {
					return fmt.Sprintf("the %s of %s is wrong (table by %s key)", what, tkName[k], side)
				}
			}
		}
		for _, k := range sortedKeys(got[t.Field]) {
			if want[t.Field][k] == nil {
				return fmt.Sprintf("a %s of %s is left behind (table by %s key)", what, tkName[k], side)
			}
		}
	}
	return ""
}

var tkName = map[string]string{"k1": "the first key", "k2": "the second key", "o1": "the first key formerly linked to the second key",
	"o2": "the second key formerly linked to the first key", "w1": "an unrelated link", "w2": "an unrelated link", "z1": "a zero key", "z2": "a zero key"}

type twoKeys struct {
	c      *Chk
	tables []*tkTable
	types  map[string]string
}

// findTables: the tables Put fills, and what each holds.
func (c *Chk) twoKeyTables(name string) *twoKeys {
	tk := &twoKeys{c: c, types: map[string]string{}}
	p := c.P(name)
	if p == nil {
		return nil
	}
	by := map[string]*tkTable{}
	for _, t := range returns(p) {
		role := func(v *Term) string {
			for i, r := range []string{"1", "2", "v"} {
				if v != nil && (v == param(p, i+1) || t.eq(v, param(p, i+1))) {
					return r
				}
			}
			return ""
		}
		for _, e := range t.of("mapset") {
			f, k := place(e.Map), role(e.Key)
			if f == "" || k != "1" && k != "2" {
				continue
			}
			x := &tkTable{Field: f, Side: int(k[0] - '0'), Parts: map[string]string{}}
			switch {
			case role(e.Val) != "":
				x.Parts[""] = role(e.Val)
			case e.Val.Op == "mk":
				for i, a := range e.Val.Args {
					if r := role(a); r != "" {
						x.Parts[fieldKey(e.Val.T, i)] = r
					}
				}
			case e.Val.Op == "new":
				x.Ptr, x.Group = true, e.Val
				for _, s := range t.of("store") {
					if s.Loc.Op == "faddr" && s.Loc.Args[0] == e.Val && role(s.Val) != "" {
						x.Parts[s.Loc.S] = role(s.Val)
					}
				}
			}
			if old := by[f]; old == nil || len(old.Parts) < len(x.Parts) {
				by[f] = x
			}
		}
	}
	have := map[string]bool{}
	for _, f := range sortedKeys(by) {
		x := by[f]
		tk.tables = append(tk.tables, x)
		for _, r := range x.Parts {
			have[fmt.Sprint(x.Side)+r] = true
		}
	}
	for i, r := range []string{"1", "2", "v"} {
		if param(p, i+1) != nil {
			tk.types[r] = param(p, i+1).T.String()
		}
	}
	// both directions and the value can be found
	if !have["12"] || !have["21"] || !have["1v"] && !have["2v"] {
		return nil
	}
	return tk
}

func (tk *twoKeys) table(f string) *tkTable {
	for _, t := range tk.tables {
		if f != "" && t.Field == f {
			return t
		}
	}
	return nil
}

// changes: the events of the path that change a table or an entry.
func (tk *twoKeys) changes(t *Trace) []*Event {
	var out []*Event
	for _, e := range t.Events {
		for _, f := range tk.tables {
			if mapChange(e, f.Field) && !e.Fresh || e.Kind == "store" && !e.Fresh && e.Loc.Op == "faddr" && f.Ptr && f.Parts[e.Loc.S] != "" {
				out = append(out, e)
				break
			}
		}
	}
	return out
}

// arrangements lists the ways the keys k1 and k2 can be linked beforehand.
func (tk *twoKeys) arrangements() []*tkWorld {
	var out []*tkWorld
	for _, links := range [][][2]string{{}, {{"k1", "o2"}}, {{"o1", "k2"}}, {{"k1", "k2"}}, {{"k1", "o2"}, {"o1", "k2"}}} {
		for _, z1 := range []string{"z1", "w1", "k1", "o1"} {
			for _, z2 := range []string{"z2", "w2", "k2", "o2"} {
				w := &tkWorld{link: map[string]string{"w1": "w2"}, val: map[string]string{"w1": "vw"}, env: map[*Term]string{}, cells: map[*Term]*tkCell{},
					z: map[string]string{"1": z1, "2": z2, "v": "zero"}, types: tk.types}
				w.links = "neither key"
				for i, l := range links {
					if i == 0 {
						w.links = ""
					} else {
						w.links += ", "
					}
					w.links += tkName[l[0]] + " to " + tkName[l[1]]
					w.link[l[0]], w.val[l[0]] = l[1], "value of "+l[0]
				}
				w.tables = w.build(tk.tables)
				out = append(out, w)
			}
		}
	}
	return out
}

// by2: the first key linked to the second key.
func (w *tkWorld) by2(k2 string) (string, bool) {
	for a, b := range w.link {
		if b == k2 {
			return a, true
		}
	}
	return "", false
}

func (w *tkWorld) unlink(k1 string) {
	delete(w.link, k1)
	delete(w.val, k1)
}

func (tk *twoKeys) op(rule, name string, params []string, spec func(w *tkWorld, t *Trace) string) {
	c := tk.c
	p := c.P(name)
	if p == nil {
		return
	}
	for _, t := range returns(p) {
		for _, w := range tk.arrangements() {
			for i, n := range params {
				w.env[param(p, i+1)] = n
			}
			msg, ev, feasible := tk.run(w, t)
			if !feasible {
				continue
			}
			ret := spec(w, t)
			if msg == "" {
				msg = tk.diff(w.tables, w.build(tk.tables))
			}
			if msg == "" {
				msg = ret
			}
			c.check(rule, msg == "", t, ev, "%s (linked beforehand: %s)", msg, w.links)
		}
	}
}

// run evaluates the table accesses of the path.
func (tk *twoKeys) run(w *tkWorld, t *Trace) (msg string, ev *Event, feasible bool) {
	for _, e := range t.Events {
		if e.Kind == "store" && e.Loc.Op == "faddr" {
			if tk.table(e.Loc.S) != nil {
				return "a whole table is replaced", e, w.feasible(t)
			}
			base := e.Loc.Args[0]
			cell := w.cells[base]
			if base.Op == "new" {
				if cell == nil {
					cell = &tkCell{parts: map[string]string{}}
					w.cells[base] = cell
				}
			}
			if cell != nil {
				v, ok := w.eval(e.Val)
				if !ok {
					v = "?"
				}
				cell.parts[e.Loc.S] = v
			}
			continue
		}
		if e.Kind == "load" && e.Loc.Op == "faddr" {
			if cell := w.cells[e.Loc.Args[0]]; cell != nil && e.Val != nil {
				if v, ok := cell.parts[e.Loc.S]; ok {
					w.env[e.Val] = v
				}
			}
			continue
		}
		if e.Map == nil || tk.table(place(e.Map)) == nil {
			continue
		}
		tb := tk.table(place(e.Map))
		m := w.tables[tb.Field]
		switch e.Kind {
		case "mapget", "mapset", "mapdel":
		case "mapclear":
			return "a whole table is emptied", e, w.feasible(t)
		default:
			continue
		}
		k, ok := w.eval(e.Key)
		if !ok {
			return "an entry is accessed by something other than the keys of a link", e, w.feasible(t)
		}
		switch e.Kind {
		case "mapget":
			cell := m[k]
			if e.Ok != nil {
				v := fmt.Sprint(cell != nil)
				if old, known := w.eval(e.Ok); known && old != v {
					return "", nil, false
				}
				w.env[e.Ok] = v
			}
			if e.Res == nil {
				break
			}
			if cell == nil {
				cell = &tkCell{parts: map[string]string{}, null: tb.Ptr}
				for p, r := range tb.Parts {
					cell.parts[p] = w.z[r]
				}
			} else if !tb.Ptr {
				c := &tkCell{parts: map[string]string{}}
				for p, v := range cell.parts {
					c.parts[p] = v
				}
				cell = c
			}
			if v, plain := cell.parts[""]; plain {
				if old, known := w.eval(e.Res); known && old != v {
					return "", nil, false
				}
				w.env[e.Res] = v
			} else if !e.Res.IsNil() && !isZeroVal(e.Res) {
				w.cells[e.Res] = cell
			}
		case "mapset":
			cell := w.cells[e.Val]
			if cell == nil || !tb.Ptr {
				c := &tkCell{parts: map[string]string{}}
				for p := range tb.Parts {
					v, known := "?", false
					switch {
					case p == "":
						v, known = w.eval(e.Val)
					case cell != nil:
						v, known = cell.parts[p]
					case e.Val.Op == "mk":
						if i := fieldIndex(e.Val.T, p); i >= 0 && i < len(e.Val.Args) {
							v, known = w.eval(e.Val.Args[i])
						}
					}
					if !known {
						v = "?"
					}
					c.parts[p] = v
				}
				cell = c
			}
			m[k] = cell
		case "mapdel":
			delete(m, k)
		}
		if !w.feasible(t) {
			return "", nil, false
		}
	}
	return "", nil, w.feasible(t)
}

func fieldIndex(t types.Type, key string) int {
	if t == nil {
		return -1
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if fieldKey(t, i) == key {
			return i
		}
	}
	return -1
}

func ruleT01(c *Chk) {
	n := "collections.TwoKeyMap."
	tk := c.twoKeyTables(n + "Put")
	if tk == nil {
		c.bad("anchor", n+"Put", "the tables linking the two keys were not found")
		return
	}
	// every operation, on every arrangement of the links of its keys
	tk.op("put", n+"Put", []string{"k1", "k2", "v"}, func(w *tkWorld, t *Trace) string {
		w.unlink("k1")
		if o, ok := w.by2("k2"); ok {
			w.unlink(o)
		}
		w.link["k1"], w.val["k1"] = "k2", "v"
		return ""
	})
	tk.op("remove", n+"Remove", []string{"k1"}, func(w *tkWorld, t *Trace) string {
		w.unlink("k1")
		return ""
	})
	tk.op("remove2", n+"RemoveByK2", []string{"k2"}, func(w *tkWorld, t *Trace) string {
		if o, ok := w.by2("k2"); ok {
			w.unlink(o)
		}
		return ""
	})
	tk.op("get", n+"Get", []string{"k1"}, func(w *tkWorld, t *Trace) string {
		v, ok := w.val["k1"]
		return w.returns(t, v, ok)
	})
	tk.op("get2", n+"GetByK2", []string{"k2"}, func(w *tkWorld, t *Trace) string {
		o, ok := w.by2("k2")
		return w.returns(t, w.val[o], ok)
	})
	for _, r := range []string{"put", "remove", "remove2", "get", "get2"} {
		c.atLeast(r, 2)
	}
	listing := func(name string, role string) {
		for _, t := range returns(c.P(name)) {
			m, what, ok := t.collected(t.Ret[0])
			good := false
			for _, x := range tk.tables {
				if !ok || place(m) != x.Field {
					continue
				}
				switch {
				case what.Op == "rkey":
					good = good || fmt.Sprint(x.Side) == role
				case what.Op == "rval":
					good = good || x.Parts[""] == role
				case (what.Op == "fld" || what.Op == "load") && len(what.Args) == 1:
					b := what.Args[0]
					part := what.S
					if what.Op == "load" && b.Op == "faddr" {
						part, b = b.S, b.Args[0]
					}
					good = good || b.Op == "rval" && x.Parts[part] == role
				}
			}
			c.check("keys", good, t, nil, "the listing does not return exactly the linked keys")
		}
	}
	listing(n+"Keys", "1")
	listing(n+"KeysK2", "2")
	c.atLeast("keys", 2)
	for _, t := range returns(c.P(n + "Len")) {
		ok := false
		for _, e := range t.of("maplen") {
			ok = ok || tk.table(place(e.Map)) != nil && e.Res == t.Ret[0]
		}
		c.check("len", ok, t, nil, "Len does not return the number of links")
	}
	var fields []string
	for _, x := range tk.tables {
		fields = append(fields, x.Field)
	}
	sort.Strings(fields)
	c.ctorMakes("collections.NewTwoKeyMap", fields...)
	for _, p := range c.family("collections", "TwoKeyMap") {
		m := lastSeg(p.Name)
		if m == "Put" || m == "Remove" || m == "RemoveByK2" {
			continue
		}
		for _, t := range p.Traces {
			c.check("read-only", len(tk.changes(t)) == 0, t, nil, "%s changes the tables", m)
		}
	}
	// one critical section per mutation
	for _, m := range []string{"Put", "Remove", "RemoveByK2"} {
		for _, t := range returns(c.P(n + m)) {
			ch := tk.changes(t)
			for i := 1; i < len(ch); i++ {
				c.check("atomic", sameSection(ch[0], ch[i]), t, ch[i], "the tables are changed in separate critical sections, so another call can see half a link")
			}
			for _, e := range t.of("mapget") {
				if len(ch) > 0 {
					c.check("atomic", sameSection(e, ch[0]), t, e, "the old link is looked up outside the critical section that changes it")
				}
			}
		}
	}
	for _, t := range returns(c.P(n + "GetByK2")) {
		g := t.of("mapget")
		for i := 1; i < len(g); i++ {
			c.check("atomic", sameSection(g[0], g[i]), t, g[i], "the link and the value are read in separate critical sections")
		}
	}
}

package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// A map with boolean values in which the package only ever stores true is a
// set: looking a key up yields whether it is present. trueMaps finds the
// struct fields holding such maps: the fields are unexported, are only ever
// assigned freshly made maps, and no update of a boolean map anywhere in the
// package stores anything but the constant true.
func (x *Exec) trueMaps(w *World) {
	x.alwaysTrue = map[string]bool{}
	for _, sp := range w.SSA {
		cand := map[string]bool{}
		spoiled := map[string]bool{}
		all := true
		var fns []*ssa.Function
		add := func(f *ssa.Function) {
			if f != nil {
				fns = append(fns, f)
			}
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(w.Prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
		for k := 0; k < len(fns); k++ {
			f := fns[k]
			fns = append(fns, f.AnonFuncs...)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.MapUpdate:
						if !boolMap(in.Map.Type()) {
							continue
						}
						if v, ok := in.Value.(*ssa.Const); ok && v.Value != nil && v.Value.Kind() == constant.Bool && constant.BoolVal(v.Value) {
							continue
						}
						all = false
					case *ssa.FieldAddr:
						st, ok := deref(in.X.Type()).Underlying().(*types.Struct)
						if !ok || !boolMap(st.Field(in.Field).Type()) {
							continue
						}
						name := fieldKey(deref(in.X.Type()), in.Field)
						if st.Field(in.Field).Exported() {
							spoiled[name] = true
						}
						cand[name] = true
						for _, r := range *in.Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if _, ok := r.Val.(*ssa.MakeMap); !ok || r.Addr != in {
									spoiled[name] = true
								}
							default:
								spoiled[name] = true
							}
						}
						// handing the map itself to other code could add anything
						for _, r := range *in.Referrers() {
							u, ok := r.(*ssa.UnOp)
							if !ok {
								continue
							}
							for _, q := range *u.Referrers() {
								switch q := q.(type) {
								case *ssa.Lookup, *ssa.MapUpdate, *ssa.Range, *ssa.DebugRef:
								case *ssa.Call:
									if _, ok := q.Call.Value.(*ssa.Builtin); !ok {
										spoiled[name] = true
									}
								default:
									spoiled[name] = true
								}
							}
						}
					}
				}
			}
		}
		for n := range cand {
			if all && !spoiled[n] {
				x.alwaysTrue[n] = true
			}
		}
	}
}

func boolMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	b, ok := m.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// nonNilMaps: the map fields whose values are never nil. Every update of such
// a map seen on any path stores a value known not to be nil, and the field
// only ever holds maps made for it, so by induction a value found in it is
// not nil and a nil result of a lookup means absence.
func (x *Exec) nonNilMaps() map[string]bool {
	ok := map[string]bool{}
	bad := map[string]bool{}
	for _, p := range x.order {
		for _, t := range p.Traces {
			for _, e := range t.Events {
				switch e.Kind {
				case "mapset":
					n := place2(t, e.Map)
					if n == "" || e.Val == nil {
						continue
					}
					if nonNilOp(e.Val) || t.Facts.Eval(tEq(e.Val, tNil)) == -1 {
						ok[n] = true
					} else {
						bad[n] = true
					}
				case "store":
					if e.Loc.Op != "faddr" || e.Val == nil || e.Val.T == nil {
						continue
					}
					if _, isMap := e.Val.T.Underlying().(*types.Map); isMap && e.Val.Op != "mkmap" && !isNilVal(e.Val) && !(e.Val.Op == "load" && place(e.Val) == e.Loc.S) {
						bad[e.Loc.S] = true
					}
				}
			}
		}
	}
	for n := range bad {
		delete(ok, n)
	}
	for n := range ok {
		if f := lastSeg(n); f != "" && f[0] >= 'A' && f[0] <= 'Z' {
			delete(ok, n)
		}
	}
	return ok
}

// onlyValue: whether a key is present is not asked for by the lookup.
func onlyValue(i *ssa.Lookup) bool {
	m, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		return false
	}
	switch m.Elem().Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Signature:
	default:
		return false
	}
	if !i.CommaOk {
		return true
	}
	for _, r := range *i.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 1 && len(*e.Referrers()) > 0 {
			return false
		}
	}
	return true
}

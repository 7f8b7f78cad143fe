package main

import (
	"fmt"
	"strings"
)

func evStr(w *World, e *Event) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%-10s %s", e.Kind, w.pos(e.Pos))
	p := func(n string, t *Term) {
		if t != nil {
			fmt.Fprintf(&b, " %s=%s", n, t)
		}
	}
	if e.Name != "" {
		fmt.Fprintf(&b, " %s", e.Name)
	}
	p("fn", e.FnT)
	p("loc", e.Loc)
	p("map", e.Map)
	p("key", e.Key)
	p("ch", e.Ch)
	p("val", e.Val)
	p("res", e.Res)
	p("ok", e.Ok)
	for i, a := range e.Args {
		p(fmt.Sprintf("a%d", i), a)
	}
	if e.Kind == "select" {
		fmt.Fprintf(&b, " case=%d/%d", e.Idx, len(e.Cases))
	}
	if e.Kind == "branch" {
		fmt.Fprintf(&b, " %v", e.Write)
	}
	if e.Loop != nil {
		fmt.Fprintf(&b, " loop=%s", e.Loop.Key)
		if e.Kind == "loopenter" {
			for _, v := range e.Loop.Phis {
				fmt.Fprintf(&b, " {%s init=%s}", v.Term, v.Init)
			}
		}
	}
	if len(e.Locks) > 0 {
		b.WriteString("  HELD")
		for _, h := range e.Locks {
			m := "R"
			if h.Write {
				m = "W"
			}
			fmt.Fprintf(&b, " %s:%s", h.Loc, m)
		}
	}
	if e.Fresh {
		b.WriteString(" fresh")
	}
	return b.String()
}

func dumpProc(w *World, p *Proc, full bool) {
	for i, t := range p.Traces {
		fmt.Printf("  --- trace %d end=%s ret=%v\n", i, t.End, t.Ret)
		for _, e := range t.Events {
			if !full && (e.Kind == "load" || e.Kind == "defer" || e.Kind == "branch" || e.Kind == "enter" || e.Kind == "leave") {
				continue
			}
			fmt.Println("     ", evStr(w, e))
		}
		for _, f := range t.Facts {
			fmt.Println("      fact", f.Atom, f.Val)
		}
		for k, v := range t.Next {
			fmt.Println("      next", k, ":=", v)
		}
	}
}

P="flow/processor.go"
S=open("/repo/"+P).read()
def fn(name):
    i=S.index(name); i=S.rindex("\nfunc ",0,i)+1; j=S.index("\n}\n",i)+3
    return S[i:j]
ON=fn("ProcessorRouterBuilder[E, S]) On(")
ONE=fn("ProcessorRouterBuilder[E, S]) OnEvent(")
DO=fn("ProcessorRouterBuilder[E, S]) Do(")
BU=fn("ProcessorRouterBuilder[E, S]) build(")
RT=fn("ProcessorBuilder[E, S]) Route(")
RO=fn("ProcessorBuilder[E, S]) RouteOn(")
BD=fn("ProcessorBuilder[E, S]) Build(")
M=[]
def m(name, ids, *ed): M.append((name, ids, [(P,o,n) for o,n in ed]))
m("e1-cond-inverted-state","E01",(ON,ON.replace("if !cond(event, state) {","if ok := cond(event, state); !ok && len(rb.chain) > 1 {")))
m("e1-prepend","E01",(DO,DO.replace("append(rb.chain, do)","append([]func(event E, state S) error{do}, rb.chain...)")))
m("e1-do-nil-skip","E01",(BD,BD.replace("				if err","				if fn == nil {\n					return nil\n				}\n				if err")))
m("e1-continue","E01",(BD,BD.replace("					return err\n","					break\n")))
m("e1-lasterr","E01",(BD,"""func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	routes := fb.routes
	return func(event E, state S) error {
		var res error
		for _, route := range routes {
			for _, fn := range route.chain {
				if err := fn(event, state); err != nil {
					res = err
					break
				}
			}
		}
		return res
	}
}
"""))
m("e1-stop-first-route","E01",(BD,BD.replace("				}\n			}\n		}\n		return nil","				}\n			}\n			if len(route.chain) > 0 {\n				return nil\n			}\n		}\n		return nil")))
m("e1-reverse-routes","E01",(BD,BD.replace("for _, route := range routes {","for i := len(routes) - 1; i >= 0; i-- {\n			route := routes[i]")))
m("e1-skip-first","E01",(BD,BD.replace("range route.chain {","range route.chain[1:] {")))
m("e1-retry","E01",(BD,BD.replace("				if err := fn(event, state); err != nil {\n","				if err := fn(event, state); err != nil {\n					if err = fn(event, state); err == nil {\n						continue\n					}\n")))
m("e1-double","E01",(BD,BD.replace("				if err := fn(event, state); err != nil {\n					return err","				if fn(event, state) != nil {\n					return fn(event, state)")))
m("e1-async","E01",(BD,BD.replace("if err := fn(event, state); err != nil {","errs := make(chan error, 1)\n				go func() { errs <- fn(event, state) }()\n				if err := <-errs; err != nil {")))
m("e1-swallow","E01",(ON,ON.replace('return errors.New("filter not passed")',"_ = errors.New(\"filter not passed\")\n			return nil")))
m("e1-cond-cached","E01",(ON,"""func (rb *ProcessorRouterBuilder[E, S]) On(cond func(event E, state S) bool) *ProcessorRouterBuilder[E, S] {
	passed := false
	rb.chain = append(rb.chain, func(event E, state S) error {
		if !passed && !cond(event, state) {
			return errors.New("filter not passed")
		}
		passed = true
		return nil
	})
	return rb
}
"""))
m("e1-onevent-first","E01",(ONE,ONE.replace("	return rb.On(","	if len(rb.chain) > 0 {\n		return rb\n	}\n	return rb.On(")))
m("e1-routeon-order","E01",(RO,RO.replace("rb.OnEvent(cond).Do(fn)","rb.Do(fn).OnEvent(cond)")))
m("e1-routeon-nocond2","E01",(RO,RO.replace("for _, fn := range do {\n			rb.OnEvent(cond).Do(fn)","for i, fn := range do {\n			if i == 0 {\n				rb.OnEvent(cond)\n			}\n			rb.Do(fn)")))
m("e1-routeon-capture","E01",(RO,RO.replace("rb.OnEvent(cond).Do(fn)","rb.OnEvent(cond).Do(func(event E, state S) error { return fn(event, state) })")))
m("e1-routeon-conds-first","E01",(RO,RO.replace("		for _, fn := range do {\n			rb.OnEvent(cond).Do(fn)\n		}","		for range do {\n			rb.OnEvent(cond)\n		}\n		for _, fn := range do[1:] {\n			rb.Do(fn)\n		}")))
m("e1-build-before","E01",(RT,RT.replace("	rb(b)\n	b.build()","	b.build()\n	rb(b)")))
0 and m("e1-route-defer","E01",(RT,RT.replace("	rb(b)\n	b.build()","	defer b.build()\n	rb(b)")))
m("e1-route-replace","E01",(BU,BU.replace("append(rb.parent.routes, route)","append(rb.parent.routes[:0], route)")))
m("e1-route-prepend","E01",(BU,BU.replace("append(rb.parent.routes, route)","append([]ProcessorRouter[E, S]{route}, rb.parent.routes...)")))
m("e1-route-empty-skip","E01",(BU,BU.replace("	rb.parent.routes =","	if len(rb.chain) < 2 {\n		return\n	}\n	rb.parent.routes =")))
m("e1-chain-cut","E01",(BU,BU.replace("chain: rb.chain,","chain: rb.chain[:len(rb.chain)-1],")))
m("e1-shared-builder","E01",(S,S.replace("type ProcessorBuilder[E, S any] struct {\n","type ProcessorBuilder[E, S any] struct {\n	cur    *ProcessorRouterBuilder[E, S]\n").replace("	b := &ProcessorRouterBuilder[E, S]{\n		parent: fb,\n	}\n	rb(b)","	if fb.cur == nil {\n		fb.cur = &ProcessorRouterBuilder[E, S]{\n			parent: fb,\n		}\n	}\n	b := fb.cur\n	rb(b)")))
m("e1-zero-event","E01",(BD,BD.replace("return func(event E, state S) error {","var zero E\n	return func(event E, state S) error {").replace("fn(event, state)","fn(zero, state)")))
m("e1-oneshot","E01",(BD,BD.replace("			for _, fn := range route.chain {","			if len(routes) > 8 {\n				return errors.New(\"too many\")\n			}\n			for _, fn := range route.chain {")))
m("e1-filter-err-continue","E01",(BD,BD.replace("					return err\n","					if err.Error() == \"filter not passed\" {\n						break\n					}\n					return err\n")))
m("same-e1-run-helper","",(BD,"""func (r ProcessorRouter[E, S]) run(event E, state S) error {
	for _, step := range r.chain {
		if err := step(event, state); err != nil {
			return err
		}
	}
	return nil
}

func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	routes := fb.routes
	return func(event E, state S) error {
		for i := range routes {
			if err := routes[i].run(event, state); err != nil {
				return err
			}
		}
		return nil
	}
}
"""))
m("same-e1-index","",(BD,"""func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	return (&built[E, S]{routes: fb.routes}).process
}

type built[E, S any] struct {
	routes []ProcessorRouter[E, S]
}

func (p *built[E, S]) process(event E, state S) error {
	for i := 0; i < len(p.routes); i++ {
		chain := p.routes[i].chain
		for j := 0; j < len(chain); j++ {
			err := chain[j](event, state)
			if err != nil {
				return err
			}
		}
	}
	return nil
}
"""))
m("same-e1-snapshot","",(BD,BD.replace("	routes := fb.routes\n","	routes := append([]ProcessorRouter[E, S](nil), fb.routes...)\n")))
m("same-e1-copy","",(BD,BD.replace("	routes := fb.routes\n","	routes := make([]ProcessorRouter[E, S], len(fb.routes))\n	copy(routes, fb.routes)\n")))
m("e1-copy-cut","E01",(BD,BD.replace("	routes := fb.routes\n","	routes := make([]ProcessorRouter[E, S], len(fb.routes))\n	copy(routes, fb.routes[1:])\n")))
m("e1-live","E01 B01",(BD,BD.replace("	routes := fb.routes\n","").replace("range routes","range fb.routes")))
m("same-e1-on-helper","",(ON,"""func check[E, S any](cond func(event E, state S) bool) func(event E, state S) error {
	return func(event E, state S) error {
		if cond(event, state) {
			return nil
		}
		return errors.New("filter not passed")
	}
}

func (rb *ProcessorRouterBuilder[E, S]) On(cond func(event E, state S) bool) *ProcessorRouterBuilder[E, S] {
	return rb.Do(check(cond))
}
"""))
m("same-e1-on-switch","",(ON,ON.replace("""		if !cond(event, state) {
			return errors.New("filter not passed")
		}
		return nil
""","""		passed := cond(event, state)
		if passed {
			return nil
		}
		return errFilter
""")),(BD,BD+"\nvar errFilter = errors.New(\"filter not passed\")\n"))
m("same-e1-onevent-direct","",(ONE,"""func (rb *ProcessorRouterBuilder[E, S]) OnEvent(cond func(e E) bool) *ProcessorRouterBuilder[E, S] {
	rb.chain = append(rb.chain, func(event E, state S) error {
		if cond(event) {
			return nil
		}
		return errors.New("filter not passed")
	})
	return rb
}
"""))
m("same-e1-inline-build","",(RT,RT.replace("	b.build()\n","	fb.routes = append(fb.routes, ProcessorRouter[E, S]{chain: b.chain})\n")),(BU,""))
m("same-e1-routeon-index","",(RO,RO.replace("for _, fn := range do {\n			rb.OnEvent(cond).Do(fn)","for i := 0; i < len(do); i++ {\n			rb.OnEvent(cond)\n			rb.Do(do[i])")))
m("same-e1-routeon-return","",(RO,RO.replace("	fb.Route(func","	return fb.Route(func").replace("	})\n	return fb\n","	})\n")))
m("same-e1-routeon-var","",(RO,RO.replace("	fb.Route(func(rb","	define := func(rb").replace("		}\n	})\n	return fb\n","		}\n	}\n	return fb.Route(define)\n")))
m("same-e1-pointer-route","",(S,S.replace("routes []ProcessorRouter[E, S]","routes []*ProcessorRouter[E, S]").replace("route := ProcessorRouter[E, S]{","route := &ProcessorRouter[E, S]{")))
m("same-e1-skip-empty","",(BD,BD.replace("			for _, fn := range route.chain {","			if len(route.chain) == 0 {\n				continue\n			}\n			for _, fn := range route.chain {")))
m("same-e1-lists","",(S,S.replace("routes []ProcessorRouter[E, S]","routes [][]func(event E, state S) error").replace("	route := ProcessorRouter[E, S]{\n		chain: rb.chain,\n	}\n	rb.parent.routes = append(rb.parent.routes, route)","	rb.parent.routes = append(rb.parent.routes, rb.chain)").replace("range route.chain","range route").replace("type ProcessorRouter[E, S any] struct {\n	chain []func(event E, state S) error\n}\n","")))
m("same-e1-labels","",(BD,"""func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	routes := fb.routes
	return func(event E, state S) (err error) {
	run:
		for _, route := range routes {
			for _, fn := range route.chain {
				if err = fn(event, state); err != nil {
					break run
				}
			}
		}
		return err
	}
}
"""))
m("same-e1-named","",(BD,"""func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	routes := fb.routes
	return func(event E, state S) (err error) {
		for _, route := range routes {
			for _, fn := range route.chain {
				if err = fn(event, state); err != nil {
					return
				}
			}
		}
		return
	}
}
"""))
m("same-e1-stepper","",(BD,"""func (fb *ProcessorBuilder[E, S]) Build() func(event E, state S) error {
	routes := fb.routes
	return func(event E, state S) error {
		for _, route := range routes {
			var err error
			for i := 0; i < len(route.chain) && err == nil; i++ {
				err = route.chain[i](event, state)
			}
			if err != nil {
				return err
			}
		}
		return nil
	}
}
"""))

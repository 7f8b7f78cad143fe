package main

// Q04: tickers, timers and files are released.

// clock: the ticker or timer whose channel this is.
func clock(ch *Term) (obj *Term, ticker bool) {
	n, b := fieldBase(ch)
	switch n {
	case "time.Ticker.C":
		return b, true
	case "time.Timer.C":
		return b, false
	}
	return nil, false
}

func fileOpened(e *Event) bool {
	if e.Kind != "call" {
		return false
	}
	switch e.Name {
	case "os.Open", "os.Create", "os.OpenFile", "os.CreateTemp", "net.Dial", "net.Listen", "net.DialTimeout":
		return true
	}
	return false
}

func first(t *Term) *Term {
	if t != nil && t.Op == "tuple" {
		return t.Args[0]
	}
	return t
}

// keptBy: the value is returned or stored where others reach it.
func (t *Trace) keptBy(o *Term) bool {
	for _, v := range t.Ret {
		if v.carries(o) {
			return true
		}
	}
	for _, e := range t.of("store", "mapset", "send") {
		if e.Val != nil && e.Val.carries(o) {
			return true
		}
	}
	return false
}

func (t *Term) carries(o *Term) bool {
	if t == nil {
		return false
	}
	if t == o {
		return true
	}
	switch t.Op {
	case "iface", "mk", "tuple", "conv", "append", "assert":
		for _, a := range t.Args {
			if a.carries(o) {
				return true
			}
		}
	}
	return false
}

func ruleQ04(c *Chk) {
	for _, p := range c.x.order {
		for _, t := range p.Traces {
			if t.End == "return" || t.End == "panic" && len(t.of("callback", "cbpanic")) > 0 {
				c.clocksStopped(p, t)
			}
			if t.End == "return" || t.End == "back" {
				c.filesClosed(p, t)
			}
		}
	}
	c.atLeast("ticker", 1)
	c.atLeast("timer", 1)
}

// clocksStopped: a goroutine that waits for a ticker or timer leaves it
// stopped.
func (c *Chk) clocksStopped(p *Proc, t *Trace) {
	type use struct {
		at     *Event
		fired  bool
		ticker bool
	}
	uses := map[*Term]*use{}
	var order []*Term
	note := func(ch *Term, e *Event, fired bool) {
		o, tk := clock(ch)
		if o == nil {
			return
		}
		u := uses[o]
		if u == nil {
			u = &use{}
			uses[o] = u
			order = append(order, o)
		}
		u.at, u.ticker = e, tk
		u.fired = fired
	}
	for _, e := range t.Events {
		switch e.Kind {
		case "recv":
			note(e.Ch, e, true)
		case "select":
			for _, k := range e.Cases {
				note(k.Ch, e, k.Ch == e.Ch && e.Ch != nil)
			}
		case "call":
			if e.Name == "(*time.Timer).Reset" && len(e.Args) > 0 {
				if u := uses[e.Args[0]]; u != nil {
					u.fired = false
				}
			}
			if (e.Name == "time.NewTicker") && e.Proc == nil && !t.keptBy(e.Res) {
				if uses[e.Res] == nil {
					uses[e.Res] = &use{at: e, ticker: true}
					order = append(order, e.Res)
				}
			}
			if e.Name == "time.Tick" && p.Kind == "go" {
				c.check("ticker", false, t, e, "the ticker made by time.Tick can never be stopped, but the goroutine using it ends")
			}
		}
	}
	for _, o := range order {
		u := uses[o]
		name := "timer"
		if u.ticker {
			name = "ticker"
		}
		ok := !u.ticker && u.fired
		for _, e := range t.calls("(*time.Timer).Stop", "(*time.Ticker).Stop") {
			if t.eq(e.Args[0], o) {
				ok = true
			}
		}
		c.use(p)
		c.check(name, ok, t, u.at, "the %s %v is neither stopped nor (for a timer) fired when the code waiting for it ends", name, o)
	}
}

// filesClosed: a file opened here is closed here unless it is handed on.
func (c *Chk) filesClosed(p *Proc, t *Trace) {
	for _, e := range t.of("call") {
		if !fileOpened(e) || e.Res == nil {
			continue
		}
		if t.End == "back" && len(e.Loops) == 0 {
			continue
		}
		if e.Res.Op == "tuple" && t.Facts.Eval(tEq(e.Res.Args[1], tNil)) == -1 {
			continue
		}
		o := first(e.Res)
		if t.keptBy(o) {
			continue
		}
		ok := false
		after := false
		for _, k := range t.of("call") {
			if k == e {
				after = true
			} else if after && lastSeg(k.Name) == "Close" && len(k.Args) > 0 && t.eq(k.Args[0], o) {
				ok = true
			}
		}
		c.use(p)
		c.check("file", ok, t, e, "the path ends without closing what was opened here")
	}
}

func init() {
	register("Q04", "every path on which a goroutine that waits for a ticker or timer returns has stopped it, or its last wait was ended by the timer firing; every path of a call or callback that opened a file has closed it or handed it to the caller", ruleQ04)
}

F = "collections/request_map.go"
CR = '''			vx := f(key)
			rm.mu.Lock()
			r := resultHolder[K, V]{key: key, result: vx, resultTime: time.Now()}
			rm.response[key] = r
			for _, c := range rm.waiters[key] {
				c <- r
			}
			delete(rm.waiters, key)
			rm.mu.Unlock()
'''
CE = CR.replace("vx := f", "vx, err := f").replace("result: vx, res", "result: vx, err: err, res")
EN = '''				rm.mu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.mu.Unlock()
			}()
		}()
	}
	res := <-ch
	return res.result, res.err
'''
M = [
 ("r-no-recheck", "R01 R02", [(F, '''	rm.mu.Lock()
	v, ok = rm.response[key]
	if ok {
		rm.mu.Unlock()
		return v.result, v.err
	}
	ch :=''', '''	rm.mu.Lock()
	ch :=''')]),
 ("r-spawn-always", "R01", [(F, "	if !ok { // Start goroutine\n		go func() {\n			vx, err", "	if !ok || len(rm.ctx.Err().Error()) > 0 { // Start goroutine\n		go func() {\n			vx, err")]),
 ("r-two-sections", "R01", [(F, CE, CE.replace("			rm.response[key] = r\n", "").replace("			rm.mu.Unlock()\n", "			rm.mu.Unlock()\n			rm.mu.Lock()\n			rm.response[key] = r\n			rm.mu.Unlock()\n"))]),
 ("r-unbuffered", "R02", [(F, "	ch := make(chan resultHolder[K, V], 1)\n	_, ok = rm.waiters[key]\n	rm.waiters[key] = append(rm.waiters[key], ch)\n	rm.mu.Unlock()\n	if !ok { // Start goroutine\n		go func() {\n			vx := f(key)", "	ch := make(chan resultHolder[K, V])\n	_, ok = rm.waiters[key]\n	rm.waiters[key] = append(rm.waiters[key], ch)\n	rm.mu.Unlock()\n	if !ok { // Start goroutine\n		go func() {\n			vx := f(key)")]),
 ("r-wake-first-only", "R02", [(F, CR, CR.replace("				c <- r\n", "				c <- r\n				break\n"))]),
 ("r-wake-unlocked-key-kept", "R02", [(F, CR, CR.replace("			for _, c := range rm.waiters[key] {", "			chans := rm.waiters[key]\n			rm.mu.Unlock()\n			for _, c := range chans {").replace("			delete(rm", "			rm.mu.Lock()\n			delete(rm"))]),
 ("r-err-skips-wake", "R02", [(F, CE, CE.replace("			for _, c", "			if err != nil {\n				rm.mu.Unlock()\n				return\n			}\n			for _, c"))]),
 ("r-sends-zero-on-err", "R02", [(F, CE, CE.replace("				c <- r\n", "				if err != nil {\n					c <- resultHolder[K, V]{err: err}\n				} else {\n					c <- r\n				}\n"))]),
 ("r-cached-err-lost", "R02", [(F, "	if ok {\n		return v.result, v.err\n	}\n	rm.mu.Lock()", "	if ok {\n		return v.result, nil\n	}\n	rm.mu.Lock()")]),
 ("r-stored-err-lost", "R01", [(F, "result: vx, err: err, resultTime", "result: vx, resultTime"), (F, "vx, err := f(key)", "vx, _ := f(key)")]),
 ("r-registered-late", "R01 R02", [(F, '''	_, ok = rm.waiters[key]
	rm.waiters[key] = append(rm.waiters[key], ch)
	rm.mu.Unlock()
	if !ok { // Start goroutine
		go func() {
			vx := f''', '''	_, ok = rm.waiters[key]
	rm.mu.Unlock()
	rm.mu.Lock()
	rm.waiters[key] = append(rm.waiters[key], ch)
	rm.mu.Unlock()
	if !ok { // Start goroutine
		go func() {
			vx := f''')]),
 ("r-recover", "R02", [(F, "			vx, err := f(key)\n", "			defer func() { recover() }()\n			vx, err := f(key)\n")]),
 ("r-error-not-cached", "R01", [(F, CE, CE.replace("			rm.response[key] = r\n", "			if err == nil {\n				rm.response[key] = r\n			}\n"))]),
 ("r-timeout-unbuffered", "R04", [(F, "		res := make(chan resultHolder[K, V], 1)", "		res := make(chan resultHolder[K, V])")]),
 ("r-timeout-err-lost", "R04", [(F, "key: k, result: v, err: err}", "key: k, result: v}"), (F, "v, err := f(k)", "v, _ := f(k)")]),
 ("r-timeout-nil", "R04", [(F, "			return result, ErrTimeout", "			return result, nil")]),
 ("same-r-wake-after-unlock", "", [(F, CR, CR.replace("			for _, c := range rm.waiters[key] {\n				c <- r\n			}\n			delete(rm.waiters, key)\n			rm.mu.Unlock()\n", "			chans := rm.waiters[key]\n			delete(rm.waiters, key)\n			rm.mu.Unlock()\n			for i := 0; i < len(chans); i++ {\n				chans[i] <- r\n			}\n"))]),
 ("same-r-helper", "", [(F, CR, "			vx := f(key)\n			r := rm.publish(key, vx, nil)\n"), (F, CE, "			vx, err := f(key)\n			r := rm.publish(key, vx, err)\n"), (F, "// Timeout returns a function", '''func (rm *RequestMap[K, V]) publish(key K, value V, err error) resultHolder[K, V] {
	rm.mu.Lock()
	defer rm.mu.Unlock()
	r := resultHolder[K, V]{key: key, result: value, err: err, resultTime: time.Now()}
	for _, c := range rm.waiters[key] {
		c <- r
	}
	delete(rm.waiters, key)
	rm.response[key] = r
	return r
}

// Timeout returns a function''')]),
 ("same-r-delegates", "", [(F, '''	rm.mu.RLock()
	v, ok := rm.response[key]
	rm.mu.RUnlock()
	if ok {
		return v.result
	}
	rm.mu.Lock()
	v, ok = rm.response[key]
	if ok {
		rm.mu.Unlock()
		return v.result
	}
	ch := make(chan resultHolder[K, V], 1)
	_, ok = rm.waiters[key]
	rm.waiters[key] = append(rm.waiters[key], ch)
	rm.mu.Unlock()
	if !ok { // Start goroutine
		go func() {
''' + CR + '''			// Start remove goroutine
			go func() {
				//time.Sleep(rm.deleteAfter)
				//rm.mu.Lock()
				//defer rm.mu.Unlock()
				//delete(rm.waiters, key)
				//delete(rm.response, key)
				rm.mu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.mu.Unlock()
			}()
		}()
	}
	res := <-ch
	return res.result
''', '''	res, _ := rm.GetOrCreateWithErr(key, func(k K) (V, error) {
		return f(k), nil
	})
	return res
''')]),
 ("same-r-list-first", "", [(F, '''	_, ok = rm.waiters[key]
	rm.waiters[key] = append(rm.waiters[key], ch)
	rm.mu.Unlock()
	if !ok { // Start goroutine
		go func() {
			vx := f''', '''	list, ok := rm.waiters[key]
	list = append(list, ch)
	rm.waiters[key] = list
	rm.mu.Unlock()
	if first := !ok; first {
		go func() {
			vx := f''')]),
 ("same-r-timer", "", [(F, "		select {\n		case r := <-res:\n			return r.result, r.err\n		case <-time.After(duration):", "		timer := time.NewTimer(duration)\n		defer timer.Stop()\n		select {\n		case r := <-res:\n			return r.result, r.err\n		case <-timer.C:")]),
 ("same-r-timeout-chans", "", [(F, "			var result V\n			return result, ErrTimeout", "			return *new(V), ErrTimeout")]),

 ("r3-wrong-compare", "R03", [(F, "			if time.Since(r.resultTime) < rm.deleteAfter {", "			if time.Since(first.resultTime) < rm.deleteAfter {")]),
 ("r3-stop-early", "R03", [(F, "			delete(rm.response, r.key)\n		}\n		rm.resultSlice = nil", "			delete(rm.response, r.key)\n			if i > 1000 {\n				rm.resultSlice = rm.resultSlice[i+1:]\n				return\n			}\n		}\n		rm.resultSlice = nil")]),
 ("r3-trim-off", "R03", [(F, "rm.resultSlice = rm.resultSlice[i:]", "rm.resultSlice = rm.resultSlice[i+1:]")]),
 ("r3-enlist-twice", "R03", [(F, EN, EN.replace("				rm.resultSlice = append(rm.resultSlice, r)\n", "				rm.resultSlice = append(rm.resultSlice, r, r)\n"))]),
 ("r3-enlist-only-ok", "R03", [(F, EN, EN.replace("				rm.resultSlice = append(rm.resultSlice, r)\n", "				if r.err == nil {\n					rm.resultSlice = append(rm.resultSlice, r)\n				}\n"))]),
 ("r3-preload-dup", "R03", [(F, """			if _, ok := res.response[i.Key]; !ok {
				res.resultSlice = append(res.resultSlice, r)
			}
""", """			res.resultSlice = append(res.resultSlice, r)
""")]),
 ("r3-time-early", "R03", [(F, CE, CE.replace("			vx, err :=", "			start := time.Now()\n			vx, err :=").replace("time.Now()}", "start}"))]),
 ("r3-no-preload-enlist", "R03", [(F, """			if _, ok := res.response[i.Key]; !ok {
				res.resultSlice = append(res.resultSlice, r)
			}
""", "")]),
 ("r3-clear-race", "R03", [(F, """			delete(rm.response, r.key)
		}
		rm.resultSlice = nil""", """			delete(rm.response, r.key)
		}
		rm.mu.Unlock()
		rm.mu.Lock()
		rm.resultSlice = nil""")]),
 ("r3-worker-ends", "R03", [(F, "		case <-time.After(time.Millisecond * 100):\n			do()", "		case <-time.After(time.Millisecond * 100):\n			do()\n			if rm.deleteAfter == 0 {\n				return\n			}")]),
 ("same-r3-method", "", [(F, """	do := func() {
""", """	for {
		select {
		case <-rm.ctx.Done():
			return
		case <-time.After(time.Millisecond * 100):
			rm.expire()
		}
	}
}

func (rm *RequestMap[K, V]) expire() {
"""), (F, """		rm.resultSlice = nil
	}

	for {
		select {
		case <-rm.ctx.Done():
			return
		case <-time.After(time.Millisecond * 100):
			do()
		}
	}
}
""", """		rm.resultSlice = nil
}
""")]),
 ("same-r3-ticker", "", [(F, """	for {
		select {
		case <-rm.ctx.Done():
			return
		case <-time.After(time.Millisecond * 100):
			do()""", """	tick := time.NewTicker(100 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-rm.ctx.Done():
			return
		case <-tick.C:
			do()""")]),
 ("same-r3-count", "", [(F, """		for i, r := range rm.resultSlice {
			if time.Since(r.resultTime) < rm.deleteAfter {
				rm.resultSlice = rm.resultSlice[i:]
				return
			}
			delete(rm.response, r.key)
		}
		rm.resultSlice = nil""", """		n := 0
		for n < len(rm.resultSlice) && time.Since(rm.resultSlice[n].resultTime) >= rm.deleteAfter {
			delete(rm.response, rm.resultSlice[n].key)
			n++
		}
		rm.resultSlice = rm.resultSlice[n:]""")]),
 ("same-r3-pop", "", [(F, """		for i, r := range rm.resultSlice {
			if time.Since(r.resultTime) < rm.deleteAfter {
				rm.resultSlice = rm.resultSlice[i:]
				return
			}
			delete(rm.response, r.key)
		}
		rm.resultSlice = nil""", """		for len(rm.resultSlice) > 0 {
			r := rm.resultSlice[0]
			if time.Since(r.resultTime) < rm.deleteAfter {
				return
			}
			delete(rm.response, r.key)
			rm.resultSlice = rm.resultSlice[1:]
		}""")]),
 ("same-r3-enlist-inline", "", [(F, CE + """			// Start remove goroutine
			go func() {
				//time.Sleep(rm.deleteAfter)
				//rm.mu.Lock()
				//defer rm.mu.Unlock()
				//delete(rm.waiters, key)
				//delete(rm.response, key)
				rm.mu.Lock()
				rm.resultSlice = append(rm.resultSlice, r)
				rm.mu.Unlock()
			}()
""", CE.replace("			rm.response[key] = r\n", "			rm.response[key] = r\n			rm.resultSlice = append(rm.resultSlice, r)\n"))]),
 ("same-r3-init-continue", "", [(F, """			if _, ok := res.response[i.Key]; !ok {
				res.resultSlice = append(res.resultSlice, r)
			}
			res.response[i.Key] = r
""", """			_, dup := res.response[i.Key]
			res.response[i.Key] = r
			if dup {
				continue
			}
			res.resultSlice = append(res.resultSlice, r)
""")]),
]

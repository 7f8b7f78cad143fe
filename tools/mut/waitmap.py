F = "collections/wait_map.go"
SETW = '''	wm.dataHolder[key] = value
	if chans, ok := wm.waiterChannels[key]; ok {
		for _, ch := range chans {
			ch <- value
			close(ch) // Закрываем канал после отправки значения
		}
		delete(wm.waiterChannels, key)
	}
'''
M = [
 ("v-no-recheck", "V01", [(F, '''	wm.mu.Lock()
	value, ok = wm.dataHolder[key]
	if ok {
		wm.mu.Unlock()
		return value
	}

	ch :=''', '''	wm.mu.Lock()
	ch :=''')]),
 ("v-register-after-unlock", "V01", [(F, "	wm.waiterChannels[key] = append(wm.waiterChannels[key], ch)\n	wm.mu.Unlock()", "	wm.mu.Unlock()\n	wm.mu.Lock()\n	wm.waiterChannels[key] = append(wm.waiterChannels[key], ch)\n	wm.mu.Unlock()")]),
 ("v-set-wakes-outside-snapshot", "V01", [(F, '''	wm.mu.Lock()
	defer wm.mu.Unlock()
	wm.set(key, value)''', '''	wm.mu.RLock()
	pending := wm.waiterChannels[key]
	wm.mu.RUnlock()
	for _, ch := range pending {
		ch <- value
	}
	wm.mu.Lock()
	defer wm.mu.Unlock()
	if len(pending) > 0 {
		delete(wm.waiterChannels, key)
	}
	wm.set(key, value)''')]),
 ("v-ctx-keeps-waiters", "V01", [(F, "					delete(wm.waiterChannels, key)\n				}\n				wm.mu.Unlock()", "				}\n				wm.mu.Unlock()")]),
 ("v-ctx-first-only", "V01", [(F, "						close(ch)\n					}\n					delete", "						close(ch)\n						if len(chans) > 64 {\n							break\n						}\n					}\n					delete")]),
 ("v-timeout-no-identity", "V02", [(F, "len(chans) > 0 && chans[0] == ch {", "len(chans) > 0 {")]),
 ("v-timeout-identity-outside", "V02", [(F, '''				wm.mu.Lock()
				defer wm.mu.Unlock()
				if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == ch {
					var v V
					wm.set(key, v)''', '''				wm.mu.RLock()
				chans := wm.waiterChannels[key]
				wm.mu.RUnlock()
				if len(chans) > 0 && chans[0] == ch {
					var v V
					wm.Set(key, v)''')]),
 ("v-set-overwrites", "V02", [(F, "	if _, ok := wm.dataHolder[key]; ok {\n		return\n	}\n", "	if _, ok := wm.dataHolder[key]; ok && len(wm.waiterChannels[key]) == 0 {\n		return\n	}\n")]),
 ("v-expiry-when-ignored", "V02", [(F, SETW, ""), (F, "	if _, ok := wm.dataHolder[key]; ok {\n		return\n	}\n", "	if _, ok := wm.dataHolder[key]; !ok {\n" + SETW + "	}\n")]),
 ("v-wrong-ttl", "V02", [(F, "case <-time.After(wm.responseTtl):", "case <-time.After(wm.requestTimeout):")]),
 ("v-wrong-timeout", "V01", [(F, "case <-time.After(wm.requestTimeout): // TIMEOUT", "case <-time.After(wm.responseTtl): // TIMEOUT")]),
 ("v-timeout-wakes-no-store", "V01", [(F, '''					var v V
					wm.set(key, v)
				}''', '''					for _, c := range chans {
						close(c)
					}
					delete(wm.waiterChannels, key)
				}''')]),
 ("v-unbuffered", "V01", [(F, "	ch := make(chan V, 1)", "	ch := make(chan V)")]),
 ("v-producer-for-each-empty", "V01", [(F, "	_, ok = wm.waiterChannels[key]\n	if !ok {", "	_, ok = wm.waiterChannels[key]\n	if !ok && wm.requestTimeout > 0 {")]),
 ("v-set-waits-zero", "V01", [(F, "			ch <- value\n			close(ch) //", "			close(ch) //")]),
 ("v-timer-leak-return", "V01", [(F, "			case <-time.After(wm.requestTimeout): // TIMEOUT\n				wm.mu.Lock()\n				defer wm.mu.Unlock()\n", "			case <-time.After(wm.requestTimeout): // TIMEOUT\n				if !wm.mu.TryLock() {\n					return\n				}\n				defer wm.mu.Unlock()\n")]),
 ("same-v-helper", "", [(F, SETW, "	wm.dataHolder[key] = value\n	wm.wake(key, value)\n"), (F, '''				if chans, exists := wm.waiterChannels[key]; exists {
					var v V
					for _, ch := range chans {
						ch <- v
						close(ch)
					}
					delete(wm.waiterChannels, key)
				}
				wm.mu.Unlock()''', '''				var v V
				wm.wake(key, v)
				wm.mu.Unlock()'''), (F, "// set must be called", '''func (wm *WaitMap[K, V]) wake(key K, value V) {
	chans := wm.waiterChannels[key]
	delete(wm.waiterChannels, key)
	for i := range chans {
		chans[i] <- value
		close(chans[i])
	}
}

// set must be called''')]),
 ("same-v-afterfunc", "", [(F, '''		select {
		case <-wm.ctx.Done():
			wm.mu.Lock()
			delete(wm.dataHolder, key)
			wm.mu.Unlock()
			return
		case <-time.After(wm.responseTtl):
			wm.mu.Lock()
			delete(wm.dataHolder, key)
			wm.mu.Unlock()
		}''', '''		t := time.NewTimer(wm.responseTtl)
		defer t.Stop()
		select {
		case <-wm.ctx.Done():
		case <-t.C:
		}
		wm.mu.Lock()
		delete(wm.dataHolder, key)
		wm.mu.Unlock()''')]),
 ("same-v-goroutine-method", "", [(F, '''		go func() {
			select {
			case <-wm.ctx.Done():
				wm.mu.Lock()
				if chans''', '''		go wm.guard(key, ch)
	}
	wm.waiterChannels[key] = append(wm.waiterChannels[key], ch)
	wm.mu.Unlock()

	value = <-ch
	return value
}

func (wm *WaitMap[K, V]) guard(key K, ch chan V) {
			select {
			case <-wm.ctx.Done():
				wm.mu.Lock()
				if chans'''), (F, '''					wm.set(key, v)
				}
			}
		}()
	}
	wm.waiterChannels[key] = append(wm.waiterChannels[key], ch)
	wm.mu.Unlock()

	value = <-ch
	return value
}
''', '''					wm.set(key, v)
				}
			}
}
''')]),
 ("same-v-inverted", "", [(F, "	if _, ok := wm.dataHolder[key]; ok {\n		return\n	}\n", "	_, ok := wm.dataHolder[key]\n	if ok {\n		return\n	}\n"), (F, '''				if chans := wm.waiterChannels[key]; len(chans) > 0 && chans[0] == ch {
					var v V
					wm.set(key, v)
				}''', '''				chans := wm.waiterChannels[key]
				if len(chans) == 0 || chans[0] != ch {
					return
				}
				wm.set(key, *new(V))''')]),
]
